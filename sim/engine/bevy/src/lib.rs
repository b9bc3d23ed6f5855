pub use bevy_math as math;
pub use bevy_transform as transform;
pub mod prelude {
    pub use bevy_math::prelude::*;
    pub use bevy_transform::components::{GlobalTransform, Transform};
    pub use engine_derive::Component;
}
