//! Programs of one or more threads that use shapes, maps, files and publishers, in which user code called by the library
//! (shapes, transforms, the logger, subscribers, hash and equality functions) switches threads, panics, misbehaves, stalls
//! or calls the library again. The child executes and observes; the judging is in judge.rs.
use crate::rng::Rng;
use crate::rt::{self, g, lib, lib_raw, me, point, Act, Body, Env, HBarrier, HRw, Host, Point as PP, Report, SimPanic, MEM, USER};
use crate::store::{answers, dump_some};
use auburn::col2d::*;
use auburn::utils::publisher::{CallbackPublisher, HashsetLedger, Ledger, Publisher};
use lk_math::vector::V2i32;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::any::Any;
use std::collections::BTreeSet;

pub type B2 = (u32, u32);
/// floats are kept as their bits: a replay file must say exactly what was run
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sh {
    Point,
    Ball(u32),
    Rect(u32, u32),
    Poly(Vec<B2>),
    /// the library's shape union
    S2(Box<Sh>),
    /// a shape of the user's own
    User(Box<Sh>),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Tr {
    pub pos: B2,
    pub ang: u32,
    pub scale: B2,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Q {
    /// tk: 0 Vec2, 1 Translate2d, 2 AxisTransform2d, 3 Transform2d, 4 a user's own transform, 5 the game engine's, 6 the identity (relative form)
    /// kind: 0 collides, 1 penetrates, 2 distance, 3 sdfv, 4 sdf; rel: the relative form (tb is the transform)
    Pair { a: Sh, b: Sh, ta: Tr, tb: Tr, tk: u8, kind: u8, rel: bool },
    /// one shape and two transforms: 0 extreme point, 1 transformed extreme points, 2 bounding box, 3 transforms, 4 constructors
    One { a: Sh, ta: Tr, tb: Tr, tk: u8, what: u8, dir: B2 },
    /// every kind of answer of a tilemap around a place
    Map { tiles: Vec<(i32, i32, u8)>, at: B2, seed: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum WOp {
    /// query, on shapes made for this call (true) or on shared, long-lived ones
    Q(u16, bool),
    Rep(u16, u32),
    Set(u8, i32, i32, u8),
    Rem(u8, i32, i32),
    Get(u8, i32, i32),
    Dump(u8),
    /// answers of a map: map, x, y, seed
    Ans(u8, u32, u32, u32),
    /// point query with a user's transform
    UProbe(u8, i32, i32),
    Events(u8),
    Save(u8, u8),
    Load(u8, u8),
    /// load a file and look at it
    Peek(u8),
    /// serialise and parse in memory
    Stream(u8),
    /// publisher, kind: 0 note, 1 forwards to the next publisher, 2 makes a query, 3 forwards twice
    Attach(u8, u8),
    Note(u8, u32),
    LNote(u8, u32),
    LDrain(u8, u8),
    SNote(u8, u32),
    SDrain(u8, u8),
    /// many notifications in a row: ledger kind (0 list, 1 set, 2 publisher), which, first, count
    Bulk(u8, u8, u32, u32),
    Barrier,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WCase {
    pub env: Env,
    pub qs: Vec<Q>,
    pub threads: Vec<Vec<WOp>>,
    pub plan: Vec<PP>,
    /// 0 good, 1 constant, 2 few values
    pub hash: u8,
}
pub const WPATHS: [&str; 10] = ["t0.map", "t0.json", "t1.map", "d/t0.map", "t2", "t3.map", "shared.map", "./shared.map", "other.dat", "d/other.dat"];

// ------------------------------------------------------------------ shapes
#[derive(Clone, Debug)]
pub struct UShape {
    pts: Vec<Vec2>,
    radius: f32,
}
pub enum Built {
    Point(Point),
    Ball(Ball),
    Rect(Box2d),
    Poly(Poly2d),
    S2(Shape2d),
    User(UShape),
}
pub fn f(b: u32) -> f32 {
    f32::from_bits(b)
}
pub fn fv(b: B2) -> Vec2 {
    Vec2::new(f(b.0), f(b.1))
}
pub fn build(s: &Sh) -> Built {
    match s {
        Sh::Point => Built::Point(Point),
        Sh::Ball(r) => Built::Ball(Ball::with_radius(f(*r))),
        Sh::Rect(x, y) => Built::Rect(Box2d::with_halfdims(f(*x), f(*y))),
        Sh::Poly(p) => Built::Poly(Poly2d::new(&p.iter().map(|&x| fv(x)).collect::<Vec<_>>())),
        Sh::S2(i) => Built::S2(match &**i {
            Sh::Ball(r) => Shape2d::ball(f(*r)),
            Sh::Rect(x, y) => Shape2d::rect(f(*x), f(*y)),
            Sh::Poly(p) => Shape2d::poly(&p.iter().map(|&x| fv(x)).collect::<Vec<_>>()),
            _ => Shape2d::ball(1.0),
        }),
        Sh::User(i) => Built::User(match &**i {
            Sh::Ball(r) => UShape { pts: vec![Vec2::ZERO], radius: f(*r) },
            Sh::Rect(x, y) => {
                let (x, y) = (f(*x), f(*y));
                UShape { pts: vec![Vec2::new(-x, -y), Vec2::new(x, y), Vec2::new(-x, y), Vec2::new(x, -y)], radius: 0.0 }
            }
            Sh::Poly(p) => UShape { pts: p.iter().map(|&x| fv(x)).collect(), radius: 0.0 },
            _ => UShape { pts: vec![Vec2::ZERO], radius: 0.0 },
        }),
    }
}
fn same(a: Vec2, b: B2) -> bool {
    a.x.to_bits() == b.0 && a.y.to_bits() == b.1
}
fn intact(s: &Sh, b: &Built) -> bool {
    let poly = |p: &Vec<B2>, q: &[Vec2]| p.len() == q.len() && p.iter().zip(q).all(|(x, y)| same(*y, *x));
    match (s, b) {
        (Sh::Point, Built::Point(_)) => true,
        (Sh::Ball(r), Built::Ball(x)) => x.radius.to_bits() == *r,
        (Sh::Rect(x, y), Built::Rect(z)) => same(z.halfsize, (*x, *y)),
        (Sh::Poly(p), Built::Poly(x)) => poly(p, &x.points),
        (Sh::S2(i), Built::S2(x)) => match (&**i, x) {
            (Sh::Ball(r), Shape2d::Ball(x)) => x.radius.to_bits() == *r,
            (Sh::Rect(x, y), Shape2d::Box2d(z)) => same(z.halfsize, (*x, *y)),
            (Sh::Poly(p), Shape2d::Poly2d(x)) => poly(p, &x.points),
            (_, Shape2d::Ball(x)) => x.radius == 1.0,
            _ => false,
        },
        (Sh::User(_), Built::User(_)) => true,
        _ => false,
    }
}
impl UShape {
    fn honest(&self, d: Vec2) -> Vec2 {
        let mut best = (f32::MIN, Vec2::ZERO);
        for &p in &self.pts {
            let s = d.dot(p);
            if s > best.0 {
                best = (s, p);
            }
        }
        best.1 + self.radius * d.normalize_or_zero()
    }
}
impl ExtremePoint2d for UShape {
    fn extreme_point(&self, d: Vec2) -> Vec2 {
        let _h = Host::enter();
        let w = w();
        let t = me();
        w.th[t].calls += 1;
        user_act(point(USER));
        let h = self.honest(d);
        if w.th[t].lie.is_some() { lie_point(t, h, d) } else { h }
    }
}
impl<T: Transformation2d> ExtremePointT2d<T> for UShape {}
impl DefaultMinkowski<UShape> for UShape {}
impl DefaultMinkowski<Box2d> for UShape {}
impl DefaultMinkowski<Poly2d> for UShape {}
impl DefaultMinkowski<Ball> for UShape {}
impl DefaultMinkowski<UShape> for Box2d {}
impl DefaultMinkowski<UShape> for Poly2d {}
impl DefaultMinkowski<UShape> for Ball {}

/// how a lying support function answers: mode, calls so far, generator, last answer, until the end of the query
#[derive(Clone)]
struct Lie {
    mode: u32,
    n: u32,
    r: Rng,
    last: Vec2,
    sticky: bool,
    /// parameters of the mode
    par: [f32; 3],
    /// from this call on, another mode
    switch: (u32, u32),
}
pub const LIE_MODES: u32 = 36;
fn lie(k: u32) -> Lie {
    let mut r = Rng::new(k as u64);
    let mut f = || r.f() as f32;
    let par = [f(), f(), f()];
    let switch = if r.p(0.2) { (1 + r.below(30) as u32, r.below(LIE_MODES as u64) as u32) } else { (u32::MAX, 0) };
    Lie { mode: k % LIE_MODES, n: 0, r, last: Vec2::ZERO, sticky: k / LIE_MODES % 2 == 0, par, switch }
}
pub const NEST: u32 = 1 << 24;
fn lie_point(t: usize, h: Vec2, d: Vec2) -> Vec2 {
    let slot = &mut w().th[t];
    let mut l = slot.lie.take().unwrap();
    l.n += 1;
    if l.n == l.switch.0 {
        l.mode = l.switch.1;
    }
    let n = l.n as f32;
    let [pa, pb, pc] = l.par;
    let axis = Vec2::from_angle(pa * std::f32::consts::TAU);
    let rr = |r: &mut Rng| r.f() as f32 * 2.0 - 1.0;
    let dn = d.normalize_or_zero();
    let mut mode = l.mode;
    if mode == 18 {
        mode = l.r.below(18) as u32;
    }
    let p = match mode {
        0 => Vec2::NAN,
        1 => Vec2::new(f32::NAN, h.y),
        2 => Vec2::INFINITY,
        3 => Vec2::NEG_INFINITY,
        4 => Vec2::new(f32::INFINITY, f32::NEG_INFINITY),
        5 => Vec2::new(3.0e38f32.copysign(d.x), 3.0e38f32.copysign(d.y)),
        6 => Vec2::ZERO,
        7 => -h,
        8 => Vec2::new(rr(&mut l.r), rr(&mut l.r)) * 10.0,
        9 => if l.n % 2 == 0 { h } else { -h },
        10 => l.last,
        11 => dn * 1.02f32.powf(n),
        12 => dn.perp() * 1.0e6,
        13 => dn * 1.0e-40,
        14 => d,
        15 => -d,
        16 => Vec2::new(rr(&mut l.r), rr(&mut l.r)) * 10f32.powf(20.0 + 18.0 * l.r.f() as f32),
        17 => h * (1.0 + 0.02 * n),
        19 => dn * 1.0e-3 + dn.perp() * rr(&mut l.r) * 5.0,
        20 => dn * 1.5f32.powf(n) + dn.perp() * 1.4f32.powf(n),
        21 => dn * (1.0 + n) + dn.perp() * if l.n % 2 == 0 { 1.0 } else { -1.0 } * 1.0e4,
        22 => dn * 1.05f32.powf(n * n),
        // ever further out, slowly
        24 => dn * (0.1 + 3.0 * pb) * n.powf(2.0 * pa),
        25 => h * n.powf(2.0 * pa),
        26 => dn * (l.last.dot(dn).abs() * (1.0 + 0.3 * pa) + 0.01 * pb),
        // ever closer
        27 => dn * (0.1 + 10.0 * pb) * n.powf(-2.0 * pa),
        28 => dn * -(0.1 + 10.0 * pb) * n.powf(-2.0 * pa) + dn.perp() * (pc - 0.5),
        // all on one line, through the origin or not
        29 => axis * (n.powf(2.0 * pb - 1.0)).copysign(axis.dot(d)) + axis.perp() * if pc < 0.5 { 0.0 } else { pc },
        // so small that directions vanish
        30 => (dn + axis * 0.3 * pb) * 10f32.powf(-3.0 - 5.0 * pc),
        // a few points in turn, whatever is asked
        31 => Vec2::from_angle((l.n % (2 + (pb * 5.0) as u32)) as f32 * pa * 6.0) * (0.1 + 3.0 * pc),
        // as good as the last answer in the new direction, elsewhere
        32 => l.last + dn.perp() * (pa - 0.5),
        33 => l.last + dn * 0.1 * pa,
        // a spiral
        34 => Vec2::from_angle(n * (pa + 0.1)) * (0.5 + pb * n * 0.2),
        35 => dn * (1.0 + pa) + dn.perp() * n.powf(2.0 * pb) * if pc < 0.5 { 1.0 } else { (-1f32).powi(l.n as i32) },
        _ => Vec2::new(h.y, -h.x) * (1.0 + 0.1 * rr(&mut l.r)),
    };
    l.last = p;
    rt::fired(&format!("lie:{mode}"));
    if l.sticky {
        slot.lie = Some(l);
    }
    p
}
/// What user code does when the library calls it.
fn user_act(a: Option<Act>) {
    let t = me();
    match a {
        Some(Act::Panic) => user_panic("user"),
        Some(Act::Lie(k)) if k >= NEST => nested((k - NEST) as usize),
        Some(Act::Lie(k)) => {
            w().th[t].tainted = true;
            w().th[t].lie = Some(lie(k));
        }
        Some(Act::Nest(k)) => nest_from(USER, k),
        None => nest_more(USER),
        _ => {}
    }
}
fn nest_from(c: usize, k: u32) {
    w().th[me()].always = Some((c, k, 150));
    nested(k as usize);
}
/// user code that calls the library again and again: at about one in eight of its calls, up to 150 times in an operation
fn nest_more(c: usize) {
    let th = &mut w().th[me()];
    if let Some((c2, k, left)) = th.always {
        if c2 == c && th.depth == 0 && left > 0 {
            let k = k.wrapping_mul(747796405).wrapping_add(2891336453);
            let go = (k >> 22) % 8 == 0;
            th.always = Some((c, k, left - go as u32));
            if go {
                nested((k >> 7) as usize & 0xffff);
            }
        }
    }
}
fn user_panic(who: &str) -> ! {
    let t = me();
    rt::fired(&format!("panic:{who}"));
    let w = w();
    w.panics += 1;
    let id = (t as u64) << 32 | w.panics;
    w.th[t].pend.push(id);
    std::panic::panic_any(SimPanic(id))
}
fn nested(q: usize) {
    let t = me();
    let w = w();
    if w.th[t].depth >= 3 || w.qs.is_empty() {
        return;
    }
    rt::fired("nested-query");
    w.th[t].depth += 1;
    let lie = w.th[t].lie.take();
    let taint = std::mem::replace(&mut w.th[t].tainted, false);
    let pend = std::mem::take(&mut w.th[t].pend);
    let calls = w.th[t].calls;
    let q = q % w.qs.len();
    let r = do_query(q, q % 2 == 0);
    g().obs.push(json!({"t": t, "q": q, "r": r, "taint": w.th[t].tainted}));
    w.th[t].lie = lie;
    w.th[t].tainted = taint;
    w.th[t].pend = pend;
    w.th[t].calls = calls;
    w.th[t].depth -= 1;
}
pub fn log_hook(a: Option<Act>) {
    if unsafe { WP.is_null() } {
        return;
    }
    match a {
        Some(Act::Panic) => user_panic("logger"),
        Some(Act::Lie(k)) => nested((k % NEST) as usize),
        Some(Act::Nest(k)) => nest_from(rt::LOG, k),
        None => nest_more(rt::LOG),
        _ => {}
    }
}

/// a transform of the user's own: nothing of it is computed by the library
#[derive(Clone)]
pub struct UTr {
    pos: Vec2,
    rot: (f32, f32),
    scale: Vec2,
}
fn utr(t: &Tr) -> UTr {
    let a = f(t.ang);
    UTr { pos: fv(t.pos), rot: (a.cos(), a.sin()), scale: fv(t.scale) }
}
fn tpoint() {
    let _h = Host::enter();
    match point(USER) {
        Some(Act::Panic) => user_panic("transform"),
        Some(Act::Lie(k)) if k >= NEST => nested((k - NEST) as usize),
        Some(Act::Nest(k)) => nest_from(USER, k),
        None => nest_more(USER),
        _ => {}
    }
}
impl UTr {
    fn turn(&self, p: Vec2) -> Vec2 {
        let (c, s) = self.rot;
        Vec2::new(c * p.x - s * p.y, c * p.y + s * p.x)
    }
    fn unturn(&self, p: Vec2) -> Vec2 {
        let (c, s) = self.rot;
        Vec2::new(c * p.x + s * p.y, c * p.y - s * p.x)
    }
    fn out(&self, p: Vec2) -> Vec2 {
        self.turn(Vec2::new(p.x * self.scale.x, p.y * self.scale.y)) + self.pos
    }
    fn back(&self, p: Vec2) -> Vec2 {
        let p = self.unturn(p - self.pos);
        Vec2::new(p.x / self.scale.x, p.y / self.scale.y)
    }
}
impl Transformation2d for UTr {
    fn apply_origin(&self) -> Vec2 {
        tpoint();
        self.pos
    }
    fn apply(&self, p: Vec2) -> Vec2 {
        tpoint();
        self.out(p)
    }
    fn unapply(&self, p: Vec2) -> Vec2 {
        tpoint();
        self.back(p)
    }
    fn apply_normal(&self, p: Vec2) -> Vec2 {
        tpoint();
        self.turn(p)
    }
    fn unapply_normal(&self, p: Vec2) -> Vec2 {
        tpoint();
        self.unturn(p)
    }
    fn scaling_factor(&self) -> f32 {
        tpoint();
        self.scale.x.max(self.scale.y)
    }
}
impl Invertible for UTr {
    fn inverse(&self) -> Self {
        tpoint();
        UTr { pos: self.back(Vec2::ZERO), rot: (self.rot.0, -self.rot.1), scale: Vec2::new(1.0 / self.scale.x, 1.0 / self.scale.y) }
    }
}
impl Composable for UTr {
    fn compose(&self, o: &Self) -> Self {
        tpoint();
        UTr {
            pos: self.out(o.pos),
            rot: (self.rot.0 * o.rot.0 - self.rot.1 * o.rot.1, self.rot.0 * o.rot.1 + self.rot.1 * o.rot.0),
            scale: Vec2::new(self.scale.x * o.scale.x, self.scale.y * o.scale.y),
        }
    }
}
fn tr(t: &Tr) -> Transform2d {
    Transform2d { pos: fv(t.pos), rot: Rotor2d::from_angle(f(t.ang)), scale: fv(t.scale) }
}

/// the game engine's transform (the library's own in a build without the engine)
#[cfg(feature = "engine")]
type Eng = bevy::prelude::Transform;
#[cfg(feature = "engine")]
fn eng(t: &Tr) -> Eng {
    let (p, s) = (fv(t.pos), fv(t.scale));
    Eng { translation: bevy::math::Vec3::new(p.x, p.y, p.x - p.y), rotation: bevy::math::Quat::from_rotation_z(f(t.ang)), scale: bevy::math::Vec3::new(s.x, s.y, 1.0) }
}
#[cfg(not(feature = "engine"))]
type Eng = Transform2d;
#[cfg(not(feature = "engine"))]
fn eng(t: &Tr) -> Eng {
    tr(t)
}

// ------------------------------------------------------------------ queries
fn nb(x: f32) -> u32 {
    if x.is_nan() { 0x7fc0_0000 } else { x.to_bits() }
}
trait AllQ<B, T: Transformation2d>: CollidesRel2d<B, T> + PenetratesRel2d<B, T> + DistanceToRel2d<B, T> + SdfvRel2d<B, T> {}
impl<A, B, T: Transformation2d> AllQ<B, T> for A where A: CollidesRel2d<B, T> + PenetratesRel2d<B, T> + DistanceToRel2d<B, T> + SdfvRel2d<B, T> {}
fn opt(v: Option<Vec2>) -> Vec<u32> {
    match v {
        None => vec![2],
        Some(v) => vec![3, nb(v.x), nb(v.y)],
    }
}
fn qrel<A: AllQ<B, T>, B, T: Transformation2d>(a: &A, b: &B, t: &T, kind: u8) -> Vec<u32> {
    match kind {
        0 => vec![a.collides_rel(b, t) as u32],
        1 => opt(a.penetrates_rel(b, t)),
        2 => opt(a.distance_to_rel(b, t)),
        _ => {
            let (c, v) = a.sdfv_rel(b, t);
            vec![4 + c as u32, nb(v.x), nb(v.y)]
        }
    }
}
fn q1<A, B, T>(a: &A, b: &B, ta: &T, tb: &T, kind: u8, rel: bool) -> Vec<u32>
where
    A: AllQ<B, T>,
    T: Transformation2d + DeltaTransform,
{
    let sv = |(c, v): (bool, Vec2)| vec![4 + c as u32, nb(v.x), nb(v.y)];
    match (kind, rel) {
        (_, true) => qrel(a, b, tb, kind),
        (0, false) => vec![Collides2d::<A, B, T, _>::collides((a, ta), (b, tb)) as u32],
        (1, false) => opt(Penetrates2d::<A, B, T, _>::penetrates(Collider2d::new(a, ta), (b, tb))),
        (2, false) => opt(DistanceTo2d::<A, B, T, _>::distance_to((a, ta), Collider2d::new(b, tb))),
        (_, false) => sv(Sdfv2d::<A, B, T, _>::sdfv(Collider2d::new(a, ta), Collider2d::new(b, tb))),
    }
}
fn go<A, B>(a: &A, b: &B, ta: &Tr, tb: &Tr, tk: u8, kind: u8, rel: bool) -> Vec<u32>
where
    A: AllQ<B, Vec2> + AllQ<B, Translate2d> + AllQ<B, AxisTransform2d> + AllQ<B, Transform2d> + AllQ<B, UTr> + AllQ<B, Eng>,
{
    let (pa, pb) = (fv(ta.pos), fv(tb.pos));
    match tk {
        0 => q1(a, b, &pa, &pb, kind, rel),
        1 => q1(a, b, &Translate2d::from(pa), &Translate2d::from(pb), kind, rel),
        2 => q1(a, b, &AxisTransform2d::new(pa, f(ta.scale.0)), &AxisTransform2d::new(pb, f(tb.scale.0)), kind, rel),
        3 => q1(a, b, &tr(ta), &tr(tb), kind, rel),
        5 => q1(a, b, &eng(ta), &eng(tb), kind, rel),
        _ => q1(a, b, &utr(ta), &utr(tb), kind, rel),
    }
}
fn sdf1<A: SdfRel2d<B>, B, T: Transformation2d + DeltaTransform>(a: &A, b: &B, ta: &T, tb: &T, rel: bool) -> Vec<u32> {
    vec![6, nb(if rel { a.sdf_rel(b, tb) } else { Sdf2d::<A, B, T, _>::sdf(Collider2d::new(a, ta), (b, tb)) })]
}
fn sdf<A: SdfRel2d<B>, B>(a: &A, b: &B, ta: &Tr, tb: &Tr, tk: u8, rel: bool) -> Vec<u32> {
    let (pa, pb) = (fv(ta.pos), fv(tb.pos));
    match tk {
        0 => sdf1(a, b, &pa, &pb, rel),
        1 => sdf1(a, b, &Translate2d::from(pa), &Translate2d::from(pb), rel),
        2 => sdf1(a, b, &AxisTransform2d::new(pa, f(ta.scale.0)), &AxisTransform2d::new(pb, f(tb.scale.0)), rel),
        3 => sdf1(a, b, &tr(ta), &tr(tb), rel),
        5 => sdf1(a, b, &eng(ta), &eng(tb), rel),
        6 => vec![6, nb(a.sdf_rel(b, &IdentityTransform))],
        _ => sdf1(a, b, &utr(ta), &utr(tb), rel),
    }
}
fn run_pair(a: &Built, b: &Built, ta: &Tr, tb: &Tr, tk: u8, kind: u8, rel: bool) -> Option<Vec<u32>> {
    use Built as X;
    macro_rules! each {
        ($($A:ident $B:ident),*) => { match (a, b) { $((X::$A(x), X::$B(y)) => Some(go(x, y, ta, tb, tk, kind, rel)),)* _ => None } };
    }
    macro_rules! sdfs {
        ($($A:ident $B:ident),*) => { match (a, b) { $((X::$A(x), X::$B(y)) => Some(sdf(x, y, ta, tb, tk, rel)),)* _ => None } };
    }
    macro_rules! ids {
        ($($A:ident $B:ident),*) => { match (a, b) { $((X::$A(x), X::$B(y)) => return Some(qrel(x, y, &IdentityTransform, kind)),)* _ => {} } };
    }
    if tk == 6 && kind != 4 {
        ids!(Ball Ball, Ball Point, Rect Ball, Rect Point, Point Point, Ball Rect, Rect Rect, Rect Poly, Poly Rect, Poly Poly,
            S2 S2, User User, User Rect, User Poly, User Ball, Rect User, Poly User, Ball User);
    }
    if kind == 4 {
        return sdfs!(Ball Ball, Ball Point, Rect Ball, Rect Point, Point Point);
    }
    each!(Ball Ball, Ball Point, Rect Ball, Rect Point, Point Point, Point Rect, Point Ball, Ball Rect, Rect Rect, Rect Poly, Poly Rect, Poly Poly,
        S2 S2, User User, User Rect, User Poly, User Ball, Rect User, Poly User, Ball User)
}
pub const PAIRS: [(&str, &str); 20] = [("a", "a"), ("a", "p"), ("r", "a"), ("r", "p"), ("p", "p"), ("p", "r"), ("p", "a"), ("a", "r"), ("r", "r"), ("r", "y"), ("y", "r"), ("y", "y"),
    ("s", "s"), ("u", "u"), ("u", "r"), ("u", "y"), ("u", "a"), ("r", "u"), ("y", "u"), ("a", "u")];

fn make_map(tiles: &[(i32, i32, u8)]) -> Tilemap {
    let mut m = Tilemap::default();
    for &(x, y, v) in tiles {
        m.set_tile(V2i32::from_xy(x, y), v);
    }
    m
}
fn ts<T: Transformation2d + Invertible + Composable + DeltaTransform>(a: &T, b: &T, p: Vec2) -> Vec<u32> {
    let mut v = vec![];
    for t in [&a.inverse(), &a.compose(b), &b.compose(a), &a.delta_transform(b), a] {
        for x in [t.apply_origin(), t.apply(p), t.unapply(p), t.apply_normal(p), t.unapply_normal(p)] {
            v.extend([nb(x.x), nb(x.y)]);
        }
        v.push(nb(t.scaling_factor()));
    }
    v
}
/// the transforms seen as transforms of space, and the conversions between them
fn t3(ta: &Tr, tb: &Tr, d: Vec2) -> Vec<u32> {
    let mut v = vec![];
    let id = IdentityTransform;
    for x in [Transformation2d::apply_origin(&id), Transformation2d::apply(&id, d), Transformation2d::unapply(&id, d), id.apply_normal(d), id.unapply_normal(d)] {
        v.extend([nb(x.x), nb(x.y)]);
    }
    #[cfg(feature = "engine")]
    {
        let (a, b) = (eng(ta), eng(tb));
        let p = auburn::Vec3::new(d.x, d.y, d.x * 0.5);
        for t in [a.inverse(), a.compose(&b), a.delta_transform(&b), b] {
            for x in [Transformation3d::apply_origin(&t), Transformation3d::apply(&t, p), Transformation3d::unapply(&t, p), Transformation3d::unapply_origin(&t)] {
                v.extend([nb(x.x), nb(x.y), nb(x.z)]);
            }
            let t: Transform2d = t.into();
            v.extend([nb(t.pos.x), nb(t.rot.angle()), nb(t.scale.y)]);
        }
    }
    let _ = (ta, tb);
    v
}
fn ext<A: ExtremePointT2d<T>, T: Transformation2d>(a: &A, t: &T, d: Vec2) -> Vec<u32> {
    let (x, y) = (a.extreme_point_t(t, d), Collider2d::new(a, t).extreme_point(d));
    vec![nb(x.x), nb(x.y), nb(y.x), nb(y.y)]
}
fn ext_k<A>(a: &A, t: &Tr, tk: u8, d: Vec2) -> Vec<u32>
where
    A: ExtremePointT2d<Vec2> + ExtremePointT2d<Translate2d> + ExtremePointT2d<AxisTransform2d> + ExtremePointT2d<Transform2d> + ExtremePointT2d<UTr> + ExtremePointT2d<Eng> + ExtremePointT2d<IdentityTransform>,
{
    let p = fv(t.pos);
    match tk {
        0 => ext(a, &p, d),
        1 => ext(a, &Translate2d::from(p), d),
        2 => ext(a, &AxisTransform2d::new(p, f(t.scale.0)), d),
        3 => ext(a, &tr(t), d),
        5 => ext(a, &eng(t), d),
        6 => ext(a, &IdentityTransform, d),
        _ => ext(a, &utr(t), d),
    }
}
fn run_one(a: &Built, ta: &Tr, tb: &Tr, tk: u8, what: u8, dir: B2) -> Vec<u32> {
    use Built as X;
    let d = fv(dir);
    let v2 = |v: Vec2| vec![nb(v.x), nb(v.y)];
    let bb = |b: Box2d| v2(b.halfsize);
    match what {
        0 => v2(match a {
            X::Point(x) => x.extreme_point(d),
            X::Ball(x) => x.extreme_point(d),
            X::Rect(x) => x.extreme_point(d),
            X::Poly(x) => x.extreme_point(d),
            X::S2(x) => x.extreme_point(d),
            X::User(x) => x.extreme_point(d),
        }),
        1 => match a {
            X::Point(x) => ext_k(x, ta, tk, d),
            X::Ball(x) => ext_k(x, ta, tk, d),
            X::Rect(x) => ext_k(x, ta, tk, d),
            X::Poly(x) => ext_k(x, ta, tk, d),
            X::S2(x) => ext_k(x, ta, tk, d),
            X::User(x) => ext_k(x, ta, tk, d),
        },
        2 => match a {
            X::Point(x) => bb(x.symmetric_bounding_box()),
            X::Ball(x) => bb(x.symmetric_bounding_box()),
            X::Rect(x) => bb(x.symmetric_bounding_box()),
            X::Poly(x) => bb(x.symmetric_bounding_box()),
            _ => vec![],
        },
        3 => {
            let (pa, pb) = (fv(ta.pos), fv(tb.pos));
            match tk {
                0 => ts(&pa, &pb, d),
                1 => ts(&Translate2d::from(pa), &Translate2d::from(pb), d),
                2 => ts(&AxisTransform2d::new(pa, f(ta.scale.0)), &AxisTransform2d::new(pb, f(tb.scale.0)), d),
                3 => ts(&tr(ta), &tr(tb), d),
                5 => ts(&eng(ta), &eng(tb), d),
                6 => t3(ta, tb, d),
                _ => ts(&utr(ta), &utr(tb), d),
            }
        }
        _ => {
            let n = 1 + (dir.0 % 12) as usize;
            let mut v = vec![];
            let s = f(ta.scale.0);
            for p in [Poly2d::regular(n, s), Poly2d::regular_upright(n, s), Poly2d::from(Box2d::with_halfdims(s, f(ta.scale.1)))] {
                v.extend(p.points.iter().flat_map(|p| v2(*p)));
                v.push(p.strict_check() as u32);
            }
            let (ra, rb) = (Rotor2d::from_angle(f(ta.ang)), Rotor2d::from_angle(f(tb.ang)));
            v.extend([nb(ra.angle()), nb((ra * rb).angle()), nb(ra.inverse().angle())]);
            v.extend(v2(rb * d));
            v
        }
    }
}
pub enum BQ {
    One(Built),
    Pair(Built, Built),
    Map(Tilemap),
}
pub fn build_q(q: &Q) -> BQ {
    match q {
        Q::Pair { a, b, .. } => BQ::Pair(build(a), build(b)),
        Q::One { a, .. } => BQ::One(build(a)),
        Q::Map { tiles, .. } => BQ::Map(make_map(tiles)),
    }
}
fn ask(q: &Q, b: &BQ) -> Vec<u32> {
    match (q, b) {
        (Q::Pair { ta, tb, tk, kind, rel, .. }, BQ::Pair(x, y)) => run_pair(x, y, ta, tb, *tk, *kind, *rel).unwrap_or_default(),
        (Q::One { ta, tb, tk, what, dir, .. }, BQ::One(x)) => run_one(x, ta, tb, *tk, *what, *dir),
        (Q::Map { at, seed, .. }, BQ::Map(m)) => answers(m, f(at.0), f(at.1), *seed),
        _ => vec![],
    }
}
fn q_intact(q: &Q, b: &BQ) -> bool {
    match (q, b) {
        (Q::Pair { a, b, .. }, BQ::Pair(x, y)) => intact(a, x) && intact(b, y),
        (Q::One { a, .. }, BQ::One(x)) => intact(a, x),
        (Q::Map { tiles, .. }, BQ::Map(m)) => {
            let want: std::collections::BTreeMap<(i32, i32), u8> = tiles.iter().map(|t| ((t.0, t.1), t.2)).collect();
            lib(|| want.iter().all(|(p, v)| m.get_tile(V2i32::from_xy(p.0, p.1)) == *v)).unwrap_or(false)
        }
        _ => false,
    }
}
/// How a call ended: a value, the planned panic ("P"), a panic of the library's own, or a planned panic that got lost or changed.
fn ended<R>(r: Result<R, Box<dyn Any + Send>>, val: impl FnOnce(R) -> Value) -> Value {
    let t = me();
    // several calls of user code may panic within one call of the library: any one of their panics may arrive
    let pend = std::mem::take(&mut w().th[t].pend);
    match r {
        Ok(x) if pend.is_empty() => val(x),
        Ok(x) => json!({"swallowed": val(x)}),
        Err(e) => match e.downcast_ref::<SimPanic>() {
            Some(s) if pend.contains(&s.0) => json!("P"),
            _ if !pend.is_empty() => json!({"altered": rt::describe(&*e)}),
            Some(_) => json!({"ghost": rt::describe(&*e)}),
            None => json!({"panic": rt::describe(&*e)}),
        },
    }
}
fn do_query(qi: usize, fresh: bool) -> Value {
    let w = w();
    let q = &w.qs[qi];
    if fresh {
        match lib(|| build_q(q)) {
            Err(p) => json!({"panic": p}),
            Ok(b) => {
                let r = lib_raw(|| ask(q, &b));
                let v = ended(r, |x| json!(x));
                let ok = q_intact(q, &b);
                let _ = lib(move || drop(b));
                if ok { v } else { json!({"shape changed": v}) }
            }
        }
    } else {
        let b = &w.built[qi];
        let r = lib_raw(|| ask(q, b));
        let v = ended(r, |x| json!(x));
        if q_intact(q, b) { v } else { json!({"shape changed": v}) }
    }
}

// ------------------------------------------------------------------ events
pub struct Ev {
    pub id: u32,
    body: String,
    tail: [u64; 2],
}
impl Ev {
    fn new(id: u32) -> Ev {
        Ev { id, body: format!("event {id}"), tail: [id as u64 * 3, !(id as u64)] }
    }
    fn ok(&self) -> bool {
        self.body == format!("event {}", self.id) && self.tail == [self.id as u64 * 3, !(self.id as u64)]
    }
}
pub struct Key(Ev);
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        let _h = Host::enter();
        match point(USER) {
            Some(Act::Panic) => user_panic("eq"),
            _ => {}
        }
        self.0.id == o.0.id
    }
}
impl Eq for Key {}
impl std::hash::Hash for Key {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        {
            let _h = Host::enter();
            match point(USER) {
                Some(Act::Panic) => user_panic("hash"),
                _ => {}
            }
        }
        match w().hash {
            0 => self.0.id.hash(h),
            1 => 7u32.hash(h),
            _ => (self.0.id % 4).hash(h),
        }
    }
}
fn subscriber(p: usize, s: usize, kind: u8, e: &Ev) {
    let _h = Host::enter();
    let t = me();
    let w = w();
    g().obs.push(json!({"d": [t, p, s, e.id, e.ok() as u8]}));
    w.th[t].deliv.push((p as u32, s as u32, e.id));
    user_act(point(USER));
    let id = e.id;
    if (kind == 1 || kind == 3) && p + 1 < w.pubs.len() && p % 4 != 3 {
        for k in 0..1 + (kind == 3) as u32 {
            if let Err(e) = notify(p + 1, id.wrapping_mul(2).wrapping_add(1 + k)) {
                std::panic::resume_unwind(e);
            }
        }
    } else if kind == 2 {
        nested(id as usize);
    }
    user_act(point(USER));
    g().obs.push(json!({"x": [t, p, s, id]}));
}
/// subscribers that capture nothing: different functions, values of no size
fn plain(pb: &mut CallbackPublisher<Ev>, p: usize, s: usize) {
    fn row<const P: usize>(pb: &mut CallbackPublisher<Ev>, s: usize) {
        match s {
            0 => pb.attach(|e| subscriber(P, 0, 0, e)),
            1 => pb.attach(|e| subscriber(P, 1, 0, e)),
            2 => pb.attach(|e| subscriber(P, 2, 0, e)),
            3 => pb.attach(|e| subscriber(P, 3, 0, e)),
            4 => pb.attach(|e| subscriber(P, 4, 0, e)),
            5 => pb.attach(|e| subscriber(P, 5, 0, e)),
            6 => pb.attach(|e| subscriber(P, 6, 0, e)),
            _ => pb.attach(|e| subscriber(P, 7, 0, e)),
        }
    }
    macro_rules! rows { ($($p:literal)*) => { match p { $($p => row::<$p>(pb, s),)* _ => unreachable!() } } }
    rows!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15)
}
fn notify(p: usize, id: u32) -> Result<(), Box<dyn Any + Send>> {
    let w = w();
    let t = me();
    w.publock[p].lock(true);
    g().obs.push(json!({"n": [t, p, id]}));
    let before = w.th[t].pend.len();
    let r = lib_raw(|| w.pubs[p].notify(Ev::new(id)));
    let pend = &w.th[t].pend[before..];
    let how = match &r {
        Ok(_) if pend.is_empty() => 0,
        Err(e) if e.downcast_ref::<SimPanic>().is_some_and(|s| pend.contains(&s.0)) => 1,
        Ok(_) => 2,
        _ => 3,
    };
    g().obs.push(json!({"e": [t, p, id, how]}));
    w.publock[p].unlock();
    r
}

// ------------------------------------------------------------------ the program
#[derive(Default)]
pub struct ThSt {
    lie: Option<Lie>,
    tainted: bool,
    pend: Vec<u64>,
    /// (class, generator, calls left) of user code that keeps calling the library
    always: Option<(usize, u32, u32)>,
    depth: u32,
    calls: u64,
    deliv: Vec<(u32, u32, u32)>,
}
pub struct World {
    qs: Vec<Q>,
    built: Vec<BQ>,
    th: Vec<ThSt>,
    maps: Vec<Tilemap>,
    maplock: Vec<HRw>,
    seen: Vec<usize>,
    pubs: Vec<CallbackPublisher<Ev>>,
    subs: Vec<usize>,
    publock: Vec<HRw>,
    lists: Vec<Ledger<Ev>>,
    listlock: Vec<HRw>,
    sets: Vec<HashsetLedger<Key>>,
    setlock: Vec<HRw>,
    hash: u8,
    panics: u64,
    uni: Vec<(i32, i32)>,
    barrier: HBarrier,
    n: usize,
    seq: u64,
}
static mut WP: *mut World = std::ptr::null_mut();
fn w() -> &'static mut World {
    unsafe { &mut *WP }
}
pub const NMAP: usize = 4;
pub const NPUB: usize = 16;
pub const NLED: usize = 4;
fn locks(n: usize) -> Vec<HRw> {
    (0..n).map(|_| HRw::default()).collect()
}
pub fn wuni(c: &WCase) -> Vec<(i32, i32)> {
    let mut u = BTreeSet::new();
    for o in c.threads.iter().flatten() {
        match *o {
            WOp::Set(_, x, y, _) | WOp::Rem(_, x, y) => {
                let (a, b) = crate::store::chunk_of(x, y);
                u.insert((a, b));
                u.insert((b, a));
                u.insert((a + 1, b));
            }
            _ => {}
        }
    }
    u.into_iter().collect()
}
fn io<T>(r: std::io::Result<T>) -> Result<T, Value> {
    r.map_err(|e| json!(["err", format!("{:?}", e.kind()), e.raw_os_error()]))
}
fn see(m: &Tilemap) -> Value {
    match dump_some(m, &w().uni, true) {
        Ok((t, c)) => json!([t, c]),
        Err(p) => json!(["panic", p]),
    }
}
fn evs(m: usize) -> Value {
    let w = w();
    let e = &w.maps[m].events.events;
    let k = w.seen[m].min(e.len());
    let v: Vec<String> = e[k..].iter().map(|x| format!("{x:?}")).collect();
    w.seen[m] = e.len();
    json!(v)
}
fn tick() -> u64 {
    let w = w();
    w.seq += 1;
    w.seq
}
fn exec(op: &WOp) -> (u64, Value) {
    use WOp::*;
    let w = w();
    let t = me();
    macro_rules! locked {
        ($l:expr, $wr:expr, $e:expr) => {{
            $l.lock($wr);
            let b = tick();
            let v = $e;
            $l.unlock();
            (b, v)
        }};
    }
    match *op {
        Q(q, fresh) => (tick(), do_query(q as usize % w.qs.len(), fresh)),
        Rep(q, n) => {
            let b = tick();
            let q = q as usize % w.qs.len();
            let (mut clean, mut last, mut bad) = (None, json!("P"), None);
            for k in 0..n.max(1) {
                if k % 256 == 255 {
                    crate::rt::op_start();
                }
                w.th[t].tainted = false;
                w.th[t].lie = None;
                let v = if k == 0 {
                    do_query(q, false)
                } else {
                    // cheap: the result is compared here
                    ended(lib_raw(|| ask(&w.qs[q], &w.built[q])), |x| json!(x))
                };
                if w.th[t].tainted || v == "P" {
                    last = v;
                } else if clean.is_none() {
                    clean = Some(v);
                } else if clean.as_ref() != Some(&v) && bad.is_none() {
                    bad = Some(json!({"first": clean, "after": k, "r": v}));
                }
            }
            w.th[t].tainted = clean.is_none() && last != "P";
            (b, match (bad, clean) {
                (Some(x), _) => json!({"repeat": x}),
                (None, Some(x)) => x,
                _ => last,
            })
        }
        Set(m, x, y, v) => {
            let m = m as usize;
            locked!(w.maplock[m], true, {
                let mm = &mut w.maps[m];
                let v = ended(lib_raw(|| mm.set_tile(V2i32::from_xy(x, y), v)), |_| json!("ok"));
                json!([v, evs(m)])
            })
        }
        Rem(m, x, y) => {
            let m = m as usize;
            locked!(w.maplock[m], true, {
                let mm = &mut w.maps[m];
                let v = ended(lib_raw(|| mm.remove_tile(V2i32::from_xy(x, y))), |_| json!("ok"));
                json!([v, evs(m)])
            })
        }
        Get(m, x, y) => locked!(w.maplock[m as usize], false, ended(lib_raw(|| w.maps[m as usize].get_tile(V2i32::from_xy(x, y))), |v| json!(v))),
        Dump(m) => locked!(w.maplock[m as usize], false, see(&w.maps[m as usize])),
        Ans(m, x, y, s) => locked!(w.maplock[m as usize], false, ended(lib_raw(|| answers(&w.maps[m as usize], f(x), f(y), s)), |v| json!(v))),
        UProbe(m, x, y) => locked!(w.maplock[m as usize], false, {
            let p = UTr { pos: Vec2::new(x as f32, y as f32), rot: (1.0, 0.0), scale: Vec2::ONE };
            ended(lib_raw(|| (w.maps[m as usize].collides_rel(&Point, &p), opt(w.maps[m as usize].penetrates_rel(&Point, &p)))), |v| json!(v))
        }),
        Events(m) => {
            let m = m as usize;
            locked!(w.maplock[m], true, {
                let n = w.maps[m].events.events.len();
                let _ = lib(|| std::mem::take(&mut w.maps[m].events.events));
                w.seen[m] = 0;
                json!(n)
            })
        }
        Save(m, p) => locked!(w.maplock[m as usize], false, {
            let mm = &w.maps[m as usize];
            // what is being saved: the lock keeps it so
            let d = see(mm);
            let r = ended(lib_raw(|| mm.save(WPATHS[p as usize])), |r| io(r).map_or_else(|e| e, |_| json!("ok")));
            json!([r, d])
        }),
        Load(m, p) => {
            let m = m as usize;
            locked!(w.maplock[m], true, {
                let mut got = None;
                let r = ended(lib_raw(|| Tilemap::load(WPATHS[p as usize])), |r| match io(r) {
                    Ok(x) => {
                        got = Some(x);
                        json!("ok")
                    }
                    Err(e) => e,
                });
                if let Some(x) = got {
                    let old = std::mem::replace(&mut w.maps[m], x);
                    let _ = lib(move || drop(old));
                    w.seen[m] = w.maps[m].events.events.len();
                }
                json!([r, see(&w.maps[m])])
            })
        }
        Peek(p) => {
            let b = tick();
            let mut got = None;
            let r = ended(lib_raw(|| Tilemap::load(WPATHS[p as usize])), |r| match io(r) {
                Ok(x) => {
                    got = Some(x);
                    json!("ok")
                }
                Err(e) => e,
            });
            let d = got.as_ref().map(see);
            let _ = lib(move || drop(got));
            (b, json!([r, d]))
        }
        Stream(m) => locked!(w.maplock[m as usize], false, {
            let mm = &w.maps[m as usize];
            let mut got = None;
            let r = ended(lib_raw(|| -> Result<Tilemap, String> { serde_json::from_str(&serde_json::to_string(mm).map_err(|e| e.to_string())?).map_err(|e| e.to_string()) }), |r| match r {
                Ok(x) => {
                    got = Some(x);
                    json!("ok")
                }
                Err(e) => json!(["err", e]),
            });
            let d = got.as_ref().map(see);
            let _ = lib(move || drop(got));
            json!([r, d])
        }),
        Attach(p, kind) => {
            let p = p as usize;
            locked!(w.publock[p], true, {
                let s = w.subs[p];
                w.subs[p] += 1;
                let r = ended(lib_raw(|| if kind >= 4 && s < 8 { plain(&mut w.pubs[p], p, s) } else { w.pubs[p].attach(move |e: &Ev| subscriber(p, s, kind & 3, e)) }), |_| json!("ok"));
                g().obs.push(json!({"a": [p, s]}));
                r
            })
        }
        Note(p, id) => {
            let b = tick();
            w.th[t].deliv.clear();
            let r = notify(p as usize, id);
            let v = ended(r, |_| json!("ok"));
            (b, json!([v, std::mem::take(&mut w.th[t].deliv)]))
        }
        LNote(l, id) => {
            let l = l as usize;
            locked!(w.listlock[l], true, {
                let r = ended(lib_raw(|| w.lists[l].notify(Ev::new(id))), |_| json!("ok"));
                g().obs.push(json!({"ln": [l, id, (r == "ok") as u8]}));
                r
            })
        }
        LDrain(l, how) => {
            let l = l as usize;
            locked!(w.listlock[l], true, {
                let v: Vec<Ev> = match how {
                    0 => lib(|| std::mem::take(&mut w.lists[l].events)).unwrap(),
                    1 => lib(|| w.lists[l].events.drain(..).collect()).unwrap(),
                    2 => {
                        let v = w.lists[l].events.iter().map(|e| Ev { id: e.id, body: e.body.clone(), tail: e.tail }).collect();
                        lib(|| w.lists[l].events.clear()).unwrap();
                        v
                    }
                    3 => {
                        // only look
                        w.lists[l].events.iter().map(|e| Ev { id: e.id, body: e.body.clone(), tail: e.tail }).collect()
                    }
                    4 => lib(|| {
                        let n = w.lists[l].events.len() / 2;
                        w.lists[l].events.drain(..n).collect()
                    })
                    .unwrap(),
                    _ => {
                        let x = lib(|| std::mem::replace(&mut w.lists[l], Ledger::default())).unwrap();
                        x.events
                    }
                };
                let ok = v.iter().all(|e| e.ok());
                let ids: Vec<u32> = v.iter().map(|e| e.id).collect();
                let _ = lib(move || drop(v));
                g().obs.push(json!({"ld": [l, how, ids, ok]}));
                json!([ids, ok])
            })
        }
        SNote(s, id) => {
            let s = s as usize;
            locked!(w.setlock[s], true, {
                let r = ended(lib_raw(|| w.sets[s].notify(Key(Ev::new(id)))), |_| json!("ok"));
                g().obs.push(json!({"sn": [s, id, (r == "ok") as u8]}));
                r
            })
        }
        SDrain(s, how) => {
            let s = s as usize;
            locked!(w.setlock[s], true, {
                let look = |x: &mut dyn Iterator<Item = &Key>| {
                    let mut ok = true;
                    let mut v: Vec<u32> = x
                        .map(|k| {
                            ok &= k.0.ok();
                            k.0.id
                        })
                        .collect();
                    v.sort();
                    (v, ok)
                };
                let (v, ok) = match how {
                    0 => {
                        let x = lib(|| std::mem::take(&mut w.sets[s].events)).unwrap();
                        let r = look(&mut x.iter());
                        let _ = lib(move || drop(x));
                        r
                    }
                    1 => {
                        let x: Vec<Key> = lib(|| w.sets[s].events.drain().collect()).unwrap();
                        let r = look(&mut x.iter());
                        let _ = lib(move || drop(x));
                        r
                    }
                    2 => {
                        let r = look(&mut w.sets[s].events.iter());
                        lib(|| w.sets[s].events.clear()).unwrap();
                        r
                    }
                    3 => look(&mut w.sets[s].events.iter()),
                    _ => {
                        let x = lib(|| std::mem::replace(&mut w.sets[s], HashsetLedger::default())).unwrap();
                        let r = look(&mut x.events.iter());
                        let _ = lib(move || drop(x));
                        r
                    }
                };
                g().obs.push(json!({"sd": [s, how, v, ok]}));
                json!([v, ok])
            })
        }
        Bulk(kind, k, first, n) => {
            let k = k as usize;
            match kind {
                0 => locked!(w.listlock[k], true, {
                    let r = ended(lib_raw(|| (0..n).for_each(|i| w.lists[k].notify(Ev::new(first.wrapping_add(i))))), |_| json!("ok"));
                    g().obs.push(json!({"lb": [k, first, n]}));
                    r
                }),
                1 => locked!(w.setlock[k], true, {
                    let mut bad = 0;
                    let mut from = 0;
                    for i in 0..n {
                        if i % 512 == 511 {
                            crate::rt::op_start();
                        }
                        let id = first.wrapping_add(i);
                        let r = ended(lib_raw(|| w.sets[k].notify(Key(Ev::new(id)))), |_| json!("ok"));
                        if r != "ok" {
                            bad += 1;
                            g().obs.push(json!({"sb": [k, first + from, i - from]}));
                            g().obs.push(json!({"sn": [k, id, 0]}));
                            from = i + 1;
                        }
                    }
                    g().obs.push(json!({"sb": [k, first + from, n - from]}));
                    json!(bad)
                }),
                _ => {
                    let b = tick();
                    let mut bad = 0;
                    for i in 0..n {
                        let r = notify(k, first.wrapping_add(i));
                        if ended(r, |_| json!("ok")) != "ok" {
                            bad += 1;
                        }
                    }
                    w.th[t].deliv.clear();
                    (b, json!(bad))
                }
            }
        }
        Barrier => {
            let n = w.n;
            w.barrier.wait(n);
            (tick(), json!("barrier"))
        }
    }
}
fn run_thread(t: usize, ops: &[WOp]) {
    point(rt::IO);
    for (i, op) in ops.iter().enumerate() {
        let w = w();
        w.th[t].lie = None;
        w.th[t].tainted = false;
        w.th[t].pend.clear();
        w.th[t].always = None;
        w.th[t].calls = 0;
        rt::op_start();
        let (m0, u0) = (rt::st().cnt[MEM], rt::st().cnt[rt::USER]);
        let live = rt::mem_mark();
        let (b, r) = exec(op);
        w.seq += 1;
        let (e, mem) = (w.seq, rt::st().cnt[MEM] - m0);
        w.th[t].lie = None;
        let mut o = json!({"t": t, "i": i, "b": b, "e": e, "r": r, "c": [w.th[t].calls, mem, rt::mem_peak() - live], "m": m0, "u": [u0, rt::st().cnt[rt::USER] - u0]});
        if let WOp::Q(q, _) | WOp::Rep(q, _) = op {
            o["q"] = json!(*q as usize % w.qs.len());
        }
        if w.th[t].tainted {
            o["taint"] = json!(true);
        }
        g().obs.push(o);
    }
}
fn make_world(c: &WCase) -> World {
    World {
        built: c.qs.iter().map(build_q).collect(),
        qs: c.qs.clone(),
        th: (0..256).map(|_| ThSt::default()).collect(),
        maps: (0..NMAP).map(|_| Tilemap::default()).collect(),
        maplock: locks(NMAP),
        seen: vec![0; NMAP],
        pubs: (0..NPUB).map(|_| CallbackPublisher::default()).collect(),
        subs: vec![0; NPUB],
        publock: locks(NPUB),
        lists: (0..NLED).map(|_| Ledger::default()).collect(),
        listlock: locks(NLED),
        sets: (0..NLED).map(|_| HashsetLedger::default()).collect(),
        setlock: locks(NLED),
        hash: c.hash,
        panics: 0,
        uni: wuni(c),
        barrier: HBarrier::default(),
        n: c.threads.len(),
        seq: 0,
    }
}
/// Thread bodies of the program of `c`.
pub fn bodies(c: &WCase) -> Vec<Body> {
    unsafe { rt::LOG_HOOK = Some(log_hook) };
    static mut START: *mut HBarrier = std::ptr::null_mut();
    unsafe { START = Box::into_raw(Box::default()) };
    let nt = c.threads.len();
    let mut v: Vec<Body> = vec![];
    for (t, ops) in c.threads.iter().cloned().enumerate() {
        let c = c.clone();
        v.push(Box::new(move || {
            if t == 0 {
                // made inside the simulation: hash seeds and memory come from it
                let x = lib(|| make_world(&c)).expect("making the world");
                unsafe { WP = Box::into_raw(Box::new(x)) };
            }
            unsafe { (*START).wait(nt) };
            run_thread(t, &ops);
        }));
    }
    v
}
pub fn run_case(c: &WCase, env: &Env, plan: &[PP]) -> Report {
    crate::proc::run(env, plan, &Default::default(), || bodies(c))
}
