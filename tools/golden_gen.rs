use auburn::col2d::*;
use lk_math::vector::V2i32;
use std::collections::BTreeMap;
fn main() {
    let mut s: u64 = 42;
    let mut r = move |n: u64| { s ^= s << 13; s ^= s >> 7; s ^= s << 17; (s >> 11) % n };
    std::env::set_current_dir("/tmp/gold").unwrap();
    let mut out = vec![];
    for k in 0..40u64 {
        let mut m = Tilemap::default();
        let mut t: BTreeMap<(i32, i32), u8> = BTreeMap::new();
        let mut ch: BTreeMap<(i32, i32), ()> = BTreeMap::new();
        let n = match k { 0 => 0, 1 => 1, 2..=10 => 1 + r(6), 11..=25 => 5 + r(40), 26..=36 => 40 + r(300), 39 => 1500, _ => 400 };
        let far = k % 4 == 3 && k != 39;
        let n = if far { n.min(50) } else { n };
        for _ in 0..n {
            let c = |r: &mut dyn FnMut(u64) -> u64| -> i32 {
                if far { match r(6) { 0 => i32::MIN + r(20) as i32, 1 => i32::MAX - r(20) as i32, 2 => r(1 << 32) as u32 as i32, _ => r(80) as i32 - 40 } }
                else if n > 1000 { r(300) as i32 - 150 } else { r(70) as i32 - 35 }
            };
            let (x, y) = (c(&mut r), c(&mut r));
            let v = match r(4) { 0 => 255, 1 => 0, 2 => 1, _ => r(256) as u8 };
            m.set_tile(V2i32::from_xy(x, y), v);
            ch.insert((x.div_euclid(16), y.div_euclid(16)), ());
            if v == 0 { t.remove(&(x, y)); } else { t.insert((x, y), v); }
        }
        m.save("g.map").unwrap();
        drop(m);
        let text = std::fs::read_to_string("g.map").unwrap();
        let empty: Vec<_> = ch.keys().filter(|c| !t.keys().any(|p| (p.0.div_euclid(16), p.1.div_euclid(16)) == **c)).collect();
        let tiles: Vec<_> = t.iter().map(|(p, v)| (p.0, p.1, *v)).collect();
        out.push(serde_json::json!({"text": text, "tiles": tiles, "empty": empty}));
    }
    std::fs::write("golden.json", serde_json::to_string(&out).unwrap()).unwrap();
}
