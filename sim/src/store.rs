//! Tilemap histories: one simulated process at a time, with saves, loads, faults, crashes and restarts.
//! The child only executes and observes; the oracle (below) runs in the parent on the observations.
use crate::campaign::{bad_end, shorter, viol, Outcome, Plan, Scenario, Stats, Violation};
use crate::fs::{norm, Image};
use crate::proc;
use crate::rng::{hash_str, mix, Rng};
use crate::rt::{self, g, lib, point, Act, Body, End, Env, Host, Point, Report, ALLOC, CLS, IO, MEM, USER};
use auburn::col2d::*;
use auburn::utils::publisher::Publisher;
use lk_math::vector::V2i32;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub const NMAPS: usize = 3;
pub const PATHS: [&str; 5] = ["world.map", "sub/level 1.json", "/tmp/a.b.map", "k\u{00e4}rte", "x"];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    New(usize),
    Set(usize, i32, i32, u8),
    Remove(usize, i32, i32),
    Get(usize, i32, i32),
    /// rectangle of writes: map, x, y, w, h, value
    Fill(usize, i32, i32, u16, u16, u8),
    /// rectangle of removals: map, x, y, w, h
    Erase(usize, i32, i32, u16, u16),
    /// one tile in each of n neighbouring chunks: map, x, y, n, first value
    Scatter(usize, i32, i32, u32, u8),
    /// how the observer drains: 0 take, 1 drain(..), 2 clear after copying, 3 pop one by one
    Drain(usize, u8),
    Dump(usize),
    Save(usize, usize),
    Load(usize, usize),
    /// so often: write another value at a place, save, load what was saved and read that place: map, x, y, path, times
    Cycle(usize, i32, i32, usize, u32),
    /// serialise into / parse from an in-memory stream slot: map, slot, variant
    StreamOut(usize, usize, u8),
    StreamIn(usize, usize, u8),
    /// point queries and resolutions around a place: map, x, y, seed
    Probe(usize, f32, f32, u32),
    /// build a fresh map with the same tiles (in another order) and compare every answer
    Twin(usize, u64),
    /// a point query through a transform that panics at its n-th call
    PanicProbe(usize, u32),
    Capacity(Option<u32>),
    Heal,
    Kill,
    Power(u64),
}
use Op::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inc {
    pub env: Env,
    pub ops: Vec<Op>,
    pub plan: Vec<Point>,
    /// done to the disk before this incarnation starts
    pub damage: Vec<Damage>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Damage {
    Truncate(usize, u32),
    Flip(usize, u32, u8),
    /// the k-th digit (position as 1/2^32 of the file) becomes another digit
    Digit(usize, u32, u8),
    Byte(usize, u32, u8),
    Zero(usize, u32, u32),
    Delete(usize, u32, u32),
    Dup(usize, u32, u32),
    Swap(usize, u32, u32, u32),
    /// replace by foreign data
    Foreign(usize, u8),
    /// tail of another file
    Splice(usize, usize, u32),
    /// an integer (chosen by position) is replaced
    Number(usize, u32, i64),
    /// exchange two top-level-ish list elements' text
    Empty(usize),
    /// put this file there
    Golden(usize, u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub incs: Vec<Inc>,
}

pub fn chunk_of(x: i32, y: i32) -> (i32, i32) {
    (x.div_euclid(16), y.div_euclid(16))
}
/// the tiles of [Op::Scatter]
pub fn scatter(x: i32, y: i32, n: u32, v: u8) -> impl Iterator<Item = (i32, i32, u8)> {
    let w = (n as f64).sqrt().ceil() as u32;
    (0..n).map(move |k| (x.wrapping_add((k % w * 16 + k % 13) as i32), y.wrapping_add((k / w * 16 + k % 7) as i32), v.wrapping_add(k as u8).max(1)))
}
fn cycled(k: u32) -> u8 {
    (k % 251) as u8 + 1
}
/// chunks whose whole content is observed
pub fn universe(c: &Case) -> Vec<(i32, i32)> {
    let mut u: BTreeSet<(i32, i32)> = BTreeSet::new();
    let mut big = false;
    for i in &c.incs {
        for d in &i.damage {
            if let Damage::Golden(_, k) = d {
                u.extend(crate::golden::get(*k).chunks());
            }
        }
        for o in &i.ops {
            match *o {
                Set(_, x, y, _) | Remove(_, x, y) | Get(_, x, y) | Cycle(_, x, y, ..) => {
                    let (a, b) = chunk_of(x, y);
                    u.insert((a, b));
                    // places a wrong position mapping would hit
                    if u.len() < 24 {
                        u.insert((b, a));
                        u.insert((a.wrapping_neg().clamp(-134217728, 134217727), b));
                        u.insert(((a + 1).min(134217727), b));
                        u.insert(((a - 1).max(-134217728), b));
                        u.insert((a, (b + 1).min(134217727)));
                        u.insert((a, (b - 1).max(-134217728)));
                    }
                }
                Scatter(_, x, y, n, v) => u.extend(scatter(x, y, n, v).map(|p| chunk_of(p.0, p.1))),
                Fill(_, x, y, w, h, _) | Erase(_, x, y, w, h) => {
                    big |= w as u32 * h as u32 > 20000;
                    let (a, b) = chunk_of(x, y);
                    let (c, d) = chunk_of(x.saturating_add(w as i32), y.saturating_add(h as i32));
                    for p in a..=c {
                        for q in b..=d {
                            u.insert((p, q));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let _ = big;
    u.into_iter().collect()
}

// ------------------------------------------------------------------ execution (child)
type Map = Tilemap;
struct Exec {
    maps: Vec<Map>,
    seen: Vec<usize>,
    slots: Vec<Vec<u8>>,
    uni: Vec<(i32, i32)>,
    heal: bool,
}
fn v2(x: i32, y: i32) -> V2i32 {
    V2i32::from_xy(x, y)
}
fn ev(e: &TilemapEvent) -> Value {
    match e {
        TilemapEvent::ChunkCreated(p) => json!(["C", p.x(), p.y()]),
        TilemapEvent::ChunkRemoved(p) => json!(["R", p.x(), p.y()]),
        TilemapEvent::ChunkChanged(p) => json!(["M", p.x(), p.y()]),
    }
}
struct FaultyWriter(Vec<u8>);
impl std::io::Write for FaultyWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let _h = Host::enter();
        let n = match point(USER) {
            Some(Act::Eintr) => {
                rt::fired("eintr:stream-write");
                return Err(std::io::ErrorKind::Interrupted.into());
            }
            Some(Act::Short(k)) => {
                rt::fired("short:stream-write");
                b.len().min((k as usize).max(1))
            }
            _ => b.len(),
        };
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct FaultyReader<'a>(&'a [u8]);
impl std::io::Read for FaultyReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let _h = Host::enter();
        let n = match point(USER) {
            Some(Act::Eintr) => {
                rt::fired("eintr:stream-read");
                return Err(std::io::ErrorKind::Interrupted.into());
            }
            Some(Act::Short(k)) => {
                rt::fired("short:stream-read");
                b.len().min((k as usize).max(1))
            }
            _ => b.len(),
        }
        .min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
/// a transform of the user's own; its n-th call panics
#[derive(Clone, Copy)]
pub struct UserT {
    pub pos: Vec2,
}
pub fn user_point() {
    let _h = Host::enter();
    if let Some(Act::Panic) = point(USER) {
        rt::fired("panic:user");
        std::panic::panic_any(rt::SimPanic(rt::st().cnt[USER]));
    }
}
impl Transformation2d for UserT {
    fn apply(&self, p: Vec2) -> Vec2 {
        user_point();
        p + self.pos
    }
    fn unapply(&self, p: Vec2) -> Vec2 {
        user_point();
        p - self.pos
    }
    fn apply_origin(&self) -> Vec2 {
        user_point();
        self.pos
    }
    fn scaling_factor(&self) -> f32 {
        1.0
    }
    fn apply_normal(&self, n: Vec2) -> Vec2 {
        user_point();
        n
    }
    fn unapply_normal(&self, n: Vec2) -> Vec2 {
        user_point();
        n
    }
}

pub fn dump(m: &Map, uni: &[(i32, i32)]) -> Result<(Vec<(i32, i32, u8)>, Vec<(i32, i32)>), String> {
    dump_some(m, uni, false)
}
/// `sparse`: of chunks that are not there, only one tile in eleven is read.
pub fn dump_some(m: &Map, uni: &[(i32, i32)], sparse: bool) -> Result<(Vec<(i32, i32, u8)>, Vec<(i32, i32)>), String> {
    lib(|| {
        let mut t = vec![];
        let mut ch = vec![];
        for &(a, b) in uni {
            let there = m.get_chunk(&v2(a, b)).is_some();
            if there {
                ch.push((a, b));
            }
            for dy in 0..16 {
                for dx in 0..16 {
                    if sparse && !there && (dy * 16 + dx + a as i64) % 11 != 0 {
                        continue;
                    }
                    let (x, y) = (a as i64 * 16 + dx, b as i64 * 16 + dy);
                    let v = m.get_tile(v2(x as i32, y as i32));
                    if v != 0 {
                        t.push((x as i32, y as i32, v));
                    }
                }
            }
        }
        (t, ch)
    })
}
fn bits(v: Vec2) -> [u32; 2] {
    [v.x.to_bits(), v.y.to_bits()]
}
/// every kind of answer a map gives around a place, as bits
pub fn answers(m: &Map, x: f32, y: f32, seed: u32) -> Vec<u32> {
    let mut r = Rng::new(seed as u64 ^ 0x616e73);
    let mut out = vec![];
    for _ in 0..6 {
        let p = Vec2::new(x + (r.f() as f32 - 0.5) * 6.0, y + (r.f() as f32 - 0.5) * 6.0);
        let p = if r.p(0.3) { (p * 2.0).round() / 2.0 } else { p };
        out.push(m.collides_rel(&Point, &p) as u32);
        out.push(m.collides_rel(&Point, &Translate2d::from(p)) as u32);
        out.push(match m.penetrates_rel(&Point, &p) {
            Some(v) => v.x.to_bits() ^ v.y.to_bits().rotate_left(7),
            None => 1,
        });
        let dir = Vec2::new(r.f() as f32 - 0.5, r.f() as f32 - 0.5);
        let dir = match r.below(4) {
            0 => Vec2::new(0.0, dir.y),
            1 => Vec2::new(dir.x, 0.0),
            _ => dir,
        };
        let s = *r.pick(&[0.2f32, 0.5, 0.9, 1.3, 2.6]);
        out.extend(bits(m.simple_resolve_ball(&Ball::with_radius(s), p, &dir)));
        out.extend(bits(m.simple_resolve_box(&Box2d::with_halfdims(s, s * 0.7), p, &dir)));
    }
    out
}
/// (answer, tile is not zero) at a place with a clear nearest tile
fn point_truth(m: &Map, x: i32, y: i32) -> [bool; 3] {
    let p = Vec2::new(x as f32, y as f32);
    [m.get_tile(v2(x, y)) != 0, m.collides_rel(&Point, &p), m.penetrates_rel(&Point, &p).is_some()]
}

impl Exec {
    fn new_events(&mut self, m: usize) -> Value {
        let e = &self.maps[m].events.events;
        if e.len() < self.seen[m] {
            self.seen[m] = e.len();
            return json!("lost");
        }
        let v: Vec<Value> = e[self.seen[m]..].iter().map(ev).collect();
        self.seen[m] = e.len();
        json!(v)
    }
    fn io_result<T>(r: Result<std::io::Result<T>, String>) -> (Option<T>, Value) {
        match r {
            Ok(Ok(x)) => (Some(x), json!("ok")),
            Ok(Err(e)) => (None, json!(["err", format!("{:?}", e.kind()), e.raw_os_error()])),
            Err(p) => (None, json!(["panic", p])),
        }
    }
    fn replace(&mut self, m: usize, map: Map) {
        let old = std::mem::replace(&mut self.maps[m], map);
        let _ = lib(move || drop(old));
        self.seen[m] = self.maps[m].events.events.len();
    }
    fn step(&mut self, op: &Op) -> Value {
        match *op {
            New(m) => {
                let r = lib(Map::default);
                match r {
                    Ok(x) => {
                        self.replace(m, x);
                        json!("ok")
                    }
                    Err(p) => json!(["panic", p]),
                }
            }
            Set(m, x, y, v) => {
                let mm = &mut self.maps[m];
                let r = lib(|| mm.set_tile(v2(x, y), v));
                json!([r.map_or_else(|p| json!(["panic", p]), |_| json!("ok")), self.new_events(m)])
            }
            Remove(m, x, y) => {
                let mm = &mut self.maps[m];
                let r = lib(|| mm.remove_tile(v2(x, y)));
                json!([r.map_or_else(|p| json!(["panic", p]), |_| json!("ok")), self.new_events(m)])
            }
            Fill(m, x, y, w, h, v) => {
                let mm = &mut self.maps[m];
                let r = lib(|| {
                    for dy in 0..h as i32 {
                        for dx in 0..w as i32 {
                            mm.set_tile(v2(x.wrapping_add(dx), y.wrapping_add(dy)), v);
                        }
                    }
                });
                json!([r.map_or_else(|p| json!(["panic", p]), |_| json!("ok")), self.new_events(m)])
            }
            Scatter(m, x, y, n, v) => {
                let mm = &mut self.maps[m];
                let r = lib(|| {
                    for (x, y, v) in scatter(x, y, n, v) {
                        mm.set_tile(v2(x, y), v);
                    }
                });
                json!([r.map_or_else(|p| json!(["panic", p]), |_| json!("ok")), self.new_events(m)])
            }
            Erase(m, x, y, w, h) => {
                let mm = &mut self.maps[m];
                let r = lib(|| {
                    for dy in 0..h as i32 {
                        for dx in 0..w as i32 {
                            mm.remove_tile(v2(x.wrapping_add(dx), y.wrapping_add(dy)));
                        }
                    }
                });
                json!([r.map_or_else(|p| json!(["panic", p]), |_| json!("ok")), self.new_events(m)])
            }
            Get(m, x, y) => {
                let mm = &self.maps[m];
                let r = lib(|| mm.get_tile(v2(x, y)));
                json!([r.map_or_else(|p| json!(["panic", p]), |v| json!(v)), self.new_events(m)])
            }
            Drain(m, how) => {
                let n = self.new_events(m);
                let e = &mut self.maps[m].events;
                let all: Vec<Value> = match how {
                    0 => std::mem::take(&mut e.events).iter().map(ev).collect(),
                    1 => e.events.drain(..).map(|x| ev(&x)).collect(),
                    2 => {
                        let v = e.events.iter().map(ev).collect();
                        e.events.clear();
                        v
                    }
                    _ => {
                        let mut v: Vec<Value> = vec![];
                        while let Some(x) = e.events.pop() {
                            v.push(ev(&x));
                        }
                        v.reverse();
                        v
                    }
                };
                self.seen[m] = 0;
                json!([all, n])
            }
            Dump(m) => match dump(&self.maps[m], &self.uni) {
                Ok((t, c)) => json!([t, c, self.new_events(m)]),
                Err(p) => json!(["panic", p]),
            },
            Save(m, p) => {
                let mm = &self.maps[m];
                let (_, r) = Self::io_result(lib(|| mm.save(PATHS[p])));
                json!([r, self.new_events(m)])
            }
            Load(m, p) => {
                let (x, r) = Self::io_result(lib(|| Map::load(PATHS[p])));
                match x {
                    None => json!([r]),
                    Some(x) => {
                        let e: Vec<Value> = x.events.events.iter().map(ev).collect();
                        let d = match dump(&x, &self.uni) {
                            Ok((t, c)) => json!([t, c]),
                            Err(p) => json!(["panic", p]),
                        };
                        self.replace(m, x);
                        json!([r, e, d])
                    }
                }
            }
            Cycle(m, x, y, p, n) => {
                let mut res = json!(["ok", n]);
                for k in 0..n {
                    if k % 64 == 63 {
                        rt::op_start();
                    }
                    let v = cycled(k);
                    let mm = &mut self.maps[m];
                    if let Err(p) = lib(|| mm.set_tile(v2(x, y), v)) {
                        res = json!([["panic", p], k, "edit"]);
                        break;
                    }
                    let (ok, r) = Self::io_result(lib(|| mm.save(PATHS[p])));
                    if ok.is_none() {
                        res = json!([r, k, "save"]);
                        break;
                    }
                    let (l, r) = Self::io_result(lib(|| Map::load(PATHS[p])));
                    let Some(l) = l else {
                        res = json!([r, k, "load"]);
                        break;
                    };
                    let got = lib(move || l.get_tile(v2(x, y)));
                    if got != Ok(v) {
                        res = json!([["gives", got.ok()], k, "read"]);
                        break;
                    }
                }
                json!([res, self.new_events(m)])
            }
            StreamOut(m, s, how) => {
                let mm = &self.maps[m];
                let r = lib(|| -> Result<Vec<u8>, String> {
                    match how {
                        0 => {
                            let mut w = FaultyWriter(vec![]);
                            serde_json::to_writer(&mut w, mm).map_err(|e| e.to_string())?;
                            Ok(w.0)
                        }
                        1 => serde_json::to_vec(mm).map_err(|e| e.to_string()),
                        2 => serde_json::to_value(mm).map(|v| v.to_string().into_bytes()).map_err(|e| e.to_string()),
                        _ => serde_json::to_string_pretty(mm).map(|v| v.into_bytes()).map_err(|e| e.to_string()),
                    }
                });
                let v = match r {
                    Ok(Ok(b)) => {
                        self.slots[s] = b;
                        json!("ok")
                    }
                    Ok(Err(e)) => json!(["err", e]),
                    Err(p) => json!(["panic", p]),
                };
                json!([v, self.new_events(m)])
            }
            StreamIn(m, s, how) => {
                let b = &self.slots[s];
                let r = lib(|| -> Result<Map, String> {
                    match how {
                        0 => serde_json::from_reader(FaultyReader(b)).map_err(|e| e.to_string()),
                        1 => serde_json::from_slice(b).map_err(|e| e.to_string()),
                        2 => serde_json::from_slice::<Value>(b).and_then(serde_json::from_value).map_err(|e| e.to_string()),
                        _ => serde_json::from_reader(std::io::BufReader::with_capacity(7, FaultyReader(b))).map_err(|e| e.to_string()),
                    }
                });
                match r {
                    Ok(Ok(x)) => {
                        let e: Vec<Value> = x.events.events.iter().map(ev).collect();
                        let d = match dump(&x, &self.uni) {
                            Ok((t, c)) => json!([t, c]),
                            Err(p) => json!(["panic", p]),
                        };
                        self.replace(m, x);
                        json!(["ok", e, d])
                    }
                    Ok(Err(e)) => json!([["err", e]]),
                    Err(p) => json!([["panic", p]]),
                }
            }
            Probe(m, x, y, s) => {
                let mm = &self.maps[m];
                let r = lib(|| answers(mm, x, y, s));
                json!([r.map_or_else(|p| json!(["panic", p]), |v| json!(v)), self.new_events(m)])
            }
            Twin(m, s) => self.twin(m, s),
            PanicProbe(m, _) => {
                let mm = &self.maps[m];
                let t = UserT { pos: Vec2::new(1.25, -3.0) };
                let r = lib(|| mm.collides_rel(&Point, &t));
                json!([r.map_or_else(|p| json!(["panic", p]), |v| json!(v)), self.new_events(m)])
            }
            Capacity(k) => {
                // so many bytes more than what is stored now
                let used: usize = g().fs.image().values().map(|v| v.len()).sum();
                g().fs.capacity = k.map(|k| used + k as usize);
                json!("ok")
            }
            Heal => {
                g().heal();
                self.heal = true;
                json!("ok")
            }
            Kill => {
                rt::fired("kill:between");
                rt::finish(End::Killed, None)
            }
            Power(s) => {
                rt::fired("power-cut:between");
                rt::finish(End::PowerLost, Some(s))
            }
        }
    }
    fn twin(&mut self, m: usize, s: u64) -> Value {
        let uni = self.uni.clone();
        let Ok((tiles, _)) = dump(&self.maps[m], &uni) else { return json!("dump-panic") };
        let mut r = Rng::new(s);
        let mut order: Vec<usize> = (0..tiles.len()).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, r.usize(i + 1));
        }
        let mode = r.below(3);
        let Ok(mut t) = lib(Map::default) else { return json!("twin-panic") };
        for &i in &order {
            let (x, y, v) = tiles[i];
            if lib(|| t.set_tile(v2(x, y), v)).is_err() {
                return json!("twin-panic");
            }
        }
        if mode == 1 {
            // leave an empty chunk behind somewhere
            if let Some(&(a, b)) = uni.first() {
                if !tiles.iter().any(|t| chunk_of(t.0, t.1) == (a, b)) {
                    let _ = lib(|| t.set_tile(v2(a * 16, b * 16), 0));
                }
            }
        }
        let mm = &self.maps[m];
        let mut bad = vec![];
        let before = (mm.events.events.len(), t.events.events.len());
        for k in 0..10u32 {
            let (x, y) = if !tiles.is_empty() && k < 8 {
                let t = r.pick(&tiles);
                (t.0, t.1)
            } else if !uni.is_empty() {
                let c = r.pick(&uni);
                (c.0 * 16 + r.range(0, 15) as i32, c.1 * 16 + r.range(0, 15) as i32)
            } else {
                (0, 0)
            };
            if x.unsigned_abs() > 100_000 || y.unsigned_abs() > 100_000 {
                continue;
            }
            let (fx, fy) = (x as f32 + r.range(-1, 1) as f32, y as f32 + r.range(-1, 1) as f32);
            let a = lib(|| answers(mm, fx, fy, s as u32 ^ k));
            let b = lib(|| answers(&t, fx, fy, s as u32 ^ k));
            if a != b {
                bad.push(json!([fx, fy, k, format!("{a:?}"), format!("{b:?}")]));
            }
            for (dx, dy) in [(0, 0), (1, 0), (-1, -1)] {
                match lib(|| point_truth(mm, x + dx, y + dy)) {
                    Ok([t, a, b]) if a == t && b == t => {}
                    o => bad.push(json!([x + dx, y + dy, "truth", format!("{o:?}")])),
                }
            }
        }
        let after = (mm.events.events.len(), t.events.events.len());
        let d2 = dump(mm, &uni).map(|d| d.0);
        if d2 != Ok(tiles) {
            bad.push(json!("queries changed tiles"));
        }
        if before != after {
            bad.push(json!("queries recorded events"));
        }
        let _ = lib(move || drop(t));
        json!(["twin", bad])
    }
}

pub fn body(ops: Vec<Op>, uni: Vec<(i32, i32)>) -> Body {
    Box::new(move || {
        let maps = (0..NMAPS).map(|_| lib(Map::default).unwrap_or_else(|_| panic!("default"))).collect();
        let mut e = Exec { maps, seen: vec![0; NMAPS], slots: vec![vec![]; 3], uni, heal: false };
        for op in &ops {
            let hf = g().hard_fault;
            rt::op_start();
            let c0 = rt::st().cnt;
            rt::log_text(|| format!("op {op:?}"));
            let v = e.step(op);
            let c = rt::st().cnt;
            let o = json!({"r": v, "f": g().hard_fault - hf, "a": c0, "b": c});
            g().trace = mix(g().trace ^ hash_str(&o["r"].to_string()));
            g().obs.push(o);
        }
        std::mem::forget(e);
    })
}

// ------------------------------------------------------------------ damage
fn at(len: usize, f: u32) -> usize {
    ((len as u64 * f as u64) >> 32) as usize
}
fn numbers(b: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let s = if i > 0 && b[i - 1] == b'-' { i - 1 } else { i };
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            v.push((s, i));
        } else {
            i += 1;
        }
    }
    v
}
pub const FOREIGN: [&str; 12] = [
    "", "{}", "[]", "null", "{\"chunks\":[]}x", "{\"chunks\":{}}", "\u{feff}{\"chunks\":[]}", "{\"chunks\":[[[0,0],null]]}",
    "{\"chunks\":[[[0,0],{\"array2d\":{\"data\":[],\"dims\":[0,0],\"dim_strides\":[0,0]}}]]}",
    "{\"chunks\":[[[0,0],{\"array2d\":{\"data\":[1,2,3],\"dims\":[16,16],\"dim_strides\":[1,16]}}]]}",
    "{\"chunks\":[[[0,0],{\"array2d\":{\"data\":[9],\"dims\":[1,1],\"dim_strides\":[1,1]}}]]}",
    "{\"chunks\":[[[0,0],{\"array2d\":{\"data\":[1],\"dims\":[18446744073709551615,2],\"dim_strides\":[1,18446744073709551615]}}]]}",
];
pub fn damage(img: &mut Image, d: &Damage) {
    let key = |p: usize| norm(PATHS[p]);
    let mut edit = |p: usize, f: &mut dyn FnMut(&mut Vec<u8>)| {
        if let Some(b) = img.get_mut(&key(p)) {
            f(b);
        }
    };
    match *d {
        Damage::Truncate(p, f) => edit(p, &mut |b| b.truncate(at(b.len() + 1, f))),
        Damage::Flip(p, f, k) => edit(p, &mut |b| {
            let n = b.len();
            if n > 0 {
                b[at(n, f)] ^= 1 << (k & 7)
            }
        }),
        Damage::Byte(p, f, k) => edit(p, &mut |b| {
            let n = b.len();
            if n > 0 {
                b[at(n, f)] = k
            }
        }),
        Damage::Digit(p, f, k) => edit(p, &mut |b| {
            let ds: Vec<usize> = (0..b.len()).filter(|&i| b[i].is_ascii_digit()).collect();
            if !ds.is_empty() {
                b[ds[at(ds.len(), f)]] = b'0' + k % 10;
            }
        }),
        Damage::Number(p, f, v) => edit(p, &mut |b| {
            let ns = numbers(b);
            if !ns.is_empty() {
                let (s, e) = ns[at(ns.len(), f)];
                b.splice(s..e, v.to_string().bytes());
            }
        }),
        Damage::Zero(p, f, l) => edit(p, &mut |b| {
            let s = at(b.len(), f);
            let e = (s + l as usize).min(b.len());
            b[s..e].fill(0);
        }),
        Damage::Delete(p, f, l) => edit(p, &mut |b| {
            let s = at(b.len(), f);
            let e = (s + l as usize).min(b.len());
            b.drain(s..e);
        }),
        Damage::Dup(p, f, l) => edit(p, &mut |b| {
            let s = at(b.len(), f);
            let e = (s + l as usize).min(b.len());
            let x = b[s..e].to_vec();
            b.splice(e..e, x);
        }),
        Damage::Swap(p, f, k, l) => edit(p, &mut |b| {
            let (s, t) = (at(b.len(), f), at(b.len(), k));
            for i in 0..l as usize {
                if s + i < b.len() && t + i < b.len() {
                    b.swap(s + i, t + i);
                }
            }
        }),
        Damage::Foreign(p, k) => {
            img.insert(key(p), FOREIGN[k as usize % FOREIGN.len()].as_bytes().to_vec());
        }
        Damage::Empty(p) => {
            img.insert(key(p), vec![]);
        }
        Damage::Splice(p, q, f) => {
            if let (Some(a), Some(b)) = (img.get(&key(p)).cloned(), img.get(&key(q)).cloned()) {
                let mut x = a[..at(a.len(), f)].to_vec();
                x.extend_from_slice(&b[at(b.len(), f)..]);
                img.insert(key(p), x);
            }
        }
        Damage::Golden(p, k) => {
            img.insert(key(p), crate::golden::get(k).text.into_bytes());
        }
    }
}

// ------------------------------------------------------------------ oracle (parent)
#[derive(Clone, Default, Debug, PartialEq)]
pub struct MapModel {
    pub tiles: BTreeMap<(i32, i32), u8>,
    pub chunks: BTreeSet<(i32, i32)>,
    pub pending: Vec<Value>, // events not drained
}
impl MapModel {
    fn same_store(&self, o: &MapModel) -> bool {
        self.tiles == o.tiles && self.chunks == o.chunks
    }
    fn nonzero_in(&self, c: (i32, i32)) -> usize {
        let (x0, y0) = (c.0 * 16, c.1 * 16);
        (0..16).flat_map(|dx| (0..16).map(move |dy| (x0 + dx, y0 + dy))).filter(|k| self.tiles.contains_key(k)).count()
    }
    pub fn set(&mut self, x: i32, y: i32, v: u8) -> Vec<Value> {
        let c = chunk_of(x, y);
        let old = self.tiles.get(&(x, y)).copied().unwrap_or(0);
        let created = self.chunks.insert(c);
        if v == 0 {
            self.tiles.remove(&(x, y));
        } else {
            self.tiles.insert((x, y), v);
        }
        if created {
            vec![json!(["C", c.0, c.1])]
        } else if old != v {
            vec![json!(["M", c.0, c.1])]
        } else {
            vec![]
        }
    }
    pub fn remove(&mut self, x: i32, y: i32) -> Vec<Value> {
        let c = chunk_of(x, y);
        if !self.chunks.contains(&c) {
            return vec![];
        }
        let old = self.tiles.remove(&(x, y));
        if self.nonzero_in(c) == 0 {
            self.chunks.remove(&c);
            vec![json!(["R", c.0, c.1])]
        } else if old.is_some() {
            vec![json!(["M", c.0, c.1])]
        } else {
            vec![]
        }
    }
}
#[derive(Clone, Debug)]
enum File {
    /// any of these (None: no file)
    Known(Vec<Option<MapModel>>),
    Damaged,
}

/// what a scenario checks
#[derive(Clone, Copy, Default)]
pub struct Check {
    pub tiles: bool,
    pub chunks: bool,
    pub events: bool,
    /// failures without a fault, Ok/Err of I/O
    pub io: bool,
    pub damaged: bool,
    pub twin: bool,
    /// take observed dumps as truth (tile semantics are another property's business)
    pub resync: bool,
}

struct Oracle<'a> {
    ck: Check,
    maps: Vec<MapModel>,
    files: Vec<File>,
    /// every version each path had or may have got since this incarnation began
    versions: Vec<Vec<Option<MapModel>>>,
    slots: Vec<Option<MapModel>>,
    uni: &'a BTreeSet<(i32, i32)>,
    mirror: Vec<MapModel>,
    stats: &'a mut Stats,
    sync: Vec<bool>, // model of the map is trusted
}
fn parse_dump(v: &Value) -> Result<MapModel, Violation> {
    if v[0] == "panic" {
        return viol("panic-reading-tiles", v[1].to_string());
    }
    let mut m = MapModel::default();
    for t in v[0].as_array().unwrap() {
        m.tiles.insert((t[0].as_i64().unwrap() as i32, t[1].as_i64().unwrap() as i32), t[2].as_u64().unwrap() as u8);
    }
    for t in v[1].as_array().unwrap() {
        m.chunks.insert((t[0].as_i64().unwrap() as i32, t[1].as_i64().unwrap() as i32));
    }
    Ok(m)
}
fn diff(want: &MapModel, got: &MapModel) -> String {
    for (k, v) in &want.tiles {
        if got.tiles.get(k) != Some(v) {
            return format!("tile {k:?} is {:?}, should be {v}", got.tiles.get(k).unwrap_or(&0));
        }
    }
    for (k, v) in &got.tiles {
        if !want.tiles.contains_key(k) {
            return format!("tile {k:?} is {v}, should be 0");
        }
    }
    for c in want.chunks.difference(&got.chunks) {
        return format!("chunk {c:?} is missing");
    }
    for c in got.chunks.difference(&want.chunks) {
        return format!("chunk {c:?} exists and should not");
    }
    String::new()
}
impl Oracle<'_> {
    fn restrict(&self, m: &MapModel) -> MapModel {
        let mut x = MapModel::default();
        x.tiles = m.tiles.clone();
        x.chunks = m.chunks.intersection(self.uni).copied().collect();
        x
    }
    fn events(&mut self, i: usize, op: &Op, m: usize, want: Vec<Value>, got: &Value) -> Result<(), Violation> {
        self.maps[m].pending.extend(want.iter().cloned());
        if self.ck.events && self.sync[m] && got != &json!(want) {
            return viol("events", format!("op {i} {op:?} recorded {got}, should record {}", json!(want)));
        }
        Ok(())
    }
    fn edit_result(&self, i: usize, op: &Op, r: &Value) -> Result<(), Violation> {
        if r[0] == "panic" {
            return viol("panic-in-operation", format!("op {i} {op:?}: {}", r[1]));
        }
        Ok(())
    }
    fn save_ok_model(&self, m: usize) -> Option<MapModel> {
        let mut x = self.restrict(&self.maps[m]);
        x.pending.clear();
        Some(x)
    }
    fn step(&mut self, i: usize, op: &Op, o: &Value) -> Result<(), Violation> {
        let r = &o["r"];
        let faulted = o["f"].as_u64().unwrap() > 0;
        match *op {
            New(m) => {
                self.edit_result(i, op, r)?;
                self.maps[m] = MapModel::default();
                self.mirror[m] = MapModel::default();
                self.sync[m] = true;
            }
            Set(m, x, y, v) => {
                self.edit_result(i, op, &r[0])?;
                let w = self.maps[m].set(x, y, v);
                self.events(i, op, m, w, &r[1])?;
            }
            Remove(m, x, y) => {
                self.edit_result(i, op, &r[0])?;
                let w = self.maps[m].remove(x, y);
                self.events(i, op, m, w, &r[1])?;
            }
            Fill(m, x, y, w, h, v) => {
                self.edit_result(i, op, &r[0])?;
                let mut want = vec![];
                for dy in 0..h as i32 {
                    for dx in 0..w as i32 {
                        want.extend(self.maps[m].set(x.wrapping_add(dx), y.wrapping_add(dy), v));
                    }
                }
                self.events(i, op, m, want, &r[1])?;
            }
            Scatter(m, x, y, n, v) => {
                self.edit_result(i, op, &r[0])?;
                let mut want = vec![];
                for (x, y, v) in scatter(x, y, n, v) {
                    want.extend(self.maps[m].set(x, y, v));
                }
                self.events(i, op, m, want, &r[1])?;
            }
            Erase(m, x, y, w, h) => {
                self.edit_result(i, op, &r[0])?;
                let mut want = vec![];
                for dy in 0..h as i32 {
                    for dx in 0..w as i32 {
                        want.extend(self.maps[m].remove(x.wrapping_add(dx), y.wrapping_add(dy)));
                    }
                }
                self.events(i, op, m, want, &r[1])?;
            }
            Get(m, x, y) => {
                self.edit_result(i, op, &r[0])?;
                let want = self.maps[m].tiles.get(&(x, y)).copied().unwrap_or(0);
                if self.ck.tiles && self.sync[m] && r[0] != json!(want) {
                    return viol("tile", format!("op {i}: tile ({x},{y}) of map {m} reads {}, should be {want}", r[0]));
                }
                self.events(i, op, m, vec![], &r[1])?;
            }
            Drain(m, _) => {
                let all = std::mem::take(&mut self.maps[m].pending);
                if self.ck.events && self.sync[m] {
                    if r[0] != json!(all) {
                        return viol("events", format!("op {i}: drained {}, should be {}", r[0], json!(all)));
                    }
                    // the observer refreshes the chunks named and must then agree with the map
                    let names: BTreeSet<(i32, i32)> = r[0].as_array().unwrap().iter().map(|e| (e[1].as_i64().unwrap() as i32, e[2].as_i64().unwrap() as i32)).collect();
                    for c in names {
                        let mm = &self.maps[m];
                        let mi = &mut self.mirror[m];
                        mi.tiles.retain(|k, _| chunk_of(k.0, k.1) != c);
                        mi.tiles.extend(mm.tiles.iter().filter(|(k, _)| chunk_of(k.0, k.1) == c).map(|(k, v)| (*k, *v)));
                        if mm.chunks.contains(&c) {
                            mi.chunks.insert(c);
                        } else {
                            mi.chunks.remove(&c);
                        }
                    }
                    if !self.mirror[m].same_store(&self.maps[m]) {
                        return viol("mirror", format!("op {i}: observer of map {m} is out of step: {}", diff(&self.maps[m], &self.mirror[m])));
                    }
                    self.stats.probe("observer-compared");
                }
            }
            Dump(m) => {
                let d = parse_dump(r)?;
                let w = self.restrict(&self.maps[m]);
                if self.ck.resync {
                    self.maps[m].tiles = d.tiles;
                    self.maps[m].chunks = d.chunks;
                    self.sync[m] = true;
                } else if self.sync[m] {
                    if self.ck.tiles && d.tiles != w.tiles {
                        return viol("tile", format!("op {i}: map {m}: {}", diff(&w, &d)));
                    }
                    if self.ck.chunks && d.chunks != w.chunks {
                        return viol("chunks", format!("op {i}: map {m}: {}", diff(&w, &MapModel { tiles: w.tiles.clone(), ..d })));
                    }
                }
                self.events(i, op, m, vec![], &r[2])?;
            }
            Save(m, p) => {
                let res = &r[0];
                let new = self.save_ok_model(m);
                self.events(i, op, m, vec![], &r[1])?;
                if res[0] == "panic" {
                    return viol("save-panics", format!("op {i} {op:?}: {}", res[1]));
                }
                self.versions[p].push(new.clone());
                if res == "ok" {
                    self.stats.probe(if faulted { "save-ok-despite-fault" } else { "save-ok" });
                    self.files[p] = File::Known(vec![new]);
                } else {
                    if !faulted && self.ck.io {
                        return viol("save-fails-without-fault", format!("op {i} {op:?}: {res}"));
                    }
                    self.stats.probe("save-failed");
                    match &mut self.files[p] {
                        File::Known(v) => v.push(new),
                        File::Damaged => {}
                    }
                }
            }
            Cycle(m, x, y, p, n) => {
                let res = &r[0];
                let done = if res[0] == "ok" { n } else { res[1].as_u64().unwrap() as u32 + 1 };
                let mut want = vec![];
                for k in 0..done {
                    want.extend(self.maps[m].set(x, y, cycled(k)));
                    if k < 256 {
                        let v = self.save_ok_model(m);
                        self.versions[p].push(v);
                    }
                }
                self.events(i, op, m, want, &r[1])?;
                let new = self.save_ok_model(m);
                if res[0] == "ok" {
                    self.stats.probe("save-load-cycles");
                    self.files[p] = File::Known(vec![new]);
                } else {
                    let k = &res[1];
                    let what = |c: &str| viol(c, format!("op {i} {op:?}: {} in round {k}: {}", res[2], res[0]));
                    if res[0][0] == "panic" {
                        return what(&format!("{}-panics", res[2].as_str().unwrap()));
                    }
                    if res[2] == "read" && (self.ck.tiles || self.ck.io) {
                        return what("load-gives-other-map");
                    }
                    if !faulted && self.ck.io {
                        return what(if res[2] == "save" { "save-fails-without-fault" } else { "load-fails" });
                    }
                    // it holds this version or the one before
                    let known = self.versions[p].clone();
                    self.files[p] = match (&self.files[p], res[2].as_str()) {
                        (File::Damaged, Some("save")) if done == 1 => File::Damaged,
                        (_, Some("save")) => File::Known(known),
                        _ => File::Known(vec![new]),
                    };
                }
            }
            Load(m, p) => {
                let res = &r[0];
                if res[0] == "panic" {
                    return viol("load-panics", format!("op {i} {op:?}: {}", res[1]));
                }
                if res == "ok" {
                    self.stats.probe("load-ok");
                    if self.ck.events && r[1].as_array().is_none_or(|a| !a.is_empty()) {
                        return viol("events", format!("op {i}: a freshly loaded map has events {}", r[1]));
                    }
                    let d = parse_dump(&r[2])?;
                    match self.files[p].clone() {
                        File::Known(v) => {
                            let same = |x: &&MapModel| x.tiles == d.tiles && (!self.ck.chunks || x.chunks == d.chunks);
                            // the one with the very same chunks, if there is one
                            let hit = v.iter().flatten().filter(same).max_by_key(|x| x.chunks == d.chunks).cloned();
                            match hit {
                                Some(_) => {
                                    if v.len() > 1 {
                                        self.stats.probe("ambiguous-file-resolved");
                                    }
                                    self.files[p] = File::Known(vec![Some(d.clone())]);
                                }
                                None if self.ck.tiles || self.ck.io => {
                                    let why = v.iter().map(|x| x.as_ref().map_or("no file".to_string(), |x| diff(x, &d))).collect::<Vec<_>>().join(" / ");
                                    return viol("load-gives-other-map", format!("op {i} {op:?}: none of the {} maps the file may hold: {why}", v.len()));
                                }
                                None => {}
                            }
                        }
                        File::Damaged => {
                            self.stats.probe("damaged-file-accepted");
                            self.files[p] = File::Known(vec![Some(d.clone())]);
                        }
                    }
                    self.maps[m] = d.clone();
                    self.mirror[m] = d;
                    self.sync[m] = true;
                } else {
                    self.stats.probe("load-failed");
                    match &self.files[p] {
                        File::Damaged => self.stats.probe("damaged-file-rejected"),
                        File::Known(v) => {
                            if !faulted && !v.contains(&None) && self.ck.io {
                                return viol("load-fails", format!("op {i} {op:?}: {res} although a map was saved there"));
                            }
                        }
                    }
                }
            }
            StreamOut(m, s, _) => {
                if r[0] != "ok" {
                    return if r[0][0] == "panic" || self.ck.io { viol("serialise-fails", format!("op {i} {op:?}: {}", r[0])) } else { Ok(()) };
                }
                self.slots[s] = self.save_ok_model(m);
                self.events(i, op, m, vec![], &r[1])?;
            }
            StreamIn(m, s, _) => {
                let Some(want) = self.slots[s].clone() else { return Ok(()) };
                if r[0] != "ok" {
                    return if r[0][0] == "panic" || self.ck.io { viol("parse-fails", format!("op {i} {op:?}: {}", r[0])) } else { Ok(()) };
                }
                let d = parse_dump(&r[2])?;
                if (self.ck.tiles || self.ck.io) && (d.tiles != want.tiles || (self.ck.chunks && d.chunks != want.chunks)) {
                    return viol("stream-gives-other-map", format!("op {i} {op:?}: {}", diff(&want, &d)));
                }
                self.maps[m] = d.clone();
                self.mirror[m] = d;
                self.sync[m] = true;
            }
            Probe(m, ..) => {
                self.edit_result(i, op, &r[0])?;
                self.events(i, op, m, vec![], &r[1])?;
            }
            PanicProbe(m, _) => self.events(i, op, m, vec![], &r[1])?,
            Twin(m, _) => {
                if self.ck.twin {
                    if r[0] != "twin" {
                        return viol("panic-in-operation", format!("op {i} {op:?}: {r}"));
                    }
                    if let Some(b) = r[1].as_array().unwrap().first() {
                        return viol("answer-depends-on-history", format!("op {i} map {m}: {b}"));
                    }
                    self.stats.probe("twins-compared");
                }
            }
            Capacity(_) | Heal | Kill | Power(_) => {}
        }
        Ok(())
    }
    /// the incarnation ended before `op` gave its result
    fn interrupted(&mut self, op: Option<&Op>) {
        if let Some(Save(m, p)) = op {
            let new = self.save_ok_model(*m);
            self.versions[*p].push(new.clone());
            if let File::Known(v) = &mut self.files[*p] {
                v.push(new);
                self.stats.probe("crash-inside-save");
            }
        }
        if let Some(&Cycle(m, x, y, p, n)) = op {
            for k in 0..n.min(256) {
                self.maps[m].set(x, y, cycled(k));
                let new = self.save_ok_model(m);
                self.versions[p].push(new);
            }
            if let File::Known(v) = &mut self.files[p] {
                v.extend(self.versions[p].iter().cloned());
            }
            self.stats.probe("crash-inside-save");
        }
        if let Some(Load(..)) = op {
            self.stats.probe("crash-inside-load");
        }
    }
}

pub fn execute(c: &Case, ck: Check, s: &mut Stats) -> Outcome {
    let uni = universe(c);
    let uset: BTreeSet<_> = uni.iter().copied().collect();
    let mut img = Image::new();
    let mut trace = 0u64;
    let mut files: Vec<File> = vec![File::Known(vec![None]); PATHS.len()];
    let mut faults = 0;
    let mut violation = None;
    for (k, inc) in c.incs.iter().enumerate() {
        for d in &inc.damage {
            damage(&mut img, d);
            s.fault(&format!("damage:{}", format!("{d:?}").split('(').next().unwrap()));
            faults += 1;
            let p = match d {
                Damage::Truncate(p, ..) | Damage::Flip(p, ..) | Damage::Digit(p, ..) | Damage::Byte(p, ..) | Damage::Zero(p, ..) | Damage::Delete(p, ..) | Damage::Dup(p, ..) | Damage::Swap(p, ..)
                | Damage::Foreign(p, ..) | Damage::Splice(p, ..) | Damage::Number(p, ..) | Damage::Empty(p) | Damage::Golden(p, _) => *p,
            };
            files[p] = match d {
                Damage::Golden(_, k) => {
                    let mut m = crate::golden::get(*k).model();
                    m.chunks = m.chunks.intersection(&uset).copied().collect();
                    File::Known(vec![Some(m)])
                }
                _ => File::Damaged,
            };
        }
        let (ops, u2) = (inc.ops.clone(), uni.clone());
        let r = proc::run(&inc.env, &inc.plan, &img, move || vec![body(ops, u2)]);
        s.report(&r);
        trace = mix(trace ^ r.trace ^ hash_str(&format!("{:?}", r.end)));
        faults += r.fired.values().sum::<u64>();
        let versions = files.iter().map(|f| if let File::Known(v) = f { v.clone() } else { vec![] }).collect();
        let damaged: Vec<bool> = files.iter().map(|f| matches!(f, File::Damaged)).collect();
        let mut o = Oracle {
            ck,
            maps: vec![MapModel::default(); NMAPS],
            files,
            versions,
            slots: vec![None; 3],
            uni: &uset,
            mirror: vec![MapModel::default(); NMAPS],
            stats: s,
            sync: vec![true; NMAPS],
        };
        for (i, (op, ob)) in inc.ops.iter().zip(&r.obs).enumerate() {
            if let Err(v) = o.step(i, op, ob) {
                violation = Some(Violation { class: v.class, detail: format!("process {k}: {}", v.detail) });
                break;
            }
        }
        if violation.is_none() {
            violation = bad_end(&r).map(|v| Violation { class: v.class, detail: format!("process {k}, in {:?}: {}", inc.ops.get(r.obs.len()), v.detail) });
        }
        if violation.is_some() {
            break;
        }
        if r.obs.len() < inc.ops.len() {
            o.interrupted(inc.ops.get(r.obs.len()));
        }
        let (mut f2, vers) = (o.files, o.versions);
        if r.end == End::PowerLost {
            for p in 0..PATHS.len() {
                f2[p] = if damaged[p] && vers[p].is_empty() {
                    File::Damaged
                } else if damaged[p] {
                    File::Damaged // the damaged file may come back
                } else {
                    File::Known(vers[p].clone())
                };
            }
        }
        files = f2;
        img = r.image;
    }
    Outcome { violation, trace, nontrivial: faults > 0 }
}

// ------------------------------------------------------------------ generation
pub struct Gen<'a> {
    pub r: &'a mut Rng,
    xs: Vec<(i32, i32)>,
    vals: Vec<u8>,
    maps: usize,
    paths: usize,
    probs: [f64; 8],
}
impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng) -> Self {
        let n = 1 + r.usize(5);
        let mut xs = vec![];
        for _ in 0..n {
            let c = |r: &mut Rng| -> i32 {
                match r.below(14) {
                    0..=3 => 0,
                    4 => -1,
                    5 => 1,
                    6 => r.range(-3, 3) as i32,
                    7 => *r.pick(&[-134217728, 134217727, -134217727, 134217726]),
                    8 => *r.pick(&[-32768, 32767, 65535, 4095, -4096, 255, -256, 127, -128, 15, 16, -16, -17]),
                    9 => *r.pick(&[-1, 0]),
                    10 => r.range(-40, 40) as i32,
                    11 => r.range(-5000, 5000) as i32,
                    _ => r.range(-134217728, 134217727) as i32,
                }
            };
            let p = (c(r), c(r));
            xs.push(p);
            if r.p(0.3) {
                xs.push((p.1, p.0));
            }
            if r.p(0.25) {
                // places that differ in one bit, or cancel out in a sum: packed or hashed keys may confuse them
                let b = 1i32 << r.below(27);
                let q = match r.below(5) {
                    0 => (p.0 ^ b, p.1),
                    1 => (p.0, p.1 ^ b),
                    2 => (p.0 ^ b, p.1 ^ b),
                    3 => (p.0 + 1, p.1 - (1 << r.pick(&[1, 4, 5, 8, 10, 16, 20]))),
                    _ => (-1 - p.0, p.1),
                };
                xs.push((q.0.clamp(-134217728, 134217727), q.1.clamp(-134217728, 134217727)));
            }
            if r.p(0.3) {
                xs.push((p.0.wrapping_add(1).min(134217727), p.1));
            }
        }
        let mut vals = vec![1];
        for _ in 0..r.usize(5) {
            vals.push(match r.below(6) {
                0 => 0,
                1 => 255,
                2 => 128,
                _ => r.below(256) as u8,
            });
        }
        // values that cancel out in sums
        match r.below(12) {
            0 => vals = vec![128],
            1 => {
                let v = 1 + r.below(255) as u8;
                vals = vec![v, v.wrapping_neg()]
            }
            2 => vals = vec![*r.pick(&[1u8, 2, 3, 4, 10, 64, 255])],
            3 => vals = (0..4).map(|_| 1 + r.below(6) as u8).collect(),
            _ => {}
        }
        let mut probs = [0.0; 8];
        for p in &mut probs {
            *p = r.f() * r.f() * 2.0 + 0.05;
        }
        let maps = 1 + r.usize(NMAPS);
        let paths = 1 + r.usize(PATHS.len());
        Gen { r, xs, vals, maps, paths, probs }
    }
    pub fn pos(&mut self) -> (i32, i32) {
        let c = *self.r.pick(&self.xs);
        let l = |r: &mut Rng| -> i32 {
            match r.below(5) {
                0 => 0,
                1 => 15,
                2 => r.range(0, 2) as i32,
                _ => r.range(0, 15) as i32,
            }
        };
        (c.0 * 16 + l(self.r), c.1 * 16 + l(self.r))
    }
    pub fn map(&mut self) -> usize {
        self.r.usize(self.maps)
    }
    pub fn path(&mut self) -> usize {
        self.r.usize(self.paths)
    }
    pub fn val(&mut self) -> u8 {
        if self.r.p(0.1) { self.r.below(256) as u8 } else { *self.r.pick(&self.vals) }
    }
    pub fn edit(&mut self, hist: &mut Vec<(usize, i32, i32)>) -> Op {
        let w = self.probs;
        let t = w[0] * 3.0 + w[1] * 2.0 + w[2];
        let mut k = self.r.f() * t;
        // mostly come back to places already used
        let (m, x, y) = if !hist.is_empty() && self.r.p(0.55) {
            let h = *self.r.pick(hist);
            if self.r.p(0.9) { h } else { (self.map(), h.1, h.2) }
        } else {
            let p = self.pos();
            (self.map(), p.0, p.1)
        };
        k -= w[0] * 3.0;
        if k < 0.0 {
            hist.push((m, x, y));
            let v = self.val();
            return Set(m, x, y, v);
        }
        k -= w[1] * 2.0;
        if k < 0.0 {
            return Remove(m, x, y);
        }
        Get(m, x, y)
    }
    pub fn fill(&mut self) -> Op {
        let (x, y) = self.pos();
        let m = self.map();
        let (mut x, mut y) = (x, y);
        if self.r.p(0.3) {
            (x, y) = (x & !15, y & !15);
        }
        let (w, h) = match self.r.below(6) {
            0 => (16, 16),
            1 => (33, 2),
            2 => (1, 40),
            3 => (self.r.range(1, 8) as u16, self.r.range(1, 8) as u16),
            _ => (self.r.range(1, 20) as u16, self.r.range(1, 20) as u16),
        };
        let v = self.val();
        let x = x.min(i32::MAX - w as i32);
        let y = y.min(i32::MAX - h as i32);
        if self.r.p(0.25) {
            return Erase(m, x, y, w, h);
        }
        Fill(m, x, y, w, h, v)
    }
}
pub fn env(r: &mut Rng) -> Env {
    Env {
        seed: r.u64(),
        log_level: r.below(6) as u8,
        pid: if r.p(0.4) { 1 } else { r.range(2, 4_000_000) as i32 },
        max_io: if r.p(0.25) { *r.pick(&[1usize, 7, 64, 511, 1000, 4096]) } else { usize::MAX },
        fmt: r.p(0.2),
        io_ns: 1000 + r.below(1_000_000),
        ..Default::default()
    }
}
/// executes without any plan, to learn where operations pass which points
pub fn dry(c: &Case) -> Vec<Report> {
    let uni = universe(c);
    let mut img = Image::new();
    let mut out = vec![];
    for inc in &c.incs {
        for d in &inc.damage {
            damage(&mut img, d);
        }
        let (ops, u2) = (inc.ops.clone(), uni.clone());
        let r = proc::run(&inc.env, &[], &img, move || vec![body(ops, u2)]);
        img = r.image.clone();
        out.push(r);
    }
    out
}
/// a position of class c inside operation `op` of a dry run
fn inside(r: &mut Rng, rep: &Report, op: usize, c: usize) -> Option<u64> {
    let o = rep.obs.get(op)?;
    let (a, b) = (o["a"][c].as_u64()?, o["b"][c].as_u64()?);
    if a >= b {
        return None;
    }
    Some(match r.below(8) {
        0 => a + 1,
        1 => b,
        2 => b.saturating_sub(r.below(3)).max(a + 1),
        _ => a + 1 + r.below(b - a),
    })
}
/// a system call of one of the kinds inside operation `op`
fn io_of_kind(r: &mut Rng, rep: &Report, op: usize, kinds: &[rt::Op]) -> Option<u64> {
    let o = rep.obs.get(op)?;
    let (a, b) = (o["a"][IO].as_u64()?, o["b"][IO].as_u64()?);
    let v: Vec<u64> = (a..b).filter(|&k| kinds.iter().any(|x| rep.ios[0].get(k as usize) == Some(&(*x as u8)))).collect();
    if v.is_empty() { None } else { Some(*r.pick(&v) + 1) }
}
fn ops_like(inc: &Inc, f: impl Fn(&Op) -> bool) -> Vec<usize> {
    inc.ops.iter().enumerate().filter(|x| f(x.1)).map(|x| x.0).collect()
}
fn benign(r: &mut Rng, inc: &mut Inc, rep: &Report, n: usize) {
    let io = ops_like(inc, |o| matches!(o, Save(..) | Load(..) | Cycle(..)));
    let st = ops_like(inc, |o| matches!(o, StreamOut(..) | StreamIn(..)));
    for _ in 0..n {
        if !io.is_empty() && r.p(0.8) {
            let o = *r.pick(&io);
            if let Some(k) = inside(r, rep, o, IO) {
                let a = match r.below(4) {
                    0 => Act::Eintr,
                    1 => Act::Delay(r.below(5_000_000_000)),
                    _ => Act::Short(r.geo(200.0, 8000) as u32 + 1),
                };
                inc.plan.push(Point { t: 0, c: IO, n: k, a });
            }
        } else if !st.is_empty() {
            let o = *r.pick(&st);
            if let Some(k) = inside(r, rep, o, USER) {
                let a = if r.p(0.4) { Act::Eintr } else { Act::Short(r.geo(40.0, 500) as u32 + 1) };
                inc.plan.push(Point { t: 0, c: USER, n: k, a });
            }
        }
    }
}
fn hard(r: &mut Rng, inc: &mut Inc, rep: &Report, only: impl Fn(&Op) -> bool) {
    let io = ops_like(inc, only);
    if io.is_empty() {
        return;
    }
    let o = *r.pick(&io);
    use rt::Op as K;
    let k = if r.p(0.6) {
        let kinds: &[K] = match r.below(8) {
            0 => &[K::Open, K::Create],
            1 | 2 => &[K::Write],
            3 => &[K::Read],
            4 => &[K::Fsync],
            5 => &[K::Rename],
            6 => &[K::Close, K::Unlink],
            _ => &[K::Stat, K::Seek, K::Trunc],
        };
        io_of_kind(r, rep, o, kinds)
    } else {
        inside(r, rep, o, IO)
    };
    if let Some(n) = k {
        let a = if r.p(0.75) { Act::Errno(r.below(60) as u32) } else { Act::ErrnoFrom(r.below(60) as u32) };
        inc.plan.push(Point { t: 0, c: IO, n, a });
        if r.p(0.2) {
            // and one more soon after (during clean-up)
            inc.plan.push(Point { t: 0, c: IO, n: n + 1 + r.below(3), a: Act::Errno(r.below(60) as u32) });
        }
    }
}
fn crash(r: &mut Rng, inc: &mut Inc, rep: &Report, power: bool, only: impl Fn(&Op) -> bool) {
    let io = ops_like(inc, only);
    if io.is_empty() {
        return;
    }
    let o = *r.pick(&io);
    let c = match r.below(10) {
        0..=5 => IO,
        6..=8 => MEM,
        _ => ALLOC,
    };
    let seed = r.u64();
    if let Some(n) = inside(r, rep, o, c) {
        let a = match (c == IO && r.p(0.6), power) {
            (true, true) => Act::PowerMid(r.below(1001) as u32, seed),
            (true, false) => Act::KillMid(r.below(1001) as u32),
            (false, true) => Act::Power(seed),
            (false, false) => Act::Kill,
        };
        inc.plan.push(Point { t: 0, c, n, a });
    }
}
/// After a first fault: what the operation does then (clean-up, retries, other ways) is where the next one strikes.
fn follow(r: &mut Rng, inc: &mut Inc, uni: &[(i32, i32)], img: &Image, crashes: bool, errors: bool) {
    let fatal = |a: &Act| matches!(a, Act::Kill | Act::KillMid(_) | Act::Power(_) | Act::PowerMid(..));
    let errs: Vec<u64> = inc.plan.iter().filter(|p| p.c == IO && matches!(p.a, Act::Errno(_))).map(|p| p.n).collect();
    if errs.is_empty() {
        return;
    }
    let e = *r.pick(&errs);
    let plan: Vec<Point> = inc.plan.iter().filter(|p| !fatal(&p.a)).cloned().collect();
    let (ops, u2) = (inc.ops.clone(), uni.to_vec());
    let rp = proc::run(&inc.env, &plan, img, move || vec![body(ops, u2)]);
    let num = |o: &Value, w: &str| o[w][IO].as_u64().unwrap_or(0);
    let Some(o) = rp.obs.iter().position(|o| num(o, "a") < e && e <= num(o, "b")) else { return };
    let end = num(&rp.obs[o], "b");
    let n = if end > e {
        let near = if r.p(0.5) { 4 } else { u64::MAX };
        e + 1 + r.below((end - e).min(near))
    } else {
        // nothing more in that call: the next one that saves or loads
        let next = (o + 1..rp.obs.len().min(inc.ops.len())).find(|&k| matches!(inc.ops[k], Save(..) | Load(..) | Cycle(..)));
        let Some(n) = next.and_then(|k| inside(r, &rp, k, IO)) else { return };
        n
    };
    if crashes && (!errors || r.p(0.6)) {
        inc.plan.retain(|p| !fatal(&p.a));
        let seed = r.u64();
        let a = match r.below(6) {
            0 => Act::Power(seed),
            1 | 2 => Act::PowerMid(r.below(1001) as u32, seed),
            3 => Act::Kill,
            _ => Act::KillMid(r.below(1001) as u32),
        };
        inc.plan.push(Point { t: 0, c: IO, n, a });
    } else {
        inc.plan.push(Point { t: 0, c: IO, n, a: Act::Errno(r.below(60) as u32) });
    }
}
/// one or a few big maps, spread over many chunks
fn big(g: &mut Gen, ops: &mut Vec<Op>, scale: u64) {
    let m = g.map();
    let v = g.val().max(1);
    match g.r.below(4) {
        3 => {
            let n = 20f64 * if scale >= 60 && g.r.p(0.1) { 50f64 } else { 10f64 }.powf(g.r.f());
            ops.push(Scatter(m, -300, -200, n as u32, v));
        }
        0 => {
            // long strip of chunks, one tile each
            let n = 20 + g.r.below(scale);
            for k in 0..n as i32 {
                ops.push(Set(m, k * 16 - 200, (k % 7) * 16 - 40, v));
            }
        }
        1 => ops.push(Fill(m, -100, -50, (60 + g.r.below(scale)) as u16, 60, v)),
        _ => {
            let n = 3 + g.r.below(6) as i32;
            for a in -n..n {
                for b in -n..n {
                    ops.push(Set(m, a * 16 + (b & 15), b * 16 + 3, ((a * 31 + b * 7) & 255) as u8 | 1));
                }
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    C01,
    C02,
    C03,
    C04,
    C05,
    C06,
    C07,
    C14,
    C16,
}
pub struct Store(pub Kind);
use Kind::*;

impl Store {
    fn check(&self) -> Check {
        let z = Check::default();
        match self.0 {
            C01 => Check { tiles: true, ..z },
            C02 => Check { events: true, ..z },
            C03 => Check { io: true, tiles: false, chunks: true, resync: true, ..z },
            C04 => Check { io: true, resync: true, events: true, ..z },
            C05 => Check { io: true, resync: true, ..z },
            C06 => Check { tiles: true, damaged: true, ..z },
            C07 => Check { io: true, resync: true, ..z },
            C14 => Check { twin: true, ..z },
            C16 => Check { io: true, tiles: true, ..z },
        }
    }
    fn history(&self, g: &mut Gen, n: usize, hist: &mut Vec<(usize, i32, i32)>, w: &Mix) -> Vec<Op> {
        let mut ops = vec![];
        let mut saved: Vec<usize> = vec![];
        let mut slots: Vec<usize> = vec![];
        for _ in 0..n {
            if g.r.p(w.edit) {
                if g.r.p(0.06) {
                    let f = g.fill();
                    if let Fill(m, x, y, w, h, _) = f {
                        hist.push((m, x, y));
                        ops.push(f);
                        if g.r.p(0.25) {
                            // take (nearly) all of it away again
                            let (w, h) = if g.r.p(0.5) { (w, h) } else { (w, (h - 1).max(1)) };
                            ops.push(Erase(m, x, y, w, h));
                            if g.r.p(0.5) {
                                ops.push(Dump(m));
                            }
                        }
                    } else {
                        ops.push(f);
                    }
                } else {
                    ops.push(g.edit(hist));
                }
                continue;
            }
            let total: f64 = w.rest.iter().map(|x| x.1).sum();
            let mut k = g.r.f() * total;
            for (name, p) in &w.rest {
                k -= p;
                if k >= 0.0 {
                    continue;
                }
                match *name {
                    "drain" => {
                        let m = g.map();
                        let h = g.r.below(4) as u8;
                        ops.push(Drain(m, h))
                    }
                    "dump" => {
                        let m = g.map();
                        ops.push(Dump(m))
                    }
                    "save" => {
                        let (m, p) = (g.map(), g.path());
                        ops.push(Dump(m));
                        ops.push(Save(m, p));
                        saved.push(p);
                    }
                    "load" => {
                        let m = g.map();
                        let p = if !saved.is_empty() && g.r.p(0.85) { *g.r.pick(&saved) } else { g.path() };
                        ops.push(Load(m, p));
                    }
                    "stream" => {
                        let (m, s, h) = (g.map(), g.r.usize(3), g.r.below(4) as u8);
                        ops.push(Dump(m));
                        ops.push(StreamOut(m, s, h));
                        slots.push(s);
                    }
                    "parse" => {
                        if let Some(&s) = slots.last() {
                            let m = g.map();
                            let h = g.r.below(4) as u8;
                            ops.push(StreamIn(m, s, h));
                        }
                    }
                    "probe" => {
                        let m = g.map();
                        let (_, x, y) = if hist.is_empty() { (0, 0, 0) } else { *g.r.pick(hist) };
                        if x.unsigned_abs() < 100_000 && y.unsigned_abs() < 100_000 {
                            let s = g.r.u64() as u32;
                            ops.push(Probe(m, x as f32, y as f32, s));
                        }
                    }
                    "panic" => {
                        let m = g.map();
                        ops.push(PanicProbe(m, 0))
                    }
                    "twin" => {
                        let m = g.map();
                        let s = g.r.u64();
                        ops.push(Twin(m, s));
                    }
                    "new" => {
                        let m = g.map();
                        ops.push(New(m));
                    }
                    "full" => {
                        let k = g.r.geo(1500.0, 100_000) as u32;
                        ops.push(Capacity(Some(k)));
                    }
                    "heal" => ops.push(Heal),
                    _ => unreachable!(),
                }
                break;
            }
        }
        ops
    }
}
struct Mix {
    edit: f64,
    rest: Vec<(&'static str, f64)>,
}

impl Scenario for Store {
    type Case = Case;
    fn id(&self) -> &'static str {
        match self.0 {
            C01 => "C01",
            C02 => "C02",
            C03 => "C03",
            C04 => "C04",
            C05 => "C05",
            C06 => "C06",
            C07 => "C07",
            C14 => "C14",
            C16 => "C16",
        }
    }
    fn plan(&self) -> Plan {
        let quick = match self.0 {
            C01 | C02 => 7000,
            C16 => 1500,
            C03 | C04 => 1500,
            C05 | C06 | C14 => 2500,
            C07 => 1200,
        };
        Plan { quick, thorough: 200_000 }
    }
    fn rule(&self) -> String {
        "one run = one seeded case: up to 5 simulated processes sharing a simulated disk, each executing a generated history on up to 3 real Tilemaps with a planned list of faults/crashes; non-trivial = at least one fault, crash, damage or perturbation actually fired in it".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "system calls behave as the simulated disk does (ordered metadata journal, un-synced data may be lost, torn or reordered at power loss; page cache survives a process kill)".into(),
            "single-threaded use of each map (threads are C15)".into(),
            "a search over seeds, not a proof".into(),
        ]
    }
    fn real_and_stub(&self) -> (String, String) {
        ("auburn (tilemap, publisher, shapes, rect), lk_math, serde_json, Rust std (fs, BufReader/BufWriter, HashMap)".into(), "kernel: file system, clock, randomness, process id, process death; logger and streams are the harness's".into())
    }
    fn gen(&self, r: &mut Rng, idx: u64, thorough: bool) -> Case {
        let mut hist = vec![];
        let mut incs = vec![];
        let e = |g: &mut Gen| env(g.r);
        let mut gg = Gen::new(r);
        let g = &mut gg;
        let len = if g.r.p(0.05) { 150 + g.r.usize(250) } else { 4 + g.r.geo(25.0, 150) as usize };
        let inc = |env: Env, ops: Vec<Op>| Inc { env, ops, plan: vec![], damage: vec![] };
        let k = self.0;
        match k {
            C01 | C02 => {
                let n = 1 + g.r.geo(1.0, 4) as usize;
                let io = if g.r.p(0.7) { 1.0 } else { 0.0 };
                for j in 0..n {
                    let w = Mix {
                        edit: 0.6 + 0.3 * g.r.f(),
                        rest: vec![("drain", if k == C02 { 3.0 } else { 0.5 }), ("dump", 1.0), ("save", io), ("load", io), ("stream", 0.2), ("parse", 0.3), ("probe", 0.4), ("panic", 0.1), ("new", 0.1), ("full", 0.15 * io), ("heal", 0.2 * io)],
                    };
                    let mut ops = vec![];
                    if j > 0 {
                        for p in 0..g.paths.min(3) {
                            let m = g.map();
                            ops.push(Load(m, p));
                        }
                    }
                    if g.r.p(0.03) {
                        big(g, &mut ops, 60);
                    }
                    ops.extend(self.history(g, len / n + 2, &mut hist, &w));
                    cycles(g, &mut ops, 0.012, if k == C01 { 0.0004 } else { 0.0 });
                    for m in 0..g.maps {
                        if k == C02 {
                            ops.push(Drain(m, (m & 3) as u8));
                        }
                        ops.push(Dump(m));
                    }
                    incs.push(inc(e(g), ops));
                }
            }
            C03 => {
                let n = 1 + g.r.below(3) as usize;
                let thor = if thorough { 0.02 } else { 0.008 };
                for j in 0..n {
                    let w = Mix { edit: 0.55 + 0.3 * g.r.f(), rest: vec![("save", 2.0), ("load", 2.0), ("stream", 1.0), ("parse", 1.5), ("new", 0.1)] };
                    let mut ops = vec![];
                    if j > 0 {
                        for p in 0..g.paths.min(3) {
                            let m = g.map();
                            ops.push(Load(m, p));
                        }
                    }
                    if g.r.p(0.10) {
                        big(g, &mut ops, 150);
                    }
                    if g.r.p(thor) {
                        // a file of more than a megabyte
                        let v = g.val().max(100);
                        if g.r.p(0.5) {
                            let (w, h) = if g.r.p(0.2) { (600, 560) } else { (300, 140) };
                            ops.push(Fill(0, -256, -256, w, h, v));
                        } else {
                            ops.push(Scatter(0, -4000, -4000, (1500.0 * 13f64.powf(g.r.f())) as u32, v));
                        }
                        ops.push(Dump(0));
                        ops.push(Save(0, 0));
                        ops.push(Load(1, 0));
                        // (a file laid out with white space is ten times as long)
                        let big = Env { budget: 12_000_000_000, max_io: usize::MAX, ..e(g) };
                        incs = vec![inc(big.clone(), ops), inc(big, vec![Load(2, 0)])];
                        break;
                    }
                    ops.extend(self.history(g, len / n + 3, &mut hist, &w));
                    // several generations
                    let (m, p) = (g.map(), g.path());
                    for _ in 0..1 + g.r.below(3) {
                        ops.push(Dump(m));
                        ops.push(Save(m, p));
                        ops.push(Load(m, p));
                    }
                    let mut en = e(g);
                    en.budget = 3_000_000_000;
                    incs.push(inc(en, ops));
                }
            }
            C04 | C07 => {
                let n = 1 + g.r.below(3) as usize;
                let burst = k == C07 && g.r.p(0.15);
                for j in 0..n {
                    let w = Mix { edit: 0.5, rest: vec![("save", 3.0), ("load", 2.0), ("full", 0.6), ("heal", if k == C07 { 1.0 } else { 0.5 }), ("new", 0.05)] };
                    let mut ops = vec![];
                    if j > 0 {
                        for p in 0..g.paths.min(2) {
                            let m = g.map();
                            ops.push(Load(m, p));
                        }
                    }
                    if g.r.p(0.2) {
                        big(g, &mut ops, 60);
                    }
                    ops.extend(self.history(g, len.min(60) / n + 4, &mut hist, &w));
                    cycles(g, &mut ops, 0.02, 0.0);
                    if burst {
                        // the same failure again and again: a damaged file, a missing one, a full disk
                        let times = 5 + g.r.geo(40.0, 150);
                        let how = g.r.below(3);
                        if how == 2 {
                            ops.push(Capacity(Some(g.r.below(200) as u32)));
                        }
                        for _ in 0..times {
                            ops.push(match how {
                                0 => Load(g.r.usize(NMAPS), PATHS.len() - 1),
                                1 => Load(g.r.usize(NMAPS), PATHS.len() - 2),
                                _ => Save(0, g.r.usize(2)),
                            });
                        }
                    }
                    if k == C07 || g.r.p(0.5) {
                        ops.push(Heal);
                        for p in 0..g.paths.min(2) {
                            let m = g.map();
                            ops.push(Dump(m));
                            ops.push(Save(m, p));
                            ops.push(Load((m + 1) % NMAPS, p));
                        }
                    }
                    if k == C04 && g.r.p(0.4) {
                        let s = g.r.u64();
                        ops.push(Power(s));
                    }
                    let mut x = inc(e(g), ops);
                    if burst {
                        x.damage.push(if g.r.p(0.5) { Damage::Foreign(PATHS.len() - 1, g.r.below(40) as u8) } else { Damage::Empty(PATHS.len() - 1) });
                    }
                    incs.push(x);
                }
                // the last process sees no faults at all
                let mut ops = vec![];
                for p in 0..g.paths {
                    ops.push(Load(p % NMAPS, p));
                }
                let (x, y) = g.pos();
                ops.extend([Set(0, x, y, 7), Dump(0), Save(0, 0), Load(1, 0)]);
                incs.push(inc(e(g), ops));
            }
            C05 => {
                let n = 1 + g.r.below(3) as usize;
                for j in 0..n {
                    let mut ops = vec![];
                    if j > 0 {
                        for p in 0..g.paths.min(2) {
                            ops.push(Load(p, p));
                        }
                    }
                    if g.r.p(0.2) {
                        big(g, &mut ops, 80);
                    }
                    let w = Mix { edit: 0.6, rest: vec![("save", 3.0), ("load", 0.3), ("full", 0.2), ("heal", 0.3)] };
                    let n = 4 + g_len(g.r);
                    ops.extend(self.history(g, n, &mut hist, &w));
                    cycles(g, &mut ops, 0.015, 0.0);
                    let m = g.map();
                    let p = g.path();
                    ops.extend([Dump(m), Save(m, p)]);
                    if g.r.p(0.3) {
                        ops.push(if g.r.p(0.5) { Kill } else { Power(g.r.u64()) });
                    }
                    incs.push(inc(e(g), ops));
                }
                let mut ops = vec![];
                for p in 0..g.paths {
                    ops.push(Load(p % NMAPS, p));
                }
                incs.push(inc(e(g), ops));
            }
            C06 => {
                let w = Mix { edit: 0.75, rest: vec![("save", 1.0)] };
                let n = 3 + g_len(g.r);
                let mut ops = self.history(g, n, &mut hist, &w);
                if g.r.p(0.1) {
                    big(g, &mut ops, 30);
                }
                for p in 0..2 {
                    let m = g.map();
                    let (x, y) = g.pos();
                    ops.extend([Set(m, x, y, 5), Dump(m), Save(m, p)]);
                }
                incs.push(inc(e(g), ops));
                for _ in 0..1 + g.r.below(2) {
                    let mut dm = vec![];
                    for _ in 0..1 + g.r.geo(0.7, 6) {
                        dm.push(gen_damage(g.r));
                    }
                    let mut ops = vec![];
                    for p in 0..2 {
                        ops.push(Load(p, p));
                    }
                    let w = Mix { edit: 0.75, rest: vec![("dump", 0.5), ("save", 0.5), ("load", 0.7), ("probe", 1.0), ("twin", 0.4), ("stream", 0.2), ("parse", 0.2)] };
                    let mut h2 = hist.clone();
                    for &(a, b) in g.xs.clone().iter() {
                        for m in 0..2 {
                            h2.push((m, a * 16 + g.r.range(0, 15) as i32, b * 16 + g.r.range(0, 15) as i32));
                        }
                    }
                    for x in h2.iter_mut() {
                        x.0 %= 2;
                    }
                    let m0 = g.maps;
                    g.maps = 2;
                    let n = 20 + g_len(g.r);
                    ops.extend(self.history(g, n, &mut h2, &w));
                    g.maps = m0;
                    for m in 0..2 {
                        ops.extend([Dump(m), Save(m, 3 + (m & 1)), Load(m, 3 + (m & 1))]);
                    }
                    let mut en = e(g);
                    en.mem_limit = 64 << 20;
                    let mut x = inc(en, ops);
                    x.damage = dm;
                    incs.push(x);
                }
            }
            C14 => {
                let n = 1 + g.r.below(3) as usize;
                g.xs.retain(|p| p.0.abs() < 5000 && p.1.abs() < 5000);
                g.xs.push((0, 0));
                for j in 0..n {
                    let w = Mix { edit: 0.7, rest: vec![("twin", 2.0), ("save", 0.5), ("load", 0.7), ("stream", 0.2), ("parse", 0.4), ("probe", 0.5), ("panic", 0.2), ("drain", 0.2), ("full", 0.1), ("heal", 0.2)] };
                    let mut ops = vec![];
                    if j > 0 {
                        for p in 0..g.paths.min(2) {
                            let m = g.map();
                            ops.push(Load(m, p));
                        }
                    }
                    if g.r.p(0.05) {
                        big(g, &mut ops, 30);
                    }
                    ops.extend(self.history(g, len.min(80) / n + 5, &mut hist, &w));
                    for m in 0..g.maps {
                        let s = g.r.u64();
                        ops.push(Twin(m, s));
                    }
                    incs.push(inc(e(g), ops));
                }
            }
            C16 => {
                let w = Mix { edit: 0.7, rest: vec![("dump", 1.0), ("save", 1.0), ("load", 1.0), ("stream", 0.3), ("parse", 0.3)] };
                let mut dm = vec![];
                let mut ops = vec![];
                for p in 0..1 + g.r.usize(3) {
                    let k = if idx < crate::golden::COUNT as u64 && p == 0 { idx as u16 } else { g.r.below(crate::golden::COUNT as u64) as u16 };
                    dm.push(Damage::Golden(p, k));
                    ops.push(Load(p % NMAPS, p));
                    for &c in crate::golden::get(k).chunks().iter().take(3) {
                        hist.push((p, c.0 * 16 + 3, c.1 * 16 + 5));
                    }
                }
                ops.extend(self.history(g, 2 + len.min(20), &mut hist, &w));
                let mut x = inc(e(g), ops);
                x.damage = dm;
                incs.push(x);
                if g.r.p(0.4) {
                    let mut ops = vec![];
                    for p in 0..3 {
                        ops.push(Load(p, p));
                    }
                    incs.push(inc(e(g), ops));
                }
            }
        }
        let mut c = Case { incs };
        if g.r.p(0.4) {
            // a restarted process may get the id of the one that died
            let pid = c.incs[0].env.pid;
            for i in &mut c.incs {
                i.env.pid = pid;
            }
        }
        let plain = match k {
            C01 | C02 | C14 => g.r.p(0.25),
            _ => g.r.p(0.08),
        };
        if plain {
            return c;
        }
        let rep = dry(&c);
        let r = &mut *g.r;
        let last = c.incs.len() - 1;
        for (j, rp) in rep.iter().enumerate() {
            let inc = &mut c.incs[j];
            let sl = |o: &Op| matches!(o, Save(..) | Load(..) | Cycle(..));
            let sv = |o: &Op| matches!(o, Save(..) | Cycle(..));
            match k {
                C01 | C02 | C14 => {
                    let nb = r.usize(4);
                    benign(r, inc, rp, nb);
                    if r.p(0.5) {
                        for _ in 0..1 + r.usize(3) {
                            hard(r, inc, rp, sl);
                        }
                    }
                    let any = ops_like(inc, |o| matches!(o, PanicProbe(..)));
                    for o in any {
                        if let Some(n) = inside(r, rp, o, USER) {
                            if r.p(0.7) {
                                inc.plan.push(Point { t: 0, c: USER, n, a: Act::Panic });
                            }
                        }
                    }
                    if j < last && r.p(0.7) {
                        if r.p(0.6) {
                            crash(r, inc, rp, false, sv);
                        } else {
                            crash(r, inc, rp, false, |_| true);
                        }
                    }
                }
                C03 | C16 => {
                    let nb = 1 + r.usize(8);
                    benign(r, inc, rp, nb)
                }
                C04 => {
                    if j < last {
                        let nb = r.usize(3);
                        benign(r, inc, rp, nb);
                        for _ in 0..1 + r.usize(3) {
                            hard(r, inc, rp, sl);
                        }
                    }
                }
                C07 => {
                    if j < last {
                        for _ in 0..1 + r.usize(4) {
                            hard(r, inc, rp, sl);
                        }
                        if r.p(0.5) {
                            let pw = r.p(0.4);
                            crash(r, inc, rp, pw, sl);
                        }
                    }
                }
                C05 => {
                    if j < last {
                        let nb = r.usize(2);
                        benign(r, inc, rp, nb);
                        if r.p(0.3) {
                            hard(r, inc, rp, sv);
                        }
                        if !inc.ops.iter().any(|o| matches!(o, Kill | Power(_))) || r.p(0.5) {
                            let pw = r.p(0.5);
                            crash(r, inc, rp, pw, sv);
                        }
                    }
                }
                C06 => {
                    let nb = r.usize(3);
                    benign(r, inc, rp, nb)
                }
            }
        }
        if matches!(k, C01 | C04 | C05 | C07) {
            let uni = universe(&c);
            for j in 0..last {
                for _ in 0..3 {
                    if r.p(0.4) {
                        let img = if j == 0 { Image::new() } else { rep[j - 1].image.clone() };
                        follow(r, &mut c.incs[j], &uni, &img, k != C04, true);
                    }
                }
            }
        }
        // Heal cancels what is planned after it: drop those points so that the case says what happens
        for (j, rp) in rep.iter().enumerate() {
            let inc = &mut c.incs[j];
            if matches!(k, C07 | C04) {
                if let Some(h) = inc.ops.iter().rposition(|o| *o == Heal) {
                    if let Some(o) = rp.obs.get(h) {
                        let b: Vec<u64> = (0..5).map(|x| o["b"][x].as_u64().unwrap()).collect();
                        inc.plan.retain(|p| p.n <= b[p.c] || matches!(p.a, Act::Kill | Act::KillMid(_) | Act::Power(_) | Act::PowerMid(..) | Act::Eintr | Act::Short(_)));
                    }
                }
            }
        }
        c
    }
    fn run(&self, c: &Case, s: &mut Stats) -> Outcome {
        execute(c, self.check(), s)
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut out = vec![];
        // drop whole processes
        if c.incs.len() > 1 {
            for v in shorter(&c.incs) {
                if !v.is_empty() {
                    out.push(Case { incs: v });
                }
            }
        }
        for j in 0..c.incs.len() {
            let mut put = |f: &dyn Fn(&mut Inc)| {
                let mut x = c.clone();
                f(&mut x.incs[j]);
                out.push(x);
            };
            for v in shorter(&c.incs[j].plan) {
                put(&|i| i.plan = v.clone());
            }
            for v in shorter(&c.incs[j].damage) {
                put(&|i| i.damage = v.clone());
            }
            for v in shorter(&c.incs[j].ops) {
                put(&|i| i.ops = v.clone());
            }
            for k in 0..c.incs[j].plan.len() {
                let n = c.incs[j].plan[k].n;
                for m in [1, n / 2, n.saturating_sub(1)] {
                    if m > 0 && m < n {
                        put(&|i| i.plan[k].n = m);
                    }
                }
            }
            for k in 0..c.incs[j].ops.len() {
                match c.incs[j].ops[k] {
                    Fill(m, x, y, w, h, v) => {
                        put(&|i| i.ops[k] = Set(m, x, y, v));
                        if w > 1 || h > 1 {
                            put(&|i| i.ops[k] = Fill(m, x, y, w.div_ceil(2), h.div_ceil(2), v));
                        }
                    }
                    Cycle(m, x, y, p, n) => {
                        for d in [2, 8, 64] {
                            if n > d {
                                put(&|i| i.ops[k] = Cycle(m, x, y, p, n - n / d));
                            }
                        }
                        if n > 1 {
                            put(&|i| i.ops[k] = Cycle(m, x, y, p, n - 1));
                        }
                    }
                    Scatter(m, x, y, n, v) => {
                        put(&|i| i.ops[k] = Set(m, x, y, v.max(1)));
                        for d in [8, 2] {
                            if n > d {
                                put(&|i| i.ops[k] = Scatter(m, x, y, n - n / d, v));
                            }
                        }
                        if n > 1 {
                            put(&|i| i.ops[k] = Scatter(m, x, y, n - 1, v));
                        }
                    }
                    Erase(m, x, y, w, h) => {
                        put(&|i| i.ops[k] = Remove(m, x, y));
                        if w > 1 || h > 1 {
                            put(&|i| i.ops[k] = Erase(m, x, y, w.div_ceil(2), h.div_ceil(2)));
                            put(&|i| i.ops[k] = Erase(m, x, y, w, h.div_ceil(2)));
                            put(&|i| i.ops[k] = Erase(m, x, y, w.div_ceil(2), h));
                        }
                    }
                    Set(m, x, y, v) => {
                        if m != 0 {
                            put(&|i| i.ops[k] = Set(0, x, y, v));
                        }
                        if v != 1 && v != 0 {
                            put(&|i| i.ops[k] = Set(m, x, y, 1));
                        }
                    }
                    _ => {}
                }
            }
            let d = Env { budget: c.incs[j].env.budget, mem_limit: c.incs[j].env.mem_limit, ..Default::default() };
            let e = &c.incs[j].env;
            if e.max_io != d.max_io || e.log_level != 0 || e.fmt || e.pid != d.pid || e.seed != d.seed {
                put(&|i| i.env = d.clone());
                put(&|i| i.env.max_io = usize::MAX);
                put(&|i| i.env.log_level = 0);
            }
        }
        out
    }
}
fn g_len(r: &mut Rng) -> usize {
    r.geo(8.0, 40) as usize
}
/// a process that saves and loads very often
fn cycles(g: &mut Gen, ops: &mut Vec<Op>, many: f64, most: f64) {
    let n = if g.r.p(most) { 65_600 } else if g.r.p(many) { 260 } else { return };
    let (m, p) = (g.map(), g.path());
    let (x, y) = g.pos();
    let n = n + g.r.geo(20.0, 200) as u32;
    let at = g.r.usize(ops.len() + 1);
    ops.splice(at..at, [New(m), Cycle(m, x, y, p, n)]);
}
fn gen_damage(r: &mut Rng) -> Damage {
    let p = r.usize(2);
    let f = r.u64() as u32;
    match r.below(24) {
        0 | 1 => Damage::Truncate(p, f),
        2..=4 => Damage::Flip(p, f, r.below(8) as u8),
        5..=8 => Damage::Digit(p, f, r.below(10) as u8),
        9 => Damage::Byte(p, f, *r.pick(&[0u8, 0xff, b' ', b'"', b'[', b']', b'{', b'}', b',', b':', b'-', b'e', b'.', b'9'])),
        10 => Damage::Zero(p, f, 1 + r.geo(300.0, 4096) as u32),
        11 | 12 => Damage::Delete(p, f, 1 + r.geo(20.0, 4096) as u32),
        13 | 14 => Damage::Dup(p, f, 1 + r.geo(20.0, 4096) as u32),
        15 => Damage::Swap(p, f, r.u64() as u32, 1 + r.geo(4.0, 512) as u32),
        16 => Damage::Foreign(p, r.below(40) as u8),
        17 => Damage::Splice(p, 1 - p, f),
        18 => Damage::Empty(p),
        _ => Damage::Number(p, f, *r.pick(&[0i64, 1, -1, 2, 15, 17, 32, 255, 256, 257, 65536, 2147483647, 2147483648, -2147483648, 4294967296, 9007199254740993, i64::MAX, i64::MIN])),
    }
}
#[allow(dead_code)]
fn _unused() {
    let _ = (CLS, MEM, ALLOC);
    fn f<T: Publisher<u8>>() {}
    f::<auburn::utils::publisher::Ledger<u8>>();
}
