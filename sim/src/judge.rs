//! The properties of queries, publishers and shared maps: case generation and judgement of the programs in world.rs.
use crate::campaign::{bad_end, shorter, viol, Outcome, Plan, Scenario, Stats, Violation};
use crate::rng::{hash_str, mix, Rng};
use crate::rt::{Act, Env, Point as PP, Report, ALLOC, IO, LOG, MEM, SYNC, USER};
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    C08,
    C09,
    C10,
    C11,
    C12,
    C13,
    C15,
}
use Kind::*;
pub struct Prog(pub Kind);

// ------------------------------------------------------------------ generation
fn fb(x: f32) -> u32 {
    x.to_bits()
}
fn coord(r: &mut Rng) -> f32 {
    match r.below(10) {
        0..=4 => r.range(-8, 8) as f32 * 0.5,
        5..=7 => (r.f() as f32 - 0.5) * 8.0,
        8 => (r.f() as f32 - 0.5) * 0.2,
        _ => *r.pick(&[0.0f32, -0.0, 1.0e-6, 1.0, 2.0, -2.0, 3.0, 100.0, -1000.0, 1.0e-40]),
    }
}
fn size(r: &mut Rng) -> f32 {
    if r.p(0.6) { *r.pick(&[0.5f32, 1.0, 1.0, 1.0, 1.5, 2.0, 3.0]) } else { 0.05 + r.f() as f32 * 3.0 }
}
fn poly(r: &mut Rng) -> Vec<B2> {
    let n = 3 + r.geo(2.5, 30) as usize;
    if r.p(0.3) {
        let (x, y) = (size(r), size(r));
        return [(-x, -y), (x, y), (-x, y), (x, -y)].iter().map(|p| (fb(p.0), fb(p.1))).collect();
    }
    let s = size(r);
    let reg = r.p(0.5);
    let mut a = if r.p(0.5) { 0.0 } else { r.f() as f32 };
    (0..n)
        .map(|_| {
            let m = if reg { s } else { s * (0.7 + 0.5 * r.f() as f32) };
            let p = (fb(m * a.cos()), fb(m * a.sin()));
            a += std::f32::consts::TAU / n as f32;
            p
        })
        .collect()
}
fn shape(r: &mut Rng, k: &str) -> Sh {
    match k {
        "p" => Sh::Point,
        "a" => Sh::Ball(fb(size(r))),
        "r" => Sh::Rect(fb(size(r)), fb(size(r))),
        "y" => Sh::Poly(poly(r)),
        x => {
            let i = *r.pick(&["a", "r", "y"]);
            let b = Box::new(shape(r, i));
            if x == "s" { Sh::S2(b) } else { Sh::User(b) }
        }
    }
}
fn trf(r: &mut Rng, near: bool) -> Tr {
    let ang = match r.below(6) {
        0 | 1 => 0.0,
        2 => std::f32::consts::FRAC_PI_4 * r.range(-4, 4) as f32,
        3 => std::f32::consts::PI / 6.0 * r.range(-6, 6) as f32,
        _ => r.f() as f32 * 6.3,
    };
    let sc = |r: &mut Rng| match r.below(4) {
        0 => 0.25 + r.f() as f32 * 2.0,
        _ => 1.0,
    };
    let sx = sc(r);
    let sy = if r.p(0.8) { sx } else { sc(r) };
    let k = if near { 0.4 } else { 1.0 };
    Tr { pos: (fb(coord(r) * k), fb(coord(r) * k)), ang: fb(ang), scale: (fb(sx), fb(sy)) }
}
fn gen_pair(r: &mut Rng, user: bool) -> Q {
    let (x, y) = loop {
        let p = PAIRS[r.usize(PAIRS.len())];
        let m = p.0 == "u" || p.1 == "u";
        // shapes that go through the iterative solver more often
        let direct = matches!(p, ("a", "a") | ("a", "p") | ("r", "a") | ("r", "p") | ("p", "p") | ("p", "r") | ("p", "a"));
        if user && !m && r.p(0.75) || !user && m && r.p(0.4) || direct && r.p(0.5) {
            continue;
        }
        break p;
    };
    let near = r.p(0.5);
    let sdf = matches!((x, y), ("a", "a") | ("a", "p") | ("r", "a") | ("r", "p") | ("p", "p"));
    let kind = if sdf && r.p(0.25) { 4 } else { r.below(4) as u8 };
    let tk = match r.below(18) {
        0 | 1 => 0,
        2 | 3 => 1,
        4 | 5 => 2,
        6..=9 => 4,
        10 | 11 => 5,
        12 => 6,
        _ => 3,
    };
    let (a, b) = (shape(r, x), shape(r, y));
    let (ta, mut tb) = (trf(r, near), trf(r, near));
    if r.p(0.05) {
        tb.pos = ta.pos;
    }
    Q::Pair { a, b, ta, tb, tk, kind, rel: r.p(0.4) }
}
fn gen_q(r: &mut Rng, user: bool) -> Q {
    // most queries come from a fixed pool, so that their answers in a fresh process are found once per worker
    if r.p(0.65) {
        let k = r.below(160);
        let mut q = Rng::new(mix(k ^ 0x706f_6f6c));
        return gen_raw(&mut q, k % 2 == 0);
    }
    gen_raw(r, user)
}
fn gen_raw(r: &mut Rng, user: bool) -> Q {
    if r.p(0.08) {
        let mut tiles = vec![];
        for _ in 0..1 + r.geo(12.0, 60) {
            tiles.push((r.range(-20, 20) as i32, r.range(-20, 20) as i32, 1 + r.below(9) as u8));
        }
        let t = *r.pick(&tiles);
        return Q::Map { tiles, at: (fb(t.0 as f32 + r.f() as f32 - 0.5), fb(t.1 as f32 + r.f() as f32 - 0.5)), seed: r.u64() as u32 };
    }
    if r.p(0.2) {
        return gen_one(r, user);
    }
    if r.p(0.03) {
        // down to numbers that are only there with gradual underflow
        return odd_pair(r);
    }
    gen_pair(r, user)
}
fn gen_one(r: &mut Rng, user: bool) -> Q {
    let k = if user { *r.pick(&["u", "u", "y", "r", "a"]) } else { *r.pick(&["p", "a", "r", "y", "y", "s", "s"]) };
    let a = shape(r, k);
    // directions in which several points are equally far
    let dir = match r.below(5) {
        0 | 1 => *r.pick(&[(1.0f32, 0.0f32), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0), (1.0, 1.0), (-1.0, 1.0), (0.0, 0.0), (-0.0, 2.0)]),
        2 => {
            let x = coord(r);
            if r.p(0.5) { (x, 0.0) } else { (0.0, x) }
        }
        _ => (coord(r), coord(r)),
    };
    let near = r.p(0.5);
    Q::One { a, ta: trf(r, near), tb: trf(r, near), tk: r.below(7) as u8, what: *r.pick(&[0, 0, 0, 1, 1, 1, 2, 3, 4]), dir: (fb(dir.0), fb(dir.1)) }
}
/// a finite shape that is degenerate or extreme
fn odd_pair(r: &mut Rng) -> Q {
    let mut q = gen_pair(r, true);
    if let Q::Pair { a, b, ta, tb, .. } = &mut q {
        let odd = |r: &mut Rng| *r.pick(&[0.0f32, -0.0, 1.0e-30, 1.0e-40, 1.0e10, 1.0e19, 1.0e30, 3.0e38, -1.0, 1.0, 1.0e-6]);
        for s in [a, b] {
            let i = match s {
                Sh::S2(i) | Sh::User(i) => &mut **i,
                x => x,
            };
            if r.p(0.4) {
                match i {
                    Sh::Ball(x) => *x = fb(odd(r)),
                    Sh::Rect(x, y) => {
                        *x = fb(odd(r));
                        *y = fb(odd(r));
                    }
                    Sh::Poly(p) => match r.below(5) {
                        0 => p.clear(),
                        1 => p.truncate(1),
                        2 => p.truncate(2),
                        3 => p.iter_mut().for_each(|x| x.1 = fb(0.0)),
                        _ => p.iter_mut().for_each(|x| *x = (fb(odd(r)), fb(odd(r)))),
                    },
                    _ => {}
                }
            }
        }
        for t in [ta, tb] {
            if r.p(0.25) {
                t.pos = (fb(odd(r)), fb(odd(r)));
            }
        }
    }
    q
}
fn env(r: &mut Rng) -> Env {
    let log_level = if r.p(0.5) { 0 } else { r.below(6) as u8 };
    Env { seed: r.u64(), log_level, pid: 2 + r.below(30000) as i32, fmt: r.p(0.2), budget: 400_000_000, mem_limit: 256 << 20, ..Default::default() }
}
/// changes one of the numbers of a query a little
fn nudge(r: &mut Rng, q: &mut Q) {
    fn of<'a>(s: &'a mut Sh, v: &mut Vec<&'a mut u32>) {
        match s {
            Sh::Point => {}
            Sh::Ball(x) => v.push(x),
            Sh::Rect(x, y) => v.extend([x, y]),
            Sh::Poly(p) => v.extend(p.iter_mut().flat_map(|p| [&mut p.0, &mut p.1])),
            Sh::S2(i) | Sh::User(i) => of(i, v),
        }
    }
    fn at<'a>(t: &'a mut Tr, v: &mut Vec<&'a mut u32>) {
        v.extend([&mut t.pos.0, &mut t.pos.1, &mut t.ang, &mut t.scale.0, &mut t.scale.1]);
    }
    let mut v = vec![];
    match q {
        Q::Pair { a, b, ta, tb, .. } => {
            if r.p(0.4) {
                of(a, &mut v);
                of(b, &mut v);
            }
            at(ta, &mut v);
            at(tb, &mut v);
        }
        Q::One { a, ta, tb, dir, .. } => {
            of(a, &mut v);
            at(ta, &mut v);
            at(tb, &mut v);
            v.extend([&mut dir.0, &mut dir.1]);
        }
        Q::Map { at, seed, .. } => {
            v.extend([&mut at.0, &mut at.1]);
            *seed ^= r.below(2) as u32;
        }
    }
    let k = r.usize(v.len());
    let x = f32::from_bits(*v[k]);
    let e = 10f32.powf(-7.0 * r.f() as f32) * if r.p(0.5) { 1.0 } else { -1.0 };
    let y = match r.below(6) {
        0 | 1 => x * (1.0 + e * 0.5),
        2 => x + e * 0.1,
        3 => f32::from_bits(*v[k] ^ 1),
        4 => -x,
        _ => x + std::f32::consts::TAU * if r.p(0.5) { 1.0 } else { -1.0 },
    };
    // sizes stay positive
    *v[k] = fb(if y.is_finite() && (y > 0.0 || x <= 0.0 || r.p(0.5)) { y } else { x });
}
fn dry(c: &WCase) -> Report {
    run_case(c, &c.env, &[])
}
fn at(r: &mut Rng, rep: &Report, t: usize, c: usize) -> Option<u64> {
    let n = rep.counts.get(t)?[c];
    if n == 0 { None } else { Some(1 + r.below(n)) }
}
/// planned preemptions: at arbitrary memory accesses, allocations, system calls, log and user calls
fn preempt(r: &mut Rng, rep: &Report, nt: usize, k: u64, plan: &mut Vec<PP>) {
    // every call as likely as any other, however short it is
    let mut calls: Vec<Vec<(u64, u64)>> = vec![vec![]; nt];
    for o in &rep.obs {
        if let (Some(t), Some(m)) = (o.get("t"), o.get("m")) {
            let n = u(&o["c"][1]);
            if n > 0 && o["r"] != "barrier" {
                calls[u(t) as usize].push((u(m), n));
            }
        }
    }
    for _ in 0..k {
        let t = r.usize(nt);
        let c = *r.pick(&[MEM, MEM, MEM, MEM, MEM, MEM, ALLOC, IO, LOG, USER]);
        let c = if r.p(0.3) && rep.counts.get(t).is_some_and(|c| c[SYNC] > 0) { SYNC } else { c };
        let n = if c == MEM && !calls[t].is_empty() && r.p(0.6) {
            let (m, n) = *r.pick(&calls[t]);
            Some(m + 1 + r.below(n))
        } else {
            at(r, rep, t, c)
        };
        if let Some(n) = n {
            for j in 0..if r.p(0.2) { 4 } else { 1 } {
                plan.push(PP { t, c, n: n + j * r.below(40), a: Act::Switch(r.u64() as u32) });
            }
        }
    }
}
/// the calls of user code and of the logger, one of which panics / nests / lies
fn user_acts(r: &mut Rng, rep: &Report, nt: usize, k: u64, plan: &mut Vec<PP>, mut act: impl FnMut(&mut Rng, usize) -> Option<Act>) {
    for _ in 0..k {
        let t = r.usize(nt);
        let c = if r.p(0.75) { USER } else { LOG };
        // any operation that calls user code as likely as any other
        let ops: Vec<(u64, u64)> = if c == USER && r.p(0.5) {
            rep.obs.iter().filter(|o| o["t"] == t && o["u"][1].as_u64() > Some(0)).map(|o| (u(&o["u"][0]), u(&o["u"][1]))).collect()
        } else {
            vec![]
        };
        let n = if ops.is_empty() {
            at(r, rep, t, c)
        } else {
            let (n, k) = *r.pick(&ops);
            Some(n + 1 + r.below(k))
        };
        if let (Some(n), Some(a)) = (n, act(r, c)) {
            plan.push(PP { t, c, n, a });
        }
    }
}
/// Forwarding subscribers multiply: turn them into plain ones until a program makes at most 15000 deliveries.
fn tame(c: &mut WCase) {
    loop {
        let mut kinds = [[0f64; 4]; NPUB + 1];
        let mut notes = [0f64; NPUB + 1];
        for o in c.threads.iter().flatten() {
            match *o {
                WOp::Attach(p, k) => kinds[p as usize][k as usize % 4] += 1.0,
                WOp::Note(p, _) => notes[p as usize] += 1.0,
                WOp::Bulk(2, p, _, n) => notes[p as usize] += n as f64,
                _ => {}
            }
        }
        let mut d = [0f64; NPUB + 1];
        for p in (0..NPUB).rev() {
            let k = kinds[p];
            let next = if p % 4 == 3 { 0.0 } else { d[p + 1] };
            d[p] = k.iter().sum::<f64>() + 8.0 * k[2] + (k[1] + 2.0 * k[3]) * next;
        }
        let total: f64 = (0..NPUB).map(|p| notes[p] * (1.0 + d[p])).sum();
        if total <= 15000.0 {
            return;
        }
        let find = |f: &dyn Fn(&WOp) -> bool| c.threads.iter().enumerate().rev().find_map(|(t, v)| v.iter().rposition(|o| f(o)).map(|k| (t, k)));
        if let Some((t, k)) = find(&|o| matches!(o, WOp::Attach(_, 1..))) {
            if let WOp::Attach(_, x) = &mut c.threads[t][k] {
                *x = 0;
            }
        } else if let Some((t, k)) = find(&|o| matches!(o, WOp::Bulk(..) | WOp::Attach(..))) {
            c.threads[t].remove(k);
        } else {
            return;
        }
    }
}
fn map_ops(r: &mut Rng, m: u8, path: &[u8], hist: &mut Vec<(i32, i32)>) -> WOp {
    let pos = |r: &mut Rng, hist: &mut Vec<(i32, i32)>| {
        if !hist.is_empty() && r.p(0.7) {
            let p = *r.pick(hist);
            return if r.p(0.4) { (p.0 + r.range(-1, 1) as i32, p.1 + r.range(-1, 1) as i32) } else { p };
        }
        let p = (r.range(-24, 24) as i32, r.range(-24, 24) as i32);
        hist.push(p);
        p
    };
    let (x, y) = pos(r, hist);
    let p = *r.pick(path);
    match r.below(20) {
        0..=5 => WOp::Set(m, x, y, r.below(9) as u8),
        6 | 7 => WOp::Rem(m, x, y),
        8 | 9 => WOp::Get(m, x, y),
        10 | 11 => WOp::Dump(m),
        12 | 13 => WOp::Ans(m, fb(x as f32 + r.f() as f32 - 0.5), fb(y as f32 + r.f() as f32 - 0.5), r.u64() as u32),
        14 => WOp::UProbe(m, x, y),
        15 => WOp::Events(m),
        16 => WOp::Save(m, p),
        17 => WOp::Load(m, p),
        18 => WOp::Peek(p),
        _ => WOp::Stream(m),
    }
}
/// operations on things that only thread t uses
fn own_op(r: &mut Rng, t: usize, nq: u16, hist: &mut Vec<(i32, i32)>) -> WOp {
    let tt = t as u8;
    match r.below(20) {
        0..=7 => WOp::Q(r.below(nq as u64) as u16, r.p(0.5)),
        8..=13 => map_ops(r, tt, &[tt, tt], hist),
        14 => WOp::Attach(tt * 4 + r.below(4) as u8, r.below(4) as u8),
        15 | 16 => WOp::Note(tt * 4 + r.below(4) as u8, r.below(1000) as u32),
        17 => {
            if r.p(0.75) {
                WOp::LNote(tt, r.below(50) as u32)
            } else {
                WOp::LDrain(tt, r.below(6) as u8)
            }
        }
        _ => {
            if r.p(0.8) {
                WOp::SNote(tt, r.below(20) as u32)
            } else {
                WOp::SDrain(tt, r.below(5) as u8)
            }
        }
    }
}
impl Prog {
    fn gen_case(&self, r: &mut Rng, idx: u64, thorough: bool) -> WCase {
        let deep = if thorough { 3 } else { 1 };
        let mut c = WCase { env: env(r), qs: vec![], threads: vec![], plan: vec![], hash: r.below(3) as u8 };
        match self.0 {
            C08 => {
                let nt = if r.p(0.3) { 2 } else { 1 };
                for _ in 0..2 + r.below(5) {
                    let u = r.p(0.4);
                    c.qs.push(gen_q(r, u));
                }
                for t in 0..nt {
                    let mut hist = vec![];
                    let n = 6 + r.geo(20.0, 100);
                    let nq = c.qs.len() as u16;
                    c.threads.push((0..n).map(|_| own_op(r, t, nq, &mut hist)).collect());
                }
                c.env.log_level = r.below(6) as u8;
                c.env.fmt = r.p(0.5);
                c.env.vars = if r.p(0.7) { r.u64() | 1 } else { 0 };
                c.env.console = *r.pick(&[0, 0, libc::EPIPE, libc::EBADF, libc::EIO, libc::ENOSPC, libc::EAGAIN]);
                if r.p(0.8) {
                    let rep = dry(&c);
                    for _ in 0..r.below(6) {
                        let t = r.usize(nt);
                        let cl = *r.pick(&[LOG, LOG, IO, ALLOC, USER, USER]);
                        if let Some(n) = at(r, &rep, t, cl) {
                            let a = if cl == LOG && r.p(0.6) { if r.p(0.3) { Act::Nest(r.u64() as u32) } else { Act::Lie(r.below(99) as u32) } } else { Act::Delay(1u64 << r.below(50)) };
                            c.plan.push(PP { t, c: cl, n, a });
                        }
                    }
                    if nt > 1 {
                        preempt(r, &rep, nt, 6, &mut c.plan);
                    }
                }
            }
            C09 => {
                let nt = 1 + r.below(4) as usize;
                let nq = 2 + r.geo(4.0, 20);
                for _ in 0..nq {
                    let u = r.p(0.4);
                    c.qs.push(gen_q(r, u));
                }
                // the same shapes in other places, other shapes in the same place
                for _ in 0..r.below(4) {
                    let k = r.usize(c.qs.len());
                    let l = r.usize(c.qs.len());
                    let mut q = c.qs[k].clone();
                    if let (Q::Pair { tb, kind, a, b, .. }, Q::Pair { tb: t2, kind: k2, .. }) = (&mut q, &c.qs[l]) {
                        *tb = *t2;
                        if *kind != 4 && *k2 != 4 {
                            *kind = *k2;
                        }
                        if r.p(0.3) {
                            for s in [a, b] {
                                if let Sh::Rect(x, _) = s {
                                    *x = fb(size(r));
                                }
                                if let Sh::Poly(p) = s {
                                    if !p.is_empty() {
                                        let i = r.usize(p.len());
                                        p.swap(0, i);
                                    }
                                }
                            }
                        }
                    }
                    if let Q::One { dir, what, .. } = &mut q {
                        if let Q::One { dir: d, .. } = gen_one(r, false) {
                            *dir = d;
                            *what = r.below(2) as u8;
                        }
                    }
                    c.qs.push(q);
                }
                // nearly the same query
                for _ in 0..if r.p(0.5) { 1 + r.below(3) } else { 0 } {
                    let k = r.usize(c.qs.len());
                    let mut q = c.qs[k].clone();
                    for _ in 0..1 + r.geo(0.5, 4) {
                        nudge(r, &mut q);
                    }
                    c.qs.push(q);
                }
                let nq = c.qs.len() as u64;
                let long = r.p(0.08);
                for _ in 0..nt {
                    let n = if long { 300 + r.below(1500) } else { 3 + r.geo(25.0, 200) };
                    let mut v: Vec<WOp> = (0..n).map(|_| WOp::Q(r.below(nq) as u16, r.p(0.5))).collect();
                    if r.p(0.05) {
                        let k = r.below(nq) as u16;
                        let cheap = matches!(&c.qs[k as usize], Q::Pair { a, b, .. } if matches!(a, Sh::Point | Sh::Ball(_)) && matches!(b, Sh::Point | Sh::Ball(_)));
                        // the longest pass the wrap of a 16-bit counter
                        let n = (if cheap { r.below(75000) } else if r.p(0.03) { 65_000 + r.below(2000) } else { r.below(3000) }) as u32 * deep;
                        let at = r.usize(v.len());
                        v.insert(at, WOp::Rep(k, n + 2));
                    }
                    c.threads.push(v);
                }
                if long || idx % 7 == 0 {
                    c.env.log_level = 0;
                }
                let rep = dry(&c);
                if nt > 1 {
                    let k = 1 + r.geo(12.0, 200);
                    preempt(r, &rep, nt, k, &mut c.plan);
                }
                let k = r.below(6);
                user_acts(r, &rep, nt, k, &mut c.plan, |r, cl| {
                    Some(match r.below(10) {
                        0..=3 => Act::Lie(if cl == USER { NEST } else { 0 } + r.below(nq) as u32),
                        4 | 5 => Act::Nest(r.u64() as u32),
                        6 | 7 if cl == USER => Act::Lie(r.below(LIE_MODES as u64 * 64) as u32),
                        8 => Act::Delay(1 << r.below(40)),
                        _ => Act::Panic,
                    })
                });
            }
            C10 => {
                let nt = 1 + r.below(3) as usize;
                let storm = r.p(0.12);
                for _ in 0..2 + r.below(6) {
                    c.qs.push(gen_q(r, true));
                }
                if r.p(0.4) {
                    c.env.log_level = 5;
                }
                let nq = c.qs.len() as u16;
                for t in 0..nt {
                    let mut hist = vec![];
                    let n = if storm { 60 + r.below(60) } else { 6 + r.geo(18.0, 80) };
                    let mut v: Vec<WOp> = vec![];
                    for p in 0..4 {
                        for _ in 0..r.below(3) {
                            v.push(WOp::Attach(t as u8 * 4 + p, r.below(4) as u8));
                        }
                    }
                    v.extend((0..n).map(|_| if storm && r.p(0.6) { WOp::Q(r.below(nq as u64) as u16, r.p(0.5)) } else { own_op(r, t, nq, &mut hist) }));
                    if r.p(0.15) {
                        // ledgers that grow
                        for _ in 0..10 + r.below(50) {
                            let at = r.usize(v.len() + 1);
                            let k = r.below(200) as u32;
                            v.insert(at, if r.p(0.8) { WOp::SNote(t as u8, k) } else { WOp::LNote(t as u8, k) });
                        }
                    }
                    // a look at everything at the end
                    v.extend([WOp::LDrain(t as u8, 0), WOp::SDrain(t as u8, 0), WOp::Dump(t as u8), WOp::Save(t as u8, t as u8), WOp::Peek(t as u8)]);
                    for p in 0..4 {
                        v.push(WOp::Note(t as u8 * 4 + p, 5000 + p as u32));
                    }
                    for q in 0..nq {
                        v.push(WOp::Q(q, r.p(0.5)));
                    }
                    c.threads.push(v);
                }
                tame(&mut c);
                let rep = dry(&c);
                let k = if storm { 0 } else { 1 + r.geo(1.5, 12) };
                user_acts(r, &rep, nt, k, &mut c.plan, |_, _| Some(Act::Panic));
                if storm {
                    // nearly every call of one kind on one thread ends in a panic, for a long while
                    let t = r.usize(nt);
                    let cl = if r.p(0.85) { USER } else { LOG };
                    let step = 1 + r.geo(3.0, 20);
                    let mut n = 1 + r.below(20);
                    for _ in 0..20 + r.geo(50.0, 300) {
                        c.plan.push(PP { t, c: cl, n, a: Act::Panic });
                        n += 1 + r.below(step);
                    }
                }
                if nt > 1 {
                    let k = r.below(12);
                    preempt(r, &rep, nt, k, &mut c.plan);
                }
                if r.p(0.2) {
                    user_acts(r, &rep, nt, 1, &mut c.plan, |r, cl| Some(if r.p(0.3) { Act::Nest(r.u64() as u32) } else { Act::Lie(if cl == USER { NEST } else { 0 } + r.below(nq as u64) as u32) }));
                }
            }
            C11 => {
                let n = 2 + r.below(6);
                for _ in 0..n {
                    let q = if r.p(0.35) { odd_pair(r) } else { gen_pair(r, true) };
                    c.qs.push(q);
                }
                c.env.mem_limit = 64 << 20;
                c.env.budget = 150_000_000;
                let mut v = vec![];
                for _ in 0..8 + r.geo(25.0, 120) {
                    v.push(WOp::Q(r.below(n) as u16, r.p(0.3)));
                }
                c.threads.push(v);
                let rep = dry(&c);
                let k = 1 + r.geo(8.0, 40);
                for _ in 0..k {
                    if let Some(n) = at(r, &rep, 0, USER) {
                        let a = if r.p(0.06) { Act::Delay(1 << r.below(60)) } else { Act::Lie(r.below(LIE_MODES as u64 * 64) as u32) };
                        c.plan.push(PP { t: 0, c: USER, n, a });
                    }
                }
            }
            C12 => {
                let nt = 1 + r.below(4) as usize;
                for _ in 0..r.below(3) {
                    c.qs.push(gen_pair(r, true));
                }
                let np = 1 + r.below(6);
                let big = r.p(0.03);
                let mut v0 = vec![];
                for p in 0..np {
                    let n = if big { (20.0 * 60f64.powf(r.f())) as u64 } else { r.geo(2.0, 12) };
                    for _ in 0..n {
                        v0.push(WOp::Attach(p as u8, *r.pick(&[0, 0, 0, 0, 4, 4, 1, 2, 3])));
                    }
                }
                for t in 0..nt {
                    let mut v = if t == 0 { std::mem::take(&mut v0) } else { vec![] };
                    if r.p(0.5) {
                        v.push(WOp::Barrier);
                    }
                    for _ in 0..2 + r.geo(15.0, 120) {
                        let p = r.below(np) as u8;
                        v.push(match r.below(40) {
                            0..=4 => WOp::Attach(p, *r.pick(&[0, 0, 0, 4, 1, 2])),
                            5 if !big => WOp::Bulk(2, p, r.below(1000) as u32, 1 + r.geo(20.0, 400) as u32),
                            6 if !big && r.p(0.03) => WOp::Bulk(2, p, r.below(1000) as u32, if r.p(0.2) { 70000 } else { 3000 }),
                            _ => {
                                let n = if r.p(0.3) { 3 } else { 1000 };
                                WOp::Note(p, r.below(n) as u32)
                            }
                        });
                    }
                    c.threads.push(v);
                }
                if c.threads.iter().any(|v| v.contains(&WOp::Barrier)) {
                    for v in &mut c.threads {
                        if !v.contains(&WOp::Barrier) {
                            let at = r.usize(v.len() + 1);
                            v.insert(at, WOp::Barrier);
                        }
                    }
                }
                tame(&mut c);
                if r.p(0.002) {
                    // past the wrap of a 16-bit counter
                    let n = 66000 + r.below(9000) as u32;
                    c.threads[0].extend([WOp::Attach(np as u8, 0), WOp::Bulk(2, np as u8, 0, n), WOp::Note(np as u8, 7)]);
                }
                let rep = dry(&c);
                if r.p(0.6) {
                    let k = 1 + r.geo(1.5, 10);
                    user_acts(r, &rep, nt, k, &mut c.plan, |_, cl| if cl == USER { Some(Act::Panic) } else { None });
                }
                if nt > 1 {
                    let k = 1 + r.geo(10.0, 60);
                    preempt(r, &rep, nt, k, &mut c.plan);
                }
            }
            C13 => {
                let nt = 1 + r.below(4) as usize;
                let nl = 1 + r.below(3);
                let keys = *r.pick(&[3u64, 10, 60, 2000]);
                for _ in 0..nt {
                    let mut v = vec![];
                    let drains = *r.pick(&[0u64, 1, 6]);
                    for _ in 0..3 + r.geo(40.0, 300) {
                        let l = r.below(nl) as u8;
                        let k = r.below(keys) as u32;
                        v.push(match r.below(40) {
                            0..=15 => WOp::LNote(l, k),
                            16..=31 => WOp::SNote(l, k),
                            32 if r.p(0.15) => {
                                let top = if r.p(0.02) { 80000 } else { 6000 };
                                WOp::Bulk(0, l, k, 1 + r.geo(300.0, top) as u32)
                            }
                            33 if r.p(0.15) && c.hash == 0 => WOp::Bulk(1, l, k, 1 + if r.p(0.1) { r.geo(1500.0, 8000) } else { r.geo(60.0, 3000) } as u32),
                            34 | 35 if r.below(8) < drains => WOp::LDrain(l, r.below(6) as u8),
                            36 | 37 if r.below(8) < drains => WOp::SDrain(l, r.below(5) as u8),
                            38 => WOp::LDrain(l, 3),
                            _ => WOp::SDrain(l, 3),
                        });
                    }
                    c.threads.push(v);
                }
                if r.p(0.02) {
                    // one long stretch without draining
                    let n = (60000.0 * 5f64.powf(r.f())) as u32;
                    c.threads[0].push(WOp::Bulk(0, 0, 0, n));
                }
                if r.p(0.01) {
                    // very many distinct events, some of them twice
                    c.hash = 0;
                    let n = (2000.0 * 50f64.powf(r.f())) as u32;
                    let at = r.usize(c.threads[0].len() + 1);
                    c.threads[0].insert(at, WOp::Bulk(1, 0, 0, n));
                    if r.p(0.5) {
                        let n = (2000.0 * 10f64.powf(r.f())) as u32;
                        c.threads[0].push(WOp::Bulk(1, 0, r.below(5000) as u32, n));
                    }
                }
                for l in 0..nl {
                    c.threads[0].extend([WOp::LDrain(l as u8, 3), WOp::SDrain(l as u8, 3)]);
                }
                let rep = dry(&c);
                if r.p(0.6) {
                    let k = 1 + r.geo(1.5, 10);
                    user_acts(r, &rep, nt, k, &mut c.plan, |_, cl| if cl == USER { Some(Act::Panic) } else { None });
                }
                if nt > 1 {
                    let k = 1 + r.geo(10.0, 60);
                    preempt(r, &rep, nt, k, &mut c.plan);
                }
            }
            C15 => self.gen_shared(r, &mut c),
        }
        if c.threads.len() > 1 {
            c.env.handoff = *r.pick(&[0, 32, 128, 256]);
        }
        c.plan.sort_by_key(|p| (p.t, p.c, p.n));
        c
    }
    fn gen_shared(&self, r: &mut Rng, c: &mut WCase) {
        let nt = 2 + r.below(3) as usize;
        // few maps, few places, short calls, many preemptions
        let dense = r.p(0.4);
        // small different maps saved at the same time
        let saving = !dense && r.p(0.35);
        let nm = if dense { 1 } else if saving { 2 + r.below(2) } else { 1 + r.below(3) };
        let mut hist = vec![];
        let mut v0 = vec![];
        for m in 0..nm as u8 {
            for _ in 0..1 + r.geo(if saving { 2.0 } else { 12.0 }, 60) {
                let (x, y) = (r.range(-40, 40) as i32, r.range(-20, 20) as i32);
                hist.push((x, y));
                v0.push(WOp::Set(m, x, y, 1 + r.below(9) as u8));
            }
        }
        v0.push(WOp::Save(0, 8));
        if dense {
            // some of the places are set, some are not, in several chunks
            r.shuffle(&mut hist);
            hist.truncate(1 + r.usize(3));
            for _ in 0..r.below(4) {
                hist.push((r.range(-100, 100) as i32, r.range(-60, 60) as i32));
            }
            if r.p(0.6) {
                // same rows and columns
                hist.truncate(2);
                let (x, y) = hist[0];
                let (dx, dy) = (r.range(-70, 70) as i32, r.range(-70, 70) as i32);
                hist = vec![(x, y), (x + dx, y), (x, y + dy), (x + dx, y + dy)];
            }
        }
        let rounds = 1 + r.below(3);
        let mut th: Vec<Vec<WOp>> = (0..nt).map(|_| vec![]).collect();
        th[0] = v0;
        for _ in 0..rounds {
            for v in &mut th {
                v.push(WOp::Barrier);
            }
            let edits = *r.pick(&[0.0, 0.0, 0.3, 0.5]);
            let saves = if dense { *r.pick(&[0.0, 0.0, 0.0, 0.1]) } else { *r.pick(&[0.0, 0.2, 0.6]) };
            let saves = if saving { 0.85 } else { saves };
            let short = dense && r.p(0.8);
            let same = r.p(0.5);
            for (t, v) in th.iter_mut().enumerate() {
                for _ in 0..1 + r.geo(if saving { 2.5 } else { 8.0 }, 40) {
                    let m = r.below(nm) as u8;
                    let (x, y) = *r.pick(&hist);
                    let (x, y) = if r.p(0.3) { (x + r.range(-1, 1) as i32, y + r.range(-1, 1) as i32) } else { (x, y) };
                    let mine: &[u8] = match t {
                        0 => &[0, 1],
                        1 => &[2, 3],
                        2 => &[4],
                        _ => &[5],
                    };
                    if r.p(saves) {
                        v.push(match r.below(6) {
                            0 if same => WOp::Save(m, 6),
                            1 if same => WOp::Save(m, 7),
                            2 => WOp::Peek(*r.pick(mine)),
                            3 => WOp::Peek(8),
                            _ => WOp::Save(m, *r.pick(mine)),
                        });
                    } else if r.p(edits) {
                        v.push(match r.below(8) {
                            0 | 1 => WOp::Rem(m, x, y),
                            2 => WOp::Events(m),
                            _ => WOp::Set(m, x, y, r.below(9) as u8),
                        });
                    } else {
                        v.push(match r.below(10) {
                            0..=3 => WOp::Get(m, x, y),
                            4..=7 if short => if r.p(0.7) { WOp::Get(m, x, y) } else { WOp::UProbe(m, x, y) },
                            8 | 9 if short && r.p(0.8) => WOp::Get(m, x, y),
                            4 | 5 => WOp::Dump(m),
                            6 | 7 => WOp::Ans(m, fb(x as f32 + r.f() as f32 - 0.5), fb(y as f32 + r.f() as f32 - 0.5), r.u64() as u32),
                            8 => WOp::UProbe(m, x, y),
                            _ => WOp::Stream(m),
                        });
                    }
                }
            }
            for v in &mut th {
                v.push(WOp::Barrier);
            }
            let saved: Vec<u8> = th.iter().flatten().filter_map(|o| if let WOp::Save(_, p) = o { Some(*p) } else { None }).collect();
            for p in [6, 7, 0, 2, 4, 5] {
                if !dense || saved.contains(&p) {
                    th[0].push(WOp::Peek(p));
                }
            }
        }
        c.threads = th;
        c.env.log_level = if r.p(0.8) { 0 } else { 5 };
        let rep = dry(c);
        let k = 1 + r.geo(if dense { 50.0 } else { 25.0 }, 200);
        preempt(r, &rep, nt, k, &mut c.plan);
        // inside the file work above all
        for _ in 0..r.below(12) {
            let t = r.usize(nt);
            if let Some(n) = at(r, &rep, t, IO) {
                let a = match r.below(8) {
                    0 => Act::Eintr,
                    1 => Act::Short(1 + r.below(200) as u32),
                    2 => Act::Delay(1 << r.below(36)),
                    _ => Act::Switch(r.u64() as u32),
                };
                c.plan.push(PP { t, c: IO, n, a });
            }
        }
    }
}

// ------------------------------------------------------------------ judgement
static mut BASE: Option<HashMap<String, Value>> = None;
/// the answer of a query that is the first thing a fresh process does
fn baseline(q: &Q) -> Value {
    let memo = unsafe { (*std::ptr::addr_of_mut!(BASE)).get_or_insert_with(HashMap::new) };
    let key = serde_json::to_string(q).unwrap();
    if let Some(v) = memo.get(&key) {
        return v.clone();
    }
    let c = WCase { env: Env::default(), qs: vec![q.clone()], threads: vec![vec![WOp::Q(0, true)]], plan: vec![], hash: 0 };
    let r = run_case(&c, &c.env, &[]);
    let v = match r.obs.last() {
        Some(o) => o["r"].clone(),
        None => json!({"end": format!("{:?}", r.end)}),
    };
    memo.insert(key, v.clone());
    v
}
fn u(v: &Value) -> u64 {
    v.as_u64().unwrap_or(u64::MAX)
}
/// every query answer in a report (top-level and nested) against its answer in a fresh process
fn same_as_fresh(c: &WCase, r: &Report, s: &mut Stats, nested_only: bool) -> Result<(), Violation> {
    for o in &r.obs {
        let Some(q) = o.get("q") else { continue };
        if nested_only && o.get("i").is_some() {
            continue;
        }
        let q = &c.qs[u(q) as usize];
        if o["taint"] == true || o["r"] == "P" {
            continue;
        }
        s.probe("query-answers-compared");
        let want = baseline(q);
        if o["r"] != want {
            return viol("query:differs", format!("{q:?} gives {} here, {want} in a fresh process (thread {}, operation {})", o["r"], o["t"], o["i"]));
        }
    }
    Ok(())
}
/// the part of a result that says how the call ended
fn status<'a>(op: &WOp, r: &'a Value) -> &'a Value {
    match op {
        WOp::Set(..) | WOp::Rem(..) | WOp::Save(..) | WOp::Load(..) | WOp::Peek(..) | WOp::Stream(..) | WOp::Note(..) => &r[0],
        _ => r,
    }
}
fn op_of<'a>(c: &'a WCase, o: &Value) -> Option<&'a WOp> {
    let i = o.get("i")?;
    c.threads.get(u(&o["t"]) as usize)?.get(u(i) as usize)
}
fn lost_panic(c: &WCase, r: &Report) -> Result<(), Violation> {
    for o in &r.obs {
        if let Some(op) = op_of(c, o) {
            let st = status(op, &o["r"]);
            for k in ["swallowed", "altered", "ghost"] {
                if let Some(x) = st.get(k) {
                    return viol(&format!("panic:{k}"), format!("thread {} operation {} {op:?}: the panic of user code was {k}: {x}", o["t"], o["i"]));
                }
            }
        } else if let Some(st) = o.get("q").map(|_| &o["r"]) {
            for k in ["swallowed", "altered", "ghost"] {
                if let Some(x) = st.get(k) {
                    return viol(&format!("panic:{k}"), format!("nested query: the panic of user code was {k}: {x}"));
                }
            }
        }
    }
    Ok(())
}
/// compare the results of the same operations in two runs
fn compare(c: &WCase, a: &Report, b: &Report, map: impl Fn(u64, u64) -> Option<(u64, u64)>, skip: impl Fn(&WOp) -> bool, class: &str, what: &str) -> Result<(), Violation> {
    let mut want = BTreeMap::new();
    for o in &b.obs {
        if o.get("i").is_some() {
            want.insert((u(&o["t"]), u(&o["i"])), &o["r"]);
        }
    }
    for o in &a.obs {
        let Some(op) = op_of(c, o) else { continue };
        if skip(op) {
            continue;
        }
        let Some(k) = map(u(&o["t"]), u(&o["i"])) else { continue };
        let Some(w) = want.get(&k) else { return viol("harness", format!("operation {k:?} is missing in the comparison run")) };
        if o["r"] != **w {
            let short = |v: &Value| v.to_string().chars().take(300).collect::<String>();
            return viol(class, format!("thread {} operation {} {op:?} gives {}, but {what} {}", o["t"], o["i"], short(&o["r"]), short(w)));
        }
    }
    Ok(())
}
/// a fixed amount of work: calls of support functions, memory accesses of library code, bytes of memory
const MAX_CALLS: u64 = 1000;
const MAX_MEM_POINTS: u64 = 3_000_000;
const MAX_BYTES: i64 = 512 << 10;

impl Prog {
    fn judge(&self, c: &WCase, rep: &Report, s: &mut Stats) -> Result<(), Violation> {
        if let Some(v) = bad_end(rep) {
            return Err(v);
        }
        match self.0 {
            C08 => {
                let talk = |r: &Report| if r.console > 0 { viol("console", format!("{} bytes written to standard output or error: {:?}", r.console, r.console_text)) } else { Ok(()) };
                talk(rep)?;
                same_as_fresh(c, rep, s, true)?;
                let plain = Env { seed: mix(c.env.seed), log_level: 0, fmt: false, console: 0, vars: 0, pid: 4242, ..c.env.clone() };
                let b = run_case(c, &plain, &[]);
                s.report(&b);
                if let Some(v) = bad_end(&b) {
                    return Err(v);
                }
                talk(&b)?;
                compare(c, rep, &b, |t, i| Some((t, i)), |_| false, "environment", "in a plain environment")
            }
            C09 => {
                same_as_fresh(c, rep, s, false)?;
                for o in &rep.obs {
                    if o["r"].get("shape changed").is_some() {
                        return viol("shape:changed", format!("query {} changed the shapes it was given", o["q"]));
                    }
                }
                Ok(())
            }
            C10 => {
                lost_panic(c, rep)?;
                same_as_fresh(c, rep, s, false)?;
                let mut gone = BTreeSet::new();
                let mut file_doubt = false;
                for o in &rep.obs {
                    if let Some(op) = op_of(c, o) {
                        if status(op, &o["r"]) == "P" {
                            s.probe("interrupted-calls");
                            gone.insert((u(&o["t"]), u(&o["i"])));
                            file_doubt |= matches!(op, WOp::Save(..));
                        }
                    }
                }
                if gone.is_empty() {
                    return Ok(());
                }
                let mut c2 = c.clone();
                let mut map = BTreeMap::new();
                for (t, v) in c2.threads.iter_mut().enumerate() {
                    let mut k = 0;
                    let mut j = 0;
                    v.retain(|_| {
                        let keep = !gone.contains(&(t as u64, j));
                        if keep {
                            map.insert((t as u64, j), (t as u64, k));
                            k += 1;
                        }
                        j += 1;
                        keep
                    });
                }
                let b = run_case(&c2, &c.env, &[]);
                s.report(&b);
                if let Some(v) = bad_end(&b) {
                    return Err(v);
                }
                let skip = |o: &WOp| match o {
                    WOp::Q(..) => true,
                    // an interrupted save may have got through or not
                    WOp::Set(..) | WOp::Rem(..) | WOp::Get(..) | WOp::Dump(..) | WOp::Ans(..) | WOp::UProbe(..) | WOp::Events(..) | WOp::Save(..) | WOp::Load(..) | WOp::Peek(..) | WOp::Stream(..) => file_doubt,
                    _ => false,
                };
                compare(c, rep, &b, |t, i| map.get(&(t, i)).copied(), skip, "panic:left-traces", "without the interrupted calls")
            }
            C11 => {
                for o in &rep.obs {
                    let Some(op) = op_of(c, o) else { continue };
                    let (calls, mem, bytes) = (u(&o["c"][0]), u(&o["c"][1]), o["c"][2].as_i64().unwrap_or(0));
                    let tag = if o["taint"] == true { "lying" } else { "honest" };
                    s.max(&format!("most-support-calls-{tag}"), calls);
                    s.max(&format!("most-memory-accesses-{tag}"), mem);
                    s.max(&format!("most-bytes-{tag}"), bytes.max(0) as u64);
                    s.probe(if o["taint"] == true { "queries-with-lying-shapes" } else { "honest-queries" });
                    if calls > MAX_CALLS || mem > MAX_MEM_POINTS || bytes > MAX_BYTES {
                        return viol("work:unbounded", format!("operation {} {op:?} on {:?}: {calls} support calls, {mem} memory accesses, {bytes} bytes", o["i"], c.qs[u(&o["q"]) as usize]));
                    }
                }
                Ok(())
            }
            C12 => deliveries(rep, s),
            C13 => ledgers(rep, s),
            C15 => shared(c, rep, s),
        }
    }
}
struct Open {
    ev: u64,
    next: usize,
    subs: usize,
    panicked: Option<usize>,
    running: bool,
}
/// reference model of callback publishers over the log of notifications and deliveries
fn deliveries(rep: &Report, s: &mut Stats) -> Result<(), Violation> {
    let mut subs: BTreeMap<u64, usize> = BTreeMap::new();
    let mut open: BTreeMap<u64, Open> = BTreeMap::new();
    for o in &rep.obs {
        if let Some(a) = o.get("a") {
            *subs.entry(u(&a[0])).or_insert(0) += 1;
        } else if let Some(n) = o.get("n") {
            let (p, ev) = (u(&n[1]), u(&n[2]));
            let k = subs.get(&p).copied().unwrap_or(0);
            open.insert(p, Open { ev, next: 0, subs: k, panicked: None, running: false });
        } else if let Some(d) = o.get("d") {
            s.probe("deliveries");
            let (p, sub, ev) = (u(&d[1]), u(&d[2]) as usize, u(&d[3]));
            let Some(x) = open.get_mut(&p) else { return viol("delivery:late", format!("subscriber {sub} of publisher {p} gets event {ev} outside any notification")) };
            if x.ev != ev {
                return viol("delivery:wrong-event", format!("subscriber {sub} of publisher {p} gets event {ev} while {} is being published", x.ev));
            }
            if u(&d[4]) != 1 {
                return viol("delivery:altered", format!("event {ev} reaches subscriber {sub} of publisher {p} altered"));
            }
            if x.running && x.panicked.is_none() {
                // the previous subscriber did not finish: it panicked
                x.panicked = Some(x.next - 1);
            }
            if sub != x.next {
                return viol("delivery:order", format!("event {ev} of publisher {p} reaches subscriber {sub}, expected {} of {}", x.next, x.subs));
            }
            x.next += 1;
            x.running = true;
        } else if let Some(d) = o.get("x") {
            if let Some(x) = open.get_mut(&u(&d[1])) {
                x.running = false;
            }
        } else if let Some(e) = o.get("e").filter(|e| e.is_array()) {
            let (p, ev, how) = (u(&e[1]), u(&e[2]), u(&e[3]));
            let Some(x) = open.remove(&p) else { continue };
            let panicked = x.running || x.panicked.is_some();
            if how == 2 || how == 3 && panicked {
                return viol("delivery:panic-lost", format!("the panic of a subscriber of publisher {p} did not reach the caller unchanged (event {ev})"));
            }
            if how == 3 {
                return viol("delivery:panic", format!("publishing event {ev} on publisher {p} panics though no subscriber did"));
            }
            if how == 0 && x.next != x.subs {
                return viol("delivery:missing", format!("event {ev} of publisher {p} reached {} of {} subscribers", x.next, x.subs));
            }
            if how == 1 {
                s.probe("interrupted-notifications");
            }
        }
    }
    Ok(())
}
fn ids(v: &Value) -> Vec<u64> {
    v.as_array().map(|a| a.iter().map(u).collect()).unwrap_or_default()
}
fn ledgers(rep: &Report, s: &mut Stats) -> Result<(), Violation> {
    let mut list: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
    let mut set: BTreeMap<u64, (BTreeSet<u64>, BTreeSet<u64>)> = BTreeMap::new();
    for o in &rep.obs {
        if let Some(x) = o.get("ln") {
            s.probe("list-events");
            list.entry(u(&x[0])).or_default().push(u(&x[1]));
        } else if let Some(x) = o.get("lb") {
            let l = list.entry(u(&x[0])).or_default();
            l.extend((0..u(&x[2])).map(|i| u(&x[1]) + i));
        } else if let Some(x) = o.get("sn") {
            s.probe("set-events");
            let e = set.entry(u(&x[0])).or_default();
            let k = u(&x[1]);
            if u(&x[2]) == 1 {
                e.1.remove(&k);
                e.0.insert(k);
            } else if !e.0.contains(&k) {
                s.probe("interrupted-insertions");
                e.1.insert(k);
            }
        } else if let Some(x) = o.get("sb") {
            let e = set.entry(u(&x[0])).or_default();
            for k in u(&x[1])..u(&x[1]) + u(&x[2]) {
                e.1.remove(&k);
                e.0.insert(k);
            }
        } else if let Some(x) = o.get("ld") {
            let (l, how, got) = (u(&x[0]), u(&x[1]), ids(&x[2]));
            let m = list.entry(l).or_default();
            let want: Vec<u64> = if how == 4 { m.drain(..m.len() / 2).collect() } else { m.clone() };
            if !matches!(how, 3 | 4) {
                m.clear();
            }
            if x[3] != true {
                return viol("ledger:altered", format!("an event in list {l} was altered"));
            }
            if got != want {
                let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                return viol("ledger:list", format!("list {l} holds {} events, expected {}; first difference at {at}", got.len(), want.len()));
            }
        } else if let Some(x) = o.get("sd") {
            let (l, how, got) = (u(&x[0]), u(&x[1]), ids(&x[2]));
            let m = set.entry(l).or_default();
            let distinct: BTreeSet<u64> = got.iter().copied().collect();
            if x[3] != true {
                return viol("ledger:altered", format!("an event in set {l} was altered"));
            }
            if distinct.len() != got.len() {
                return viol("ledger:duplicate", format!("set {l} holds an event twice: {got:?}"));
            }
            if let Some(k) = m.0.iter().find(|k| !distinct.contains(k)) {
                return viol("ledger:lost", format!("set {l} lost event {k}; it holds {} of {}", got.len(), m.0.len()));
            }
            if let Some(k) = distinct.iter().find(|k| !m.0.contains(k) && !m.1.contains(k)) {
                return viol("ledger:invented", format!("set {l} holds event {k}, which was not notified since it was drained"));
            }
            if how != 3 {
                *m = Default::default();
            } else {
                // whatever happened to the interrupted ones, it is known now
                m.1.retain(|k| !distinct.contains(k));
                m.0 = distinct;
            }
        } else if let Some(Value::Object(x)) = o.get("r") {
            for k in ["swallowed", "altered", "ghost", "panic"] {
                if x.contains_key(k) {
                    return viol("ledger:panic", format!("a ledger operation ended with {o}"));
                }
            }
        }
    }
    Ok(())
}
fn shared(c: &WCase, rep: &Report, s: &mut Stats) -> Result<(), Violation> {
    // the same operations one after the other, in the order in which they took effect
    let mut order: Vec<(u64, u64, u64)> = rep.obs.iter().filter(|o| o.get("i").is_some()).map(|o| (u(&o["b"]), u(&o["t"]), u(&o["i"]))).collect();
    order.sort();
    let mut ops = vec![];
    let mut map = BTreeMap::new();
    for &(_, t, i) in &order {
        let op = &c.threads[t as usize][i as usize];
        if *op != WOp::Barrier {
            map.insert((t, i), (0, ops.len() as u64));
            ops.push(op.clone());
        }
    }
    let c2 = WCase { threads: vec![ops], ..c.clone() };
    let plain = Env { seed: mix(c.env.seed), max_io: usize::MAX, ..c.env.clone() };
    let b = run_case(&c2, &plain, &[]);
    s.report(&b);
    if let Some(v) = bad_end(&b) {
        return Err(v);
    }
    compare(c, rep, &b, |t, i| map.get(&(t, i)).copied(), |o| matches!(o, WOp::Barrier | WOp::Peek(6 | 7)), "shared:differs", "alone, in the same order, it gives")?;
    // the file that several threads save to
    let mut saves: Vec<(u64, u64, &Value)> = vec![];
    for o in &rep.obs {
        match op_of(c, o) {
            Some(WOp::Save(_, 6 | 7)) => {
                if o["r"][0] == "ok" {
                    saves.push((u(&o["b"]), u(&o["e"]), &o["r"][1]));
                }
            }
            Some(WOp::Peek(6 | 7)) => {
                let (pb, r) = (u(&o["b"]), &o["r"]);
                let done: Vec<_> = saves.iter().filter(|x| x.1 < pb).collect();
                if done.is_empty() {
                    continue;
                }
                let cand: Vec<&Value> = done.iter().filter(|x| !done.iter().any(|y| x.1 < y.0)).map(|x| x.2).collect();
                s.probe("files-saved-by-several-threads");
                if r[0] != "ok" {
                    return viol("shared:file-broken", format!("a file saved by {} saves at the same time does not load: {}", cand.len(), r[0]));
                }
                if !cand.iter().any(|d| **d == r[1]) {
                    return viol("shared:file-mixed", format!("a file saved by several threads at the same time holds none of the {} maps saved", cand.len()));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

impl Scenario for Prog {
    type Case = WCase;
    fn id(&self) -> &'static str {
        match self.0 {
            C08 => "C08",
            C09 => "C09",
            C10 => "C10",
            C11 => "C11",
            C12 => "C12",
            C13 => "C13",
            C15 => "C15",
        }
    }
    fn plan(&self) -> Plan {
        match self.0 {
            C08 => Plan { quick: 24000, thorough: 300000 },
            C09 => Plan { quick: 9000, thorough: 150000 },
            C10 => Plan { quick: 8000, thorough: 120000 },
            C11 => Plan { quick: 60000, thorough: 1000000 },
            C12 => Plan { quick: 12000, thorough: 150000 },
            C13 => Plan { quick: 16000, thorough: 200000 },
            C15 => Plan { quick: 4500, thorough: 50000 },
        }
    }
    fn rule(&self) -> String {
        "one run = one seeded program of 1-4 threads on shapes, maps, files and publishers with a planned list of preemptions, user-code panics, lies, stalls and nested calls; non-trivial = at least one planned event fired".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "threads are preempted at instrumented memory accesses, allocations, system calls, log calls and user calls; accesses are sequentially consistent".into(),
            "a search over seeds, not a proof".into(),
        ]
    }
    fn real_and_stub(&self) -> (String, String) {
        ("auburn (2D shapes, transforms, GJK/EPA, tilemap, publisher), glam, lk_math, serde_json, Rust std".into(), "kernel (threads' scheduling, futex, file system, clock, randomness, console), logger, user shapes/transforms/subscribers/keys, the user's locks".into())
    }
    fn gen(&self, r: &mut Rng, idx: u64, thorough: bool) -> WCase {
        self.gen_case(r, idx, thorough)
    }
    fn run(&self, c: &WCase, s: &mut Stats) -> Outcome {
        let rep = run_case(c, &c.env, &c.plan);
        s.report(&rep);
        let v = self.judge(c, &rep, s);
        let trace = mix(rep.trace ^ hash_str(&serde_json::to_string(&rep.obs).unwrap()) ^ hash_str(&format!("{:?}", rep.end)));
        Outcome { violation: v.err(), trace, nontrivial: !rep.fired.is_empty() || self.0 == C08 }
    }
    fn shrink(&self, c: &WCase) -> Vec<WCase> {
        let mut out = vec![];
        let mut put = |f: &dyn Fn(&mut WCase)| {
            let mut x = c.clone();
            f(&mut x);
            out.push(x);
        };
        let barriers = |c: &WCase| c.threads.iter().any(|v| v.contains(&WOp::Barrier));
        if c.threads.len() > 1 && !c.threads.last().unwrap().is_empty() {
            put(&|x| {
                let n = x.threads.len() - 1;
                x.threads.pop();
                x.plan.retain(|p| p.t < n);
            });
        }
        for v in shorter(&c.plan) {
            put(&|x| x.plan = v.clone());
        }
        for t in 0..c.threads.len() {
            for v in shorter(&c.threads[t]) {
                let n = |v: &[WOp]| v.iter().filter(|o| **o == WOp::Barrier).count();
                if barriers(c) && n(&v) != n(&c.threads[t]) {
                    continue;
                }
                put(&|x| x.threads[t] = v.clone());
            }
            for k in 0..c.threads[t].len() {
                match c.threads[t][k] {
                    WOp::Rep(q, n) => {
                        put(&|x| x.threads[t][k] = WOp::Q(q, false));
                        if n > 2 {
                            put(&|x| x.threads[t][k] = WOp::Rep(q, n / 2));
                        }
                    }
                    WOp::Bulk(a, b, d, n) if n > 1 => put(&|x| x.threads[t][k] = WOp::Bulk(a, b, d, n / 2)),
                    _ => {}
                }
            }
        }
        for k in 0..c.plan.len() {
            let n = c.plan[k].n;
            for m in [1, n / 2, n.saturating_sub(1)] {
                if m > 0 && m < n {
                    put(&|x| x.plan[k].n = m);
                }
            }
        }
        if c.env.log_level != 0 || c.env.fmt || c.env.console != 0 || c.env.seed != 1 {
            put(&|x| x.env.log_level = 0);
            put(&|x| x.env.fmt = false);
            put(&|x| x.env.console = 0);
            put(&|x| x.env.seed = 1);
        }
        out
    }
}
