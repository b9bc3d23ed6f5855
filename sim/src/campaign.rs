//! Seeded search over cases in parallel worker processes, minimisation, replay files, evidence.
use crate::proc;
use crate::rng::{hash_str, mix, Rng};
use crate::rt::{End, Report};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;

#[derive(Default, Clone, Serialize, Deserialize)]
pub struct Stats {
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub incarnations: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub points: [u64; 6],
    pub unsup: BTreeSet<String>,
}
impl Stats {
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.into()).or_insert(0) += 1;
    }
    pub fn max(&mut self, k: &str, v: u64) {
        let e = self.maxima.entry(k.into()).or_insert(0);
        *e = v.max(*e);
    }
    pub fn fault(&mut self, k: &str) {
        *self.faults.entry(k.into()).or_insert(0) += 1;
    }
    pub fn report(&mut self, r: &Report) {
        self.incarnations += 1;
        self.switches += r.switches;
        self.sim_ns = self.sim_ns.saturating_add(r.sim_ns);
        for (k, v) in &r.fired {
            *self.faults.entry(k.clone()).or_insert(0) += v;
        }
        for c in &r.counts {
            for k in 0..6 {
                self.points[k] += c[k];
            }
        }
        self.unsup.extend(r.unsup.iter().cloned());
    }
    fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.maxima {
            self.max(k, *v);
        }
        self.incarnations += o.incarnations;
        self.switches += o.switches;
        self.sim_ns = self.sim_ns.saturating_add(o.sim_ns);
        for k in 0..6 {
            self.points[k] += o.points[k];
        }
        self.unsup.extend(o.unsup.iter().cloned());
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
pub fn viol<T>(class: &str, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), detail: detail.into() })
}
pub struct Outcome {
    pub violation: Option<Violation>,
    /// hash of everything observable of the execution
    pub trace: u64,
    pub nontrivial: bool,
}
pub struct Plan {
    pub quick: u64,
    pub thorough: u64,
}
pub trait Scenario {
    type Case: Serialize + DeserializeOwned + Clone;
    fn id(&self) -> &'static str;
    fn plan(&self) -> Plan;
    fn rule(&self) -> String;
    fn assumptions(&self) -> Vec<String>;
    fn real_and_stub(&self) -> (String, String);
    /// idx: index of the run in the campaign
    fn gen(&self, r: &mut Rng, idx: u64, thorough: bool) -> Self::Case;
    fn run(&self, c: &Self::Case, s: &mut Stats) -> Outcome;
    fn shrink(&self, c: &Self::Case) -> Vec<Self::Case>;
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    runs: u64,
    nontrivial: u64,
    stats: Stats,
    traces: Vec<u64>,
    samples: Vec<Value>,
    found: Option<(u64, Violation, Value)>,
    rechecked: u64,
    diverged: u64,
    unreproduced: Vec<String>,
    digest: u64,
    harness_error: Option<String>,
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub workers: u64,
    pub runs: Option<u64>,
    pub wall: f64,
    pub verif: String,
    pub quiet: bool,
    /// which build of the library this is (empty: the usual one)
    pub build: String,
}
pub fn run_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix(mix(seed ^ 0x5eed) ^ hash_str(id) ^ mix(idx))
}
impl Opts {
    fn seed(&self) -> u64 {
        if self.build.is_empty() { self.seed } else { mix(self.seed ^ hash_str(&self.build)) }
    }
}

fn work<S: Scenario>(sc: &S, o: &Opts, w: u64, runs: u64) -> WorkerOut {
    let t0 = Instant::now();
    let mut out = WorkerOut::default();
    let mut i = w;
    while i < runs {
        if t0.elapsed().as_secs_f64() > o.wall {
            break;
        }
        let mut r = Rng::new(run_seed(o.seed(), sc.id(), i));
        let c = sc.gen(&mut r, i, o.thorough);
        let res = sc.run(&c, &mut out.stats);
        out.runs += 1;
        out.digest = out.digest.wrapping_add(mix(res.trace ^ mix(i)));
        if res.nontrivial {
            out.nontrivial += 1;
            out.traces.push(res.trace);
        }
        if out.samples.len() < 2 && res.nontrivial && i % 5 == w % 5 {
            out.samples.push(serde_json::to_value(&c).unwrap());
        }
        let recheck = res.violation.is_some() || i % 61 == 7;
        if recheck {
            let mut scratch = Stats::default();
            let again = sc.run(&c, &mut scratch);
            out.rechecked += 1;
            if again.trace != res.trace {
                out.diverged += 1;
                eprintln!("run {i} took another course the second time");
            }
            if let Some(v) = res.violation {
                match again.violation {
                    Some(v2) if v2.class == v.class => {
                        out.found = Some((i, v, serde_json::to_value(&c).unwrap()));
                        break;
                    }
                    _ => out.unreproduced.push(format!("run {i}: {} {}", v.class, v.detail)),
                }
            }
        }
        i += o.workers;
    }
    out
}

fn minimise<S: Scenario>(sc: &S, case: S::Case, v: &Violation, secs: f64) -> (S::Case, Violation, u64) {
    let t0 = Instant::now();
    let mut best = case;
    let mut bv = v.clone();
    let mut tried = 0;
    'outer: loop {
        for c in sc.shrink(&best) {
            if t0.elapsed().as_secs_f64() > secs {
                break 'outer;
            }
            tried += 1;
            let mut s = Stats::default();
            let r = sc.run(&c, &mut s);
            if let Some(x) = r.violation {
                if x.class == bv.class {
                    best = c;
                    bv = x;
                    continue 'outer;
                }
            }
        }
        break;
    }
    (best, bv, tried)
}

pub fn check<S: Scenario>(sc: &S, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let runs = o.runs.unwrap_or(if o.thorough { sc.plan().thorough } else { sc.plan().quick });
    let mut kids = vec![];
    for w in 0..o.workers {
        kids.push(proc::fork_raw(|fd| {
            let out = work(sc, o, w, runs);
            let b = serde_json::to_vec(&out).unwrap();
            let mut k = 0;
            while k < b.len() {
                let n = unsafe { libc::write(fd, b[k..].as_ptr() as *const _, b.len() - k) };
                if n <= 0 {
                    break;
                }
                k += n as usize;
            }
        }));
    }
    let mut total = WorkerOut::default();
    let mut traces: BTreeSet<u64> = BTreeSet::new();
    let mut bad = None;
    for (pid, fd) in kids {
        let b = proc::read_fd(fd);
        let s = proc::wait(pid);
        match serde_json::from_slice::<WorkerOut>(&b) {
            Ok(x) => {
                total.runs += x.runs;
                total.nontrivial += x.nontrivial;
                total.stats.merge(&x.stats);
                traces.extend(x.traces);
                total.samples.extend(x.samples);
                total.rechecked += x.rechecked;
                total.diverged += x.diverged;
                total.digest = total.digest.wrapping_add(x.digest);
                total.unreproduced.extend(x.unreproduced);
                if let Some(f) = x.found {
                    if total.found.as_ref().is_none_or(|t| f.0 < t.0) {
                        total.found = Some(f);
                    }
                }
            }
            Err(e) => bad = Some(format!("worker gave no result (status {s}): {e}")),
        }
    }
    let mut replay = None;
    let mut code = 0;
    if let Some((idx, v, case)) = &total.found {
        let case: S::Case = serde_json::from_value(case.clone()).unwrap();
        let (m, mv, tried) = minimise(sc, case.clone(), v, if o.thorough { 120.0 } else { 40.0 });
        let dir = format!("{}/replays", o.verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}{}-seed{}-run{}.json", sc.id(), o.build, o.seed, idx);
        let doc = json!({"property": sc.id(), "build": o.build, "seed": o.seed, "run": idx, "class": mv.class, "detail": mv.detail,
            "minimised_in": tried, "case": m, "original_case": case});
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        println!("run {idx}: {}: {}", mv.class, mv.detail);
        println!("VIOLATION property={} replay={}", sc.id(), path);
        replay = Some(path);
        code = 1;
    } else if let Some(b) = bad {
        eprintln!("harness error: {b}");
        code = 2;
    } else if !total.unreproduced.is_empty() {
        eprintln!("harness error: violation did not reproduce: {:?}", total.unreproduced);
        code = 2;
    }
    let wall = t0.elapsed().as_secs_f64();
    let (real, stub) = sc.real_and_stub();
    let st = &total.stats;
    total.samples.truncate(3);
    let mut ev = json!({
        "property": sc.id(), "tier": if o.thorough { "thorough" } else { "quick" }, "seed": o.seed, "level": "exploration",
        "coverage": {
            "evaluations": total.runs,
            "distinct_nontrivial": traces.len(),
            "rule": sc.rule(),
            "samples": total.samples.iter().map(cap_sample).collect::<Vec<_>>(),
            "nontrivial_runs": total.nontrivial,
            "runs_per_hour": (total.runs as f64 / wall * 3600.0) as u64,
            "seeds_per_hour": (total.runs as f64 / wall * 3600.0) as u64,
            "simulated_processes": st.incarnations,
            "simulated_seconds": st.sim_ns as f64 / 1e9,
            "faults_fired": st.faults,
            "probes": st.probes,
            "maxima": st.maxima,
            "thread_switches": st.switches,
            "points_passed": {"memory": st.points[0], "allocation": st.points[1], "io": st.points[2], "log": st.points[3], "user": st.points[4], "atomic": st.points[5]},
            "reruns_for_determinism": total.rechecked,
            "reruns_that_diverged": total.diverged,
            "distinctness_measure": "64-bit hash over every system call, allocation, log and user-call point with its memory-access count, every thread switch and every observation",
            "execution_digest": format!("{:016x}", total.digest),
            "unsupported_system_calls_seen": st.unsup,
            "real_code": real, "stubs": stub,
        },
        "assumptions": sc.assumptions(),
        "wall_s": wall,
        "violations": if code == 1 { 1 } else { 0 },
        "replay": replay,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", o.verif));
    let file = format!("{}/evidence/{}.json", o.verif, sc.id());
    if !o.build.is_empty() {
        // added to what the usual build found
        if let Some(mut first) = std::fs::read(&file).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()) {
            let sum = |a: &Value, b: &Value| json!(a.as_u64().unwrap_or(0) + b.as_u64().unwrap_or(0));
            for k in ["evaluations", "distinct_nontrivial", "nontrivial_runs"] {
                first["coverage"][k] = sum(&first["coverage"][k], &ev["coverage"][k]);
            }
            first["coverage"][format!("in_build_{}", o.build)] = ev["coverage"].clone();
            first["wall_s"] = json!(first["wall_s"].as_f64().unwrap_or(0.0) + wall);
            first["violations"] = sum(&first["violations"], &ev["violations"]);
            first["replay"] = ev["replay"].clone();
            ev = first;
        }
    }
    std::fs::write(file, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    if !o.quiet {
        println!("{}{}: {} runs, {} distinct, {} diverged of {}, {:.1}s, digest {:016x}", sc.id(), o.build, total.runs, traces.len(), total.diverged, total.rechecked, wall, total.digest);
    }
    code
}
fn cap_sample(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() > 3000 {
        Value::String(format!("{} ... ({} bytes)", s.chars().take(2500).collect::<String>(), s.len()))
    } else {
        v.clone()
    }
}

pub fn replay<S: Scenario>(sc: &S, doc: &Value) -> i32 {
    let c: S::Case = serde_json::from_value(doc["case"].clone()).expect("case");
    let mut s = Stats::default();
    let r = sc.run(&c, &mut s);
    println!("trace {:016x} faults {:?}", r.trace, s.faults);
    match r.violation {
        Some(v) => {
            println!("{}: {}", v.class, v.detail);
            println!("VIOLATION property={} class={}", sc.id(), v.class);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}
/// prints one line per run: used to diff executions across processes and worker counts
pub fn traces<S: Scenario>(sc: &S, seed: u64, from: u64, to: u64) {
    for i in from..to {
        let mut r = Rng::new(run_seed(seed, sc.id(), i));
        let t0 = Instant::now();
        let c = sc.gen(&mut r, i, false);
        let t1 = t0.elapsed();
        let mut s = Stats::default();
        let res = sc.run(&c, &mut s);
        println!("{} {} {:016x} {:016x}", sc.id(), i, hash_str(&serde_json::to_string(&c).unwrap()), res.trace);
        if std::env::var_os("SIM_TIMES").is_some() {
            eprintln!("{:.3} gen {:.3} {i} {:?}", t0.elapsed().as_secs_f64(), t1.as_secs_f64(), s.points);
        }
    }
}

/// An incarnation ended in a way no property allows.
pub fn bad_end(r: &Report) -> Option<Violation> {
    let m = match &r.end {
        End::Done | End::Killed | End::PowerLost => return None,
        End::Deadlock => "all threads wait for ever",
        End::Runaway => "a call does not end (step limit)",
        End::CpuLimit => "a call does not end (processor time limit)",
        End::MemLimit => "memory use without bound",
        End::Died(_) => "the process exited",
        End::Signal(9) => {
            eprintln!("harness error: a simulated process was killed from outside");
            unsafe { libc::_exit(3) }
        }
        End::Signal(_) => "the process was aborted",
    };
    Some(Violation { class: format!("process:{:?}", r.end).chars().filter(|c| c.is_alphanumeric() || *c == ':').collect(), detail: format!("{m} ({:?}) after {} completed operations", r.end, r.obs.len()) })
}
/// Generic list reductions for shrinking.
pub fn shorter<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let mut out = vec![];
    let n = v.len();
    if n == 0 {
        return out;
    }
    let mut k = n;
    while k >= 1 {
        let mut s = 0;
        while s < n {
            let e = (s + k).min(n);
            let mut x = v[..s].to_vec();
            x.extend_from_slice(&v[e..]);
            out.push(x);
            s = e;
        }
        if k == 1 {
            break;
        }
        k = k.div_ceil(2);
        if n > 64 && k < n / 32 {
            // long lists: coarse first, single elements once it is shorter
            break;
        }
    }
    out
}
