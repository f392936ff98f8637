// Scenarios, the uninterrupted reference, and the operator who restarts what died.
use crate::case::{case_json, CaseSpec};
use crate::exec::{Env, Op, Plan, Run, World};
use crate::rng::{fnv_bytes, Rng};
use crate::state::{self, State};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Leg {
    pub mode: String, // auto; older: restore an older backup first; backup: resume from the backup file in place
    pub limit: u64,
    pub silent: bool,
    pub args: Vec<String>, // extra arguments when the leg is a resume
    pub tail: i64,         // bytes of garbage appended to the history before the leg
    pub plan: Plan,
}
impl Leg {
    pub fn clean() -> Leg { Leg { mode: "auto".into(), limit: 0, silent: true, args: vec![], tail: 0, plan: Plan::quiet() } }
    pub fn plan(p: Plan) -> Leg { Leg { plan: p, ..Leg::clean() } }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub case: CaseSpec,
    pub snap: String,
    pub legs: Vec<Leg>,
    pub p: BTreeMap<String, f64>,
}
impl Scenario {
    pub fn new(prop: &str, seed: u64, case: &CaseSpec) -> Scenario { Scenario { prop: prop.into(), seed, case: case.clone(), snap: "snap.bin".into(), legs: vec![], p: BTreeMap::new() } }
    pub fn get(&self, k: &str) -> f64 { *self.p.get(k).unwrap_or(&0.0) }
    pub fn set(&mut self, k: &str, v: f64) { self.p.insert(k.into(), v); }
    pub fn json(&self) -> bool { self.snap.ends_with(".json") }
}
#[derive(Clone, Debug)]
pub enum Fail { Violation { class: String, msg: String }, Discard(String) }
pub type Res = Result<Vec<String>, Fail>;
pub fn bad<T>(class: &str, msg: String) -> Result<T, Fail> { Err(Fail::Violation { class: class.into(), msg }) }

pub const HIST: &str = "hist.bin";
pub fn sv(a: &[&str]) -> Vec<String> { a.iter().map(|s| s.to_string()).collect() }
pub fn start_args(snap: &str, leg: &Leg) -> Vec<String> {
    let mut a = sv(&["start", "case.json", snap, HIST]);
    if leg.limit > 0 { a.push("--limit".into()); a.push(leg.limit.to_string()); }
    if leg.silent { a.push("--silent".into()); }
    a
}
pub fn resume_args(snap: &str, leg: &Leg) -> Vec<String> {
    let mut a = sv(&["resume", snap, HIST]);
    if leg.limit > 0 { a.push("--limit".into()); a.push(leg.limit.to_string()); }
    if leg.silent { a.push("--silent".into()); }
    a.extend(leg.args.iter().cloned());
    a
}

// ---------------------------------------------------------------------------------------------
// Snapshot files. A snapshot is whatever file next to the history decodes as one; the main file
// has the name given on the command line, backups share its stem.
#[derive(Clone, Debug)]
pub struct Snap { pub name: String, pub time: f64, pub n_hist: u64, pub json: bool }
pub fn stem(snap: &str) -> &str { snap.split('.').next().unwrap() }
// A name a recovery snapshot is kept under: the one given on the command line, or a backup of it. Files
// in the making (with another extension) are not offered to anybody to resume from.
pub fn keeps(name: &str, snap: &str) -> bool {
    name.starts_with(stem(snap)) && name.rsplit('.').next() == snap.rsplit('.').next()
}
pub fn quick(bytes: &[u8], integrator: &str, json_hint: bool) -> Option<(f64, u64, bool)> {
    let order = if json_hint { [true, false] } else { [false, true] };
    for j in order.iter() {
        if *j && bytes.first() != Some(&b'{') { continue; }
        if let Some((t, n)) = state::brief(bytes, *j, integrator) { return Some((t, n, *j)); }
    }
    None
}
pub fn snapshots(w: &World, sc: &Scenario) -> Vec<Snap> {
    let mut v = vec![];
    for f in w.files() {
        if f == HIST || f == "case.json" || !keeps(&f, &sc.snap) { continue; }
        if let Some(b) = w.read(&f) {
            if let Some((time, n_hist, json)) = quick(&b, &sc.case.integrator, sc.json()) { v.push(Snap { name: f, time, n_hist, json }); }
        }
    }
    v
}
pub fn best(v: &[Snap]) -> Option<&Snap> {
    let mut b: Option<&Snap> = None;
    for s in v { if b.map(|x| s.time > x.time).unwrap_or(true) { b = Some(s); } }
    b
}
// Every file version that ever carried a snapshot name in this world (since the grave was cleared).
pub fn versions(w: &World, sc: &Scenario) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let mut g: Vec<String> = std::fs::read_dir(w.grave()).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
    g.sort();
    for f in g { if f.len() > 7 && keeps(&f[7..], &sc.snap) { v.push((f[7..].to_string(), std::fs::read(w.grave().join(&f)).unwrap())); } }
    for f in w.files() { if f != HIST && f != "case.json" && keeps(&f, &sc.snap) { v.push((f.clone(), w.read(&f).unwrap())); } }
    v
}

// ---------------------------------------------------------------------------------------------
pub struct Ref {
    pub json: String,
    pub run: Run,
    pub hist: Vec<u8>,
    pub n: usize,
    pub raw: HashMap<u64, f64>,                       // digest of a snapshot file -> time
    pub by_time: BTreeMap<u64, (Vec<u8>, bool)>,      // time bits -> snapshot file
    pub times: Vec<f64>,                              // snapshot times in order of writing
    pub rec_times: Vec<f64>,
}
impl Ref {
    pub fn state_at(&self, t: f64, sc: &Scenario) -> Option<State> { self.by_time.get(&t.to_bits()).and_then(|(b, j)| state::decode(b, *j, &sc.case.integrator)) }
    // Number of steps after which the adaptive integrator first tried a longer step than it could take.
    pub fn before_rejected_steps(&self, sc: &Scenario) -> Vec<usize> {
        if sc.case.integrator != "ias15" { return vec![]; }
        let step = |t: f64| self.state_at(t, sc).and_then(|s| s.leaves.get(".time_step").and_then(|v| v.parse::<f64>().ok()));
        (1..self.times.len()).filter(|i| match step(self.times[i - 1]) { Some(d) => self.times[*i] - self.times[i - 1] < 0.999 * d, None => false }).collect()
    }
    pub fn last_time(&self) -> f64 { self.times.last().cloned().unwrap_or(0.0) }
}
pub struct Cache { map: HashMap<String, Result<Arc<Ref>, String>>, pub fatal: HashMap<String, Arc<(Run, Vec<u8>, String)>> }
impl Cache {
    pub fn new() -> Cache { Cache { map: HashMap::new(), fatal: HashMap::new() } }
    // The run nothing happens to.
    pub fn reference(&mut self, env: &Env, sc: &Scenario) -> Result<Arc<Ref>, Fail> { self.with(env, sc, &sc.case.clone()) }
    // The same case with a recovery snapshot after every step.
    pub fn every_step(&mut self, env: &Env, sc: &Scenario) -> Result<Arc<Ref>, Fail> { let mut c = sc.case.clone(); c.rec_period = 0.0; self.with(env, sc, &c) }
    pub fn with(&mut self, env: &Env, sc: &Scenario, case: &CaseSpec) -> Result<Arc<Ref>, Fail> {
        let key = format!("{}|{}", sc.snap, serde_json::to_string(case).unwrap());
        if !self.map.contains_key(&key) {
            let r = make_ref(env, sc, case);
            self.map.insert(key.clone(), r);
        }
        match &self.map[&key] { Ok(r) => Ok(r.clone()), Err(e) => Err(Fail::Discard(e.clone())) }
    }
    pub fn clear(&mut self) { self.map.clear(); self.fatal.clear(); }
}
fn make_ref(env: &Env, sc: &Scenario, case: &CaseSpec) -> Result<Arc<Ref>, String> {
    let mut w = World::new(env);
    let json = case_json(case);
    w.put("case.json", &json);
    let leg = Leg { silent: false, ..Leg::clean() };
    let run = w.exec(&start_args(&sc.snap, &leg), &leg.plan);
    if !run.completed() { return Err(format!("uninterrupted run did not complete: {} {} [{}]", run.end(), run.panic_line(), case.label())); }
    let hist = w.read(HIST).unwrap_or_default();
    let n = case.n_particles();
    let (mut raw, mut by_time, mut times) = (HashMap::new(), BTreeMap::new(), vec![]);
    let mut vs = versions(&w, sc);
    // live files last: backups first, then the main file
    let live = w.files();
    vs.sort_by_key(|(f, _)| if live.contains(f) { if *f == sc.snap { 2 } else { 1 } } else { 0 });
    let mut seen = vec![];
    for (_, b) in vs {
        if let Some((t, _, j)) = quick(&b, &case.integrator, sc.json()) {
            raw.insert(fnv_bytes(&b), t);
            by_time.insert(t.to_bits(), (b, j));
            seen.push(t);
        }
    }
    for t in seen { if !times.contains(&t) { times.push(t); } }
    times.sort_by(|a: &f64, b: &f64| a.partial_cmp(b).unwrap());
    let rec_times = state::record_times(&hist, n).map_err(|e| format!("uninterrupted history malformed: {}", e))?;
    Ok(Arc::new(Ref { json, run, hist, n, raw, by_time, times, rec_times }))
}

// ---------------------------------------------------------------------------------------------
pub struct Step { pub what: String, pub run: Run, pub from: Option<f64>, pub refused_main: bool, pub before: BTreeMap<String, Vec<u8>> }

fn garbage(w: &World, n: i64, seed: u64) {
    let mut b = w.read(HIST).unwrap_or_default();
    let mut r = Rng::new(seed);
    if n % 2 == 0 && b.len() as i64 > n { let tail = b[b.len() - n as usize..].to_vec(); b.extend(tail); } // duplicated tail
    else { for _ in 0..n { b.push(r.next() as u8); } }
    std::fs::write(w.path(HIST), b).unwrap();
}
// One restart by an operator: resume the main snapshot; if it is not whole, make sure it is refused
// and put the newest whole backup in its place; if there is none, start over.
pub fn step(w: &mut World, sc: &Scenario, leg: &Leg, no: usize) -> Result<Step, Fail> {
    let snaps = snapshots(w, sc);
    let main_exists = w.read(&sc.snap).is_some();
    let main_ok = snaps.iter().any(|s| s.name == sc.snap);
    let mut refused_main = false;
    if snaps.is_empty() {
        if main_exists || w.read(HIST).is_some() { for f in w.files() { if f != "case.json" { std::fs::remove_file(w.path(&f)).ok(); } } }
        let before = w.image();
        let run = w.exec(&start_args(&sc.snap, leg), &leg.plan);
        return Ok(Step { what: "start".into(), run, from: None, refused_main, before });
    }
    if leg.tail > 0 { garbage(w, leg.tail, sc.seed ^ no as u64); }
    let before = w.image();
    if main_exists && !main_ok {
        let r = w.exec(&resume_args(&sc.snap, &Leg::clean()), &Plan::quiet());
        refused_main = true;
        if r.ok() { return bad("torn-accepted", format!("leg {}: a snapshot cut short was accepted by resume", no)); }
        if let Some(d) = changed(&before, &w.image()) { return bad("refusal-altered", format!("leg {}: refusing a snapshot cut short altered {}", no, d)); }
    }
    let b = best(&snaps).unwrap().clone();
    let mut name = sc.snap.clone();
    let mut from = b.time;
    if leg.mode == "backup" && b.name != sc.snap && b.json == b.name.ends_with(".json") { name = b.name.clone(); }
    else if leg.mode == "older" && snaps.len() > 1 {
        let mut o: Vec<&Snap> = snaps.iter().filter(|s| s.name != sc.snap).collect();
        o.sort_by(|x, y| x.time.partial_cmp(&y.time).unwrap());
        let s = o[(sc.seed as usize + no) % o.len()];
        std::fs::copy(w.path(&s.name), w.path(&sc.snap)).unwrap();
        from = s.time;
        // going back on purpose: what is newer is given up
        for x in &snaps { if x.time > from && x.name != sc.snap { std::fs::remove_file(w.path(&x.name)).ok(); } }
    } else if !main_ok || b.time > snaps.iter().find(|s| s.name == sc.snap).unwrap().time {
        std::fs::copy(w.path(&b.name), w.path(&sc.snap)).unwrap();
    }
    let before = w.image(); // after the operator put a backup in place
    let run = w.exec(&resume_args(&name, leg), &leg.plan);
    Ok(Step { what: format!("resume {}", name), run, from: Some(from), refused_main, before })
}
// First existing file that lost its content, if any.
pub fn changed(before: &BTreeMap<String, Vec<u8>>, after: &BTreeMap<String, Vec<u8>>) -> Option<String> {
    for (f, b) in before { match after.get(f) { None => return Some(format!("{} (gone)", f)), Some(a) if a != b => return Some(format!("{} ({} -> {} bytes)", f, b.len(), a.len())), _ => {} } }
    None
}
pub struct Chain { pub steps: Vec<Step>, pub done: bool }
// All legs of the scenario, then fault-free resumes until the simulation is complete.
pub fn run_chain(w: &mut World, sc: &Scenario, json: &str, extra_clean: usize, mut after: impl FnMut(&World, usize, &Step) -> Result<(), Fail>) -> Result<Chain, Fail> {
    w.put("case.json", json);
    let mut steps = vec![];
    let last_args = sc.legs.last().map(|l| l.args.clone()).unwrap_or_default();
    for no in 0..sc.legs.len() + extra_clean {
        let leg = if no < sc.legs.len() { sc.legs[no].clone() } else { Leg { args: last_args.clone(), plan: Plan { rt: sc.legs.last().map(|l| l.plan.rt).unwrap_or(0) + 3600, ..Plan::quiet() }, ..Leg::clean() } };
        let s = step(w, sc, &leg, no)?;
        after(w, no, &s)?;
        let done = s.run.completed();
        let stuck = !done && no >= sc.legs.len() && !s.run.ok();
        let msg = format!("leg {}: {} without faults: {} {}", no, s.what, s.run.end(), s.run.panic_line());
        steps.push(s);
        if done { return Ok(Chain { steps, done: true }); }
        if stuck { return bad("no-recovery", msg); }
    }
    Ok(Chain { steps, done: false })
}
// All snapshot versions of this world agree with the reference at the same simulated time.
pub fn check_versions(w: &World, sc: &Scenario, rf: &Ref, env: &Env, strict_time: bool) -> Result<Vec<f64>, Fail> {
    let mut times = vec![];
    for (f, b) in versions(w, sc) {
        let h = fnv_bytes(&b);
        if let Some(t) = rf.raw.get(&h) { times.push(*t); continue; }
        let (t, _, j) = match quick(&b, &sc.case.integrator, sc.json()) { Some(x) => x, None => continue };
        times.push(t);
        match rf.by_time.get(&t.to_bits()) {
            None => { env.probe("snapshot at a time the reference has none"); if strict_time { return bad("snapshot-time", format!("{}: snapshot of time {} days, which is no boundary of the uninterrupted run", f, t)); } }
            Some((rb, rj)) => {
                let (a, r) = (state::decode(&b, j, &sc.case.integrator), state::decode(rb, *rj, &sc.case.integrator));
                if let (Some(a), Some(r)) = (a, r) {
                    let d = state::diff(&a, &r, &|p| state::is_bookkeeping(p));
                    if !d.is_empty() { return bad("state-differs", format!("{} of time {} days differs from the uninterrupted run in {} field(s): {}", f, t, d.len(), d.iter().take(3).cloned().collect::<Vec<_>>().join("; "))); }
                }
            }
        }
    }
    Ok(times)
}
pub fn same_history(got: &[u8], want: &[u8], n: usize) -> Result<(), Fail> {
    if got == want { return Ok(()); }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let rec = i / (state::REC * n);
    bad("history-differs", format!("history has {} bytes, expected {}; first difference at byte {} (record {}, body {}, offset {})", got.len(), want.len(), i, rec, i / state::REC % n, i % state::REC))
}
fn close(a: f64, b: f64, scale: f64, tol: f64) -> bool { a.to_bits() == b.to_bits() || (a - b).abs() <= tol * scale.max(a.abs()).max(b.abs()) || (a.is_nan() && b.is_nan()) }
// The same records up to rounding (JSON snapshots are decimal); true if they are even identical.
// IAS15 chooses its steps from the last digits of its error estimate, so there a rounding moves the
// record times a little, and with them the positions.
// Where the accelerations are not smooth (tables, close encounters) a rounding can change which steps it takes.
pub fn close_history(got: &[u8], want: &[u8], sc: &Scenario) -> Result<bool, Fail> {
    match aligned_history(got, want, sc) {
        Err(Fail::Violation { .. }) if sc.case.integrator == "ias15" && (sc.case.evolving() || sc.case.tides == "kaula" || sc.case.fate == "encounter") => along_trajectory(got, want, sc).map(|_| false),
        r => r,
    }
}
// Every record lies on the trajectory of the other history, and none is missing.
fn along_trajectory(got: &[u8], want: &[u8], sc: &Scenario) -> Result<(), Fail> {
    let n = sc.case.n_particles();
    let (a, b) = (state::records(got), state::records(want));
    if got.len() % (state::REC * n) != 0 || a.is_empty() { return bad("record-count", format!("{} bytes of history are no whole number of records", got.len())); }
    let (a, b): (Vec<_>, Vec<_>) = (a.chunks(n).collect(), b.chunks(n).collect());
    let gap = b.windows(2).map(|w| w[1][0].time - w[0][0].time).fold(sc.case.hist_period, f64::max);
    for w in a.windows(2) {
        let d = w[1][0].time - w[0][0].time;
        if !(d > 0.0 && d <= 3.0 * gap) { return bad("record-time", format!("record of {} days follows one of {} days", w[1][0].time, w[0][0].time)); }
    }
    let (ta, tb) = (a[a.len() - 1][0].time, b[b.len() - 1][0].time);
    if a[0][0].time != 0.0 || (ta - tb).abs() > 3.0 * gap { return bad("record-time", format!("records from {} to {} days instead of 0 to {} days", a[0][0].time, ta, tb)); }
    let h = sc.case.star_index();
    for g in &a {
        let t = g[0].time;
        let i = match b.iter().rposition(|x| x[0].time <= t) { Some(i) if i + 1 < b.len() => i, _ => continue };
        let (p, q) = (b[i], b[i + 1]);
        let dt = q[0].time - p[0].time;
        let s = (t - p[0].time) / dt;
        for k in 0..n {
            if g[k].id as usize != k || g[k].time != t || g[k].v[9] != p[k].v[9] { return bad("record-value", format!("at {} days: body {} is not in its place", t, k)); }
            if k == h { continue; }
            let (mut err, mut dist) = (0.0, 0.0);
            for c in 0..3 {
                let (x0, x1) = (p[k].v[c] - p[h].v[c], q[k].v[c] - q[h].v[c]);
                let (v0, v1) = ((p[k].v[6 + c] - p[h].v[6 + c]) * dt, (q[k].v[6 + c] - q[h].v[6 + c]) * dt);
                let x = x0 * (1.0 + 2.0 * s) * (1.0 - s).powi(2) + v0 * s * (1.0 - s).powi(2) + x1 * s * s * (3.0 - 2.0 * s) - v1 * s * s * (1.0 - s);
                err += (g[k].v[c] - g[h].v[c] - x).powi(2);
                dist += x * x;
            }
            let step = (0..3).map(|c| (q[k].v[c] - p[k].v[c] - q[h].v[c] + p[h].v[c]).powi(2)).sum::<f64>().sqrt();
            if !(err.sqrt() <= 0.02 * dist.sqrt() + 0.1 * step) { return bad("record-value", format!("at {} days: body {} is off the trajectory by {:e} AU", t, k, err.sqrt())); }
        }
    }
    Ok(())
}
fn aligned_history(got: &[u8], want: &[u8], sc: &Scenario) -> Result<bool, Fail> {
    let ias15 = sc.case.integrator == "ias15";
    let tol = if ias15 { 1e-6 } else { 1e-9 };
    let group = state::REC * sc.case.n_particles();
    let one_off = ias15 && (got.len() == want.len() + group || got.len() + group == want.len());
    if !one_off && got.len() != want.len() { return bad("record-count", format!("{} bytes of history, {} expected", got.len(), want.len())); }
    if got == want { return Ok(true); }
    let (a, b) = (state::records(got), state::records(want));
    let mut scale = vec![0.0f64; 17];
    for x in &b { for i in 0..17 { if x.v[i].is_finite() { scale[i] = scale[i].max(x.v[i].abs()); } } }
    for i in [0, 3, 6].iter() { let m = scale[*i].max(scale[i + 1]).max(scale[i + 2]); for j in 0..3 { scale[i + j] = m; } }
    // fastest angular speed of a body, for what a shift of the record time may change
    let mut omega = 0.0f64;
    for g in b.chunks(sc.case.n_particles()) { if let Some(h) = g.get(sc.case.star_index()) { for y in g {
        let d = |k: usize| (0..3).map(|i| (y.v[k + i] - h.v[k + i]).powi(2)).sum::<f64>().sqrt();
        if d(0) > 1e-3 { omega = omega.max(d(6) / d(0)); }
    } } }
    for (x, y) in a.iter().zip(&b) {
        let dt = (x.time - y.time).abs();
        let slack = if ias15 { 0.1 * y.step.abs() } else { 0.0 };
        let tol = tol + 5.0 * omega * if ias15 { dt } else { 0.0 };
        if x.id != y.id || dt > slack && !close(x.time, y.time, y.time, tol) { return bad("record-time", format!("record of {} days where one of {} days belongs", x.time, y.time)); }
        for i in 0..17 {
            if i == 15 { continue; } // energy loss rate: a small difference of large terms
            if i == 16 && dt > 0.0 { continue; } // migration timescale: without bound at the inner edge of the disk
            // the tables of evolving bodies are steep where their nodes are crowded, and a spin follows its moment of inertia
            let tol = tol + if ias15 && sc.case.evolving() { dt * match i { 10..=14 => 6000.0, 3..=5 => 200.0, _ => 0.0 } } else { 0.0 };
            if !close(x.v[i], y.v[i], scale[i], tol) { return bad("record-value", format!("at {} days body {} field {}: {:e} instead of {:e}", y.time, y.id, i, x.v[i], y.v[i])); }
        }
    }
    Ok(false)
}
// What a resumed simulation must end with.
pub fn end_history(got: &[u8], want: &[u8], sc: &Scenario) -> Result<(), Fail> { if sc.json() { close_history(got, want, sc).map(|_| ()) } else { same_history(got, want, sc.case.n_particles()) } }
pub fn is_prefix(got: &[u8], want: &[u8], n: usize, no: usize) -> Result<(), Fail> {
    if got.len() <= want.len() && got == &want[..got.len()] { return Ok(()); }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    bad("history-not-prefix", format!("after leg {}: history ({} bytes) is not a prefix of the uninterrupted one ({} bytes); first difference at byte {} (record {})", no, got.len(), want.len(), i, i / (state::REC * n)))
}

// ---------------------------------------------------------------------------------------------
// What survives a power loss. Directory changes reach the disk in order, up to some point not
// before the last fsync; of the content of a file, everything up to its last fsync is safe and any
// tail beyond it may be missing.
struct Ino { src: Option<std::path::PathBuf>, len: i64, synced: i64 }
pub fn power_loss(w: &World, before: &BTreeMap<String, Vec<u8>>, run: &Run, seed: u64) -> (BTreeMap<String, Vec<u8>>, String) {
    let mut r = Rng::new(seed);
    let mut inos: Vec<Ino> = vec![];
    let mut map: BTreeMap<String, usize> = BTreeMap::new();
    for (f, b) in before { inos.push(Ino { src: None, len: b.len() as i64, synced: b.len() as i64 }); map.insert(f.clone(), inos.len() - 1); }
    let grave = |k: i64| run.buried.iter().find(|(x, _)| *x == k).map(|(_, g)| w.grave().join(g));
    let mut maps = vec![map.clone()]; // after each directory change
    let mut safe = 0;
    for op in &run.ops {
        match op {
            Op::Open { k, path, existed, ok: true, .. } => {
                if *existed { if let (Some(i), Some(g)) = (map.get(path), grave(*k)) { inos[*i].src = Some(g); } }
                inos.push(Ino { src: None, len: 0, synced: 0 });
                map.insert(path.clone(), inos.len() - 1);
                maps.push(map.clone());
            }
            Op::Write { path, got, .. } if *got > 0 => { if let Some(i) = map.get(path) { inos[*i].len += got; } }
            Op::Rename { k, from, to, ok: true, .. } => {
                if let (Some(i), Some(g)) = (map.get(to), grave(*k)) { inos[*i].src = Some(g); }
                if let Some(i) = map.remove(from) { map.insert(to.clone(), i); }
                maps.push(map.clone());
            }
            Op::Trunc { k, path, to, ok: true } => if let Some(i) = map.get(path).cloned() {
                if let Some(g) = grave(*k) { inos[i].src = Some(g); }
                let synced = inos[i].synced.min(*to);
                inos.push(Ino { src: None, len: *to, synced });
                map.insert(path.clone(), inos.len() - 1);
                maps.push(map.clone());
            },
            Op::Unlink { k, path } => { if let (Some(i), Some(g)) = (map.get(path), grave(*k)) { inos[*i].src = Some(g); } map.remove(path); maps.push(map.clone()); }
            Op::Link { .. } => {}
            Op::Sync { path, ok: true, .. } => { if let Some(i) = map.get(path) { inos[*i].synced = inos[*i].len; } safe = maps.len() - 1; }
            _ => {}
        }
    }
    for (f, i) in &map { if inos[*i].src.is_none() { inos[*i].src = Some(w.path(f)); } }
    let m = if r.chance(0.5) { maps.len() - 1 } else { safe + r.below((maps.len() - safe) as u64) as usize };
    let mut img = BTreeMap::new();
    let mut what = format!("directory changes kept: {} of {}", m, maps.len() - 1);
    for (f, i) in &maps[m] {
        let x = &inos[*i];
        let mut b = match &x.src { Some(p) => std::fs::read(p).unwrap_or_default(), None => before.get(f).cloned().unwrap_or_default() };
        let full = (b.len() as i64).min(x.len.max(x.synced));
        let synced = x.synced.min(full);
        let keep = if full > synced { match r.below(4) { 0 => full, 1 => synced, _ => synced + r.below((full - synced + 1) as u64) as i64 } } else { full };
        b.truncate(keep as usize);
        if keep < full { what += &format!("; {} cut to {} of {} bytes", f, keep, full); }
        img.insert(f.clone(), b);
    }
    (img, what)
}
