#![allow(dead_code)]
mod case;
mod chain;
mod exec;
mod props;
mod rng;
mod state;
use chain::{Cache, Fail, Scenario};
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// The library under test prints warnings while a case is built; the report goes to the real standard output.
extern "C" { fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; }
static OUT: AtomicUsize = AtomicUsize::new(1);
fn say(s: String) {
    use std::io::Write;
    use std::os::unix::io::FromRawFd;
    let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(OUT.load(Ordering::SeqCst) as i32) });
    f.write_all((s + "\n").as_bytes()).ok();
}
macro_rules! say { ($($a:tt)*) => { say(format!($($a)*)) } }
fn quiet_stdout() { unsafe { let d = fcntl(1, 1030, 10); if let (true, Ok(n)) = (d >= 0, std::fs::OpenOptions::new().write(true).open("/dev/null")) { use std::os::unix::io::AsRawFd; dup2(n.as_raw_fd(), 1); OUT.store(d as usize, Ordering::SeqCst); } } }

struct Found { batch: usize, i: usize, sc: Scenario, class: String, msg: String }

fn writable(d: &str) -> bool { let p = PathBuf::from(d).join(format!("possim.{}.probe", std::process::id())); let ok = std::fs::write(&p, b"x").is_ok(); std::fs::remove_file(&p).ok(); ok }
fn env_var(k: &str, d: &str) -> String { std::env::var(k).unwrap_or_else(|_| d.to_string()) }

fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap()
}

fn guarded(sc: &Scenario, env: &exec::Env, cache: &mut Cache) -> chain::Res {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::check(sc, env, cache)));
    match r { Ok(x) => x, Err(_) => Err(Fail::Discard("harness panic".into())) }
}

// Smaller scenarios that still fail the same way.
fn candidates(sc: &Scenario) -> Vec<Scenario> {
    let mut v = vec![];
    if sc.prop == "C22" {
        for k in 0..sc.get("n") as usize { let mut s = sc.clone(); s.set(&format!("without{}", k), 1.0); if s != *sc && (0..sc.get("n") as usize).any(|i| s.get(&format!("without{}", i)) == 0.0) { v.push(s); } }
        for (k, x) in [("others", 0.0), ("style", 1.0), ("style", 2.0)].iter() { if sc.get(k) != *x && !(*k == "style" && sc.get(k) == 2.0) { let mut s = sc.clone(); s.set(k, *x); v.push(s); } }
        if !sc.legs.is_empty() { let mut s = sc.clone(); s.legs.clear(); v.push(s); }
    }
    for i in (0..sc.legs.len()).rev() { if sc.legs.len() > if sc.prop == "C06" { 2 } else { 1 } { let mut s = sc.clone(); s.legs.remove(i); v.push(s); } }
    for i in 0..sc.legs.len() {
        let l = &sc.legs[i];
        for j in 0..l.plan.faults.len() { let mut s = sc.clone(); s.legs[i].plan.faults.remove(j); v.push(s); }
        if l.plan.chop.0 > 0 { let mut s = sc.clone(); s.legs[i].plan.chop = (0, 0, 0); v.push(s); }
        if l.plan.rchop.0 > 0 { let mut s = sc.clone(); s.legs[i].plan.rchop = (0, 0, 0); v.push(s); }
        if l.plan.place > 0 { let mut s = sc.clone(); s.legs[i].plan.place = 0; v.push(s); }
        if l.plan.surroundings != 0 { let mut s = sc.clone(); s.legs[i].plan.surroundings = 0; v.push(s); }
        if l.tail > 0 { let mut s = sc.clone(); s.legs[i].tail = 0; v.push(s); }
        if l.mode != "auto" && sc.prop != "C22" { let mut s = sc.clone(); s.legs[i].mode = "auto".into(); v.push(s); }
        if !l.args.is_empty() { let mut s = sc.clone(); s.legs[i].args.clear(); v.push(s); }
    }
    let c = &sc.case;
    macro_rules! with { ($($f:ident = $e:expr),*) => {{ let mut s = sc.clone(); $( s.case.$f = $e; )* if s.case != *c { v.push(s); } }} }
    if c.planets.len() > 1 && c.fate.is_empty() { let mut p = c.planets.clone(); p.pop(); with!(planets = p); }
    if c.planets.len() > if c.fate == "encounter" { 2 } else { 1 } { let mut p = c.planets.clone(); p.remove(0); with!(planets = p); }
    if c.fate == "encounter" { with!(fate = String::new()); }
    if c.n_steps > 12.0 { with!(n_steps = (c.n_steps / 2.0).ceil().max(10.0)); }
    with!(disk = false);
    with!(wind = false);
    with!(gr = "none".to_string());
    if c.tides != "creep" { with!(flattening = false); }
    if c.tides != "none" { with!(tides = "none".to_string(), flattening = false); }
    with!(star_evolution = "none".to_string());
    let p0: Vec<case::Planet> = c.planets.iter().cloned().map(|mut p| { p.jupiter_evolution = 0; p }).collect();
    with!(planets = p0);
    with!(star_at = 0);
    with!(ignored = 0);
    with!(companion = 0.0, disk_elsewhere = false);
    with!(disk_elsewhere = false);
    with!(wind_all = false);
    let p0: Vec<case::Planet> = c.planets.iter().cloned().map(|mut p| { p.spared = 0; p }).collect();
    with!(planets = p0);
    v
}
fn minimise(f: &mut Found, env: &exec::Env, budget: Duration) -> usize {
    let t0 = Instant::now();
    let mut cache = Cache::new();
    let mut tries = 0;
    'again: loop {
        for c in candidates(&f.sc) {
            if t0.elapsed() > budget || tries >= 400 { return tries; }
            tries += 1;
            cache.clear();
            if let Err(Fail::Violation { class, msg }) = guarded(&c, env, &mut cache) {
                if class == f.class { f.sc = c; f.msg = msg; continue 'again; }
            }
        }
        return tries;
    }
}

fn known(verif: &PathBuf, prop: &str, class: &str, sc: &Scenario) -> Option<String> {
    let t = std::fs::read_to_string(verif.join("known_findings.json")).ok()?;
    let v: serde_json::Value = serde_json::from_str(&t).ok()?;
    for k in v.get("known")?.as_array()? {
        if k["property"] == prop && k["class"] == class {
            let integ = k["integrator"].as_str().unwrap_or("");
            if integ.is_empty() || integ == sc.case.integrator { return Some(k["what"].as_str().unwrap_or("").to_string()); }
        }
    }
    None
}

fn setup() -> (exec::Env, PathBuf) {
    let base = PathBuf::from(env_var("SIM_TMP", if writable("/dev/shm") { "/dev/shm" } else { "/tmp" })).join(format!("possim.{}", std::process::id()));
    std::fs::create_dir_all(&base).unwrap();
    case::write_tables(&base);
    // The Python package beside the tables, as the repository lays them out, with its stand-in for pandas.
    let py = env_var("SIM_PY", "/verif/sim/py");
    std::process::Command::new("cp").arg("-r").arg(env_var("POS_PY", "/repo/posidonius")).arg(base.join("posidonius")).status().ok();
    std::fs::copy(PathBuf::from(&py).join("pandas.py"), base.join("pandas.py")).ok();
    std::env::set_current_dir(&base).unwrap();
    (exec::Env { bin: env_var("POS_BIN", "").into(), shim: env_var("SIM_SHIM", "").into(), py: py.into(), base: base.clone(), stats: Arc::new(Default::default()) }, base)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    quiet_stdout();
    let verif = PathBuf::from(env_var("VERIF_DIR", "/verif"));
    std::panic::set_hook(Box::new(|i| eprintln!("harness: {}", i)));
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => run_check(&args[2], args.get(3).map(|s| s.as_str()).unwrap_or("quick"), &verif),
        Some("replay") => replay(&args[2]),
        Some("determinism") => determinism(&args[2], args.get(3).and_then(|s| s.parse().ok()).unwrap_or(20)),
        Some("case") => { // case PROPERTY NUMBER: the case description of a batch
            let seed: u64 = env_var("VERIF_SEED", "1").parse().unwrap_or(1);
            let (_, base) = setup();
            let c = props::gen_batch(&args[2], batch_seed(&args[2], seed, args[3].parse().unwrap()), args[3].parse().unwrap());
            eprintln!("{}", c.label());
            say(big_stack(move || case::case_json(&c)).join().unwrap());
            std::fs::remove_dir_all(&base).ok();
            0
        }
        _ => { eprintln!("usage: posidonius-sim check PROPERTY quick|thorough | replay FILE | determinism PROPERTY [BATCHES] | case PROPERTY NUMBER"); 2 }
    };
    std::process::exit(code);
}

fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) { Ok(t) => t, Err(e) => { eprintln!("{}: {}", file, e); return 2; } };
    let v: serde_json::Value = serde_json::from_str(&text).unwrap();
    let sc: Scenario = serde_json::from_value(v["scenario"].clone()).unwrap();
    let (env, base) = setup();
    let want = v["message"].as_str().unwrap_or("").to_string();
    let prop = sc.prop.clone();
    let f = file.to_string();
    let code = big_stack(move || match guarded(&sc, &env, &mut Cache::new()) {
        Err(Fail::Violation { class, msg }) => { say!("{}: {}", class, msg); say!("reproduced {}", if msg == want { "exactly" } else { "with another message" }); say!("VIOLATION property={} replay={}", prop, f); 1 }
        Err(Fail::Discard(m)) => { say!("not applicable to this tree: {}", m); 0 }
        Ok(_) => { say!("property {} holds on this replay", prop); 0 }
    }).join().unwrap();
    if std::env::var_os("SIM_KEEP").is_none() { std::fs::remove_dir_all(&base).ok(); }
    code
}

fn batch_seed(prop: &str, seed: u64, b: usize) -> u64 { rng::mix(rng::mix(seed, rng::fnv(prop)), b as u64) }

// Every scenario of the batch, as text that depends on everything observed.
fn transcript(prop: &str, bs: u64, b: usize, per: usize, env: &exec::Env) -> String {
    let mut cache = Cache::new();
    let case = props::gen_batch(prop, bs, b);
    let mut out = String::new();
    for i in 0..per {
        let r = match props::gen(prop, bs, i, &case, env, &mut cache) { Ok(sc) => { let mut s = serde_json::to_string(&sc).unwrap(); s = format!("{:x} ", rng::fnv(&s)); s + &format!("{:?}", guarded(&sc, env, &mut cache)) } Err(e) => format!("{:?}", e) };
        out += &format!("{} {}\n", i, r);
    }
    out
}
fn determinism(prop: &str, batches: usize) -> i32 {
    let seed: u64 = env_var("VERIF_SEED", "1").parse().unwrap_or(1);
    let (env, base) = setup();
    let workers: usize = env_var("SIM_WORKERS", "8").parse().unwrap();
    let per = props::PROPS.iter().find(|p| p.id == prop).unwrap().per;
    let next = Arc::new(AtomicUsize::new(0));
    let out = Arc::new(Mutex::new(BTreeMap::new()));
    let p = prop.to_string();
    let hs: Vec<_> = (0..workers).map(|_| { let (next, out, env, p) = (next.clone(), out.clone(), env.clone(), p.clone()); big_stack(move || loop {
        let b = next.fetch_add(1, Ordering::SeqCst);
        if b >= batches { return; }
        let e = exec::Env { stats: Arc::new(Default::default()), ..env.clone() };
        let t = transcript(&p, batch_seed(&p, seed, b), b, per, &e);
        let mut st: Vec<u64> = e.stats.states.lock().unwrap().iter().cloned().collect();
        st.sort();
        let fired = format!("{:?}", e.stats.fired.lock().unwrap());
        out.lock().unwrap().insert(b, format!("{}states {:x} {} ops {}\n", t, rng::fnv(&format!("{:?}", st)), fired, e.stats.ops.load(Ordering::Relaxed)));
    }) }).collect();
    for h in hs { h.join().unwrap(); }
    for (b, t) in out.lock().unwrap().iter() { say!("batch {}\n{}", b, t); }
    if std::env::var_os("SIM_KEEP").is_none() { std::fs::remove_dir_all(&base).ok(); }
    0
}

fn run_check(prop: &str, tier: &str, verif: &PathBuf) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = env_var("VERIF_SEED", "1").parse().unwrap_or(1);
    let spec = match props::PROPS.iter().find(|p| p.id == prop) { Some(p) => p, None => { eprintln!("no such property"); return 2; } };
    let thorough = tier == "thorough";
    let batches = env_var("SIM_BATCHES", "").parse().unwrap_or(if thorough { spec.batches.1 } else { spec.batches.0 });
    let cap = Duration::from_secs(env_var("SIM_CAP", "").parse().unwrap_or(if thorough { 3600 } else { 300 }));
    let workers: usize = env_var("SIM_WORKERS", "").parse().unwrap_or_else(|_| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    say!("simulation of {}: seed {}, {} tier, {} cases x {} scenarios, {} workers", prop, seed, tier, batches, spec.per, workers);
    let (env, base) = setup();
    let next = Arc::new(AtomicUsize::new(0));
    let stop_at = Arc::new(AtomicUsize::new(usize::MAX)); // no batch beyond a failing one is needed
    let found: Arc<Mutex<Vec<Found>>> = Arc::new(Mutex::new(vec![]));
    let keys: Arc<Mutex<(HashSet<String>, Vec<String>)>> = Arc::new(Mutex::new((HashSet::new(), vec![])));
    let scen = Arc::new(AtomicUsize::new(0));
    let disc: Arc<Mutex<BTreeMap<String, usize>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let classes: Arc<Mutex<HashSet<String>>> = Arc::new(Mutex::new(HashSet::new()));
    let capped = Arc::new(AtomicBool::new(false));
    let known_hits: Arc<Mutex<BTreeMap<String, usize>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let per = spec.per;
    let hs: Vec<_> = (0..workers).map(|_| {
        let (next, stop_at, found, keys, scen, disc, classes, env, p, capped, verif, known_hits) = (next.clone(), stop_at.clone(), found.clone(), keys.clone(), scen.clone(), disc.clone(), classes.clone(), env.clone(), prop.to_string(), capped.clone(), verif.clone(), known_hits.clone());
        big_stack(move || {
            let mut cache = Cache::new();
            loop {
                let b = next.fetch_add(1, Ordering::SeqCst);
                if b >= batches || b > stop_at.load(Ordering::SeqCst) { return; }
                if t0.elapsed() > cap { capped.store(true, Ordering::SeqCst); return; }
                let bs = batch_seed(&p, seed, b);
                let case = props::gen_batch(&p, bs, b);
                classes.lock().unwrap().insert(case.class());
                cache.clear();
                for i in 0..if case.n_steps > 10_000.0 { 1 } else { per } {
                    let sc = match props::gen(&p, bs, i, &case, &env, &mut cache) {
                        Ok(sc) => sc,
                        Err(Fail::Discard(m)) => {
                            if p != "C16" { *disc.lock().unwrap().entry(m).or_insert(0) += 1; continue; }
                            Scenario::new(&p, bs, &case)
                        }
                        Err(Fail::Violation { .. }) => continue,
                    };
                    let sc = if b == 0 && i == 0 { props::pinned(&p).unwrap_or(sc) } else { sc };
                    scen.fetch_add(1, Ordering::Relaxed);
                    let ts = Instant::now();
                    let verdict = guarded(&sc, &env, &mut cache);
                    if ts.elapsed() > Duration::from_secs(3) && std::env::var_os("SIM_SLOW").is_some() { eprintln!("slow: {:.1} s {}", ts.elapsed().as_secs_f64(), sc.case.class()); }
                    match verdict {
                        Ok(k) => { let mut g = keys.lock().unwrap(); for x in k { if g.0.insert(x.clone()) && g.1.len() < 12 { g.1.push(x); } } }
                        Err(Fail::Discard(m)) => { scen.fetch_sub(1, Ordering::Relaxed); *disc.lock().unwrap().entry(m).or_insert(0) += 1; }
                        Err(Fail::Violation { class, msg }) => {
                            if let Some(what) = known(&verif, &p, &class, &sc) { *known_hits.lock().unwrap().entry(what).or_insert(0) += 1; continue; }
                            stop_at.fetch_min(b, Ordering::SeqCst);
                            found.lock().unwrap().push(Found { batch: b, i, sc, class, msg });
                            break;
                        }
                    }
                }
            }
        })
    }).collect();
    for h in hs { h.join().ok(); }
    for (what, _) in known_hits.lock().unwrap().iter() { say!("KNOWN-FINDING: property={} {}", prop, what); }
    let wall = t0.elapsed().as_secs_f64();
    let n_scen = scen.load(Ordering::Relaxed);
    let n_disc: usize = disc.lock().unwrap().values().sum();
    let mut found = std::mem::take(&mut *found.lock().unwrap());
    found.sort_by_key(|f| (f.batch, f.i));
    let mut code = 0;
    let mut viol = 0;
    std::fs::create_dir_all(verif.join("evidence")).ok();
    if let Some(mut f) = found.into_iter().next() {
        say!("case {} scenario {} [{}]: {}: {}", f.batch, f.i, f.sc.case.label(), f.class, f.msg);
        let orig = serde_json::to_value(&f.sc).unwrap();
        let env2 = env.clone();
        let (f, tries) = big_stack(move || { let t = minimise(&mut f, &env2, Duration::from_secs(60)); (f, t) }).join().unwrap();
        say!("minimised in {} tries to {} leg(s), {} fault(s) [{}]: {}", tries, f.sc.legs.len(), f.sc.legs.iter().map(|l| l.plan.faults.len()).sum::<usize>(), f.sc.case.label(), f.msg);
        let path = verif.join("evidence").join(format!("replay-{}-{}.json", prop, seed));
        let doc = serde_json::json!({ "property": prop, "seed": seed, "case": f.batch, "scenario_number": f.i, "class": f.class, "message": f.msg, "scenario": f.sc, "before_minimisation": orig });
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).ok();
        say!("VIOLATION property={} replay={}", prop, path.display());
        viol = 1;
        code = 1;
    } else if n_disc * 2 > n_scen + n_disc && n_disc > 4 && prop != "C12" {
        // Almost nothing could be simulated: fault-free runs of well-formed cases do not even finish.
        let m = disc.lock().unwrap().keys().next().cloned().unwrap_or_default();
        let path = verif.join("evidence").join(format!("replay-{}-{}.json", prop, seed));
        std::fs::write(&path, serde_json::to_string_pretty(&serde_json::json!({ "property": prop, "seed": seed, "class": "no-reference", "message": m, "scenario": Scenario::new("C16", seed, &props::gen_batch(prop, batch_seed(prop, seed, 0), 0)) })).unwrap()).ok();
        say!("{} of {} scenarios have no uninterrupted run to compare with: {}", n_disc, n_scen + n_disc, m);
        say!("VIOLATION property={} replay={}", prop, path.display());
        viol = 1;
        code = 1;
    }
    let st = &env.stats;
    let runs = st.runs.load(Ordering::Relaxed);
    let (kn, samples) = { let g = keys.lock().unwrap(); (g.0.len(), g.1.clone()) };
    let ev = serde_json::json!({
        "property": prop, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n_scen, "distinct_nontrivial": kn,
            "rule": "a scenario counts as non-trivial when a fault, stop or damage actually took effect (or, for fault-free properties, when the compared runs really differed in environment or configuration); distinct by case class (integrator, coordinates, bodies, effects), fault kind, operation and file hit",
            "samples": samples.iter().map(|s| serde_json::json!(s)).collect::<Vec<_>>(),
            "simulated_processes": runs,
            "scenarios_per_hour": (n_scen as f64 / wall.max(0.001) * 3600.0) as u64,
            "processes_per_hour": (runs as f64 / wall.max(0.001) * 3600.0) as u64,
            "simulated_seconds": st.sim_ns.load(Ordering::Relaxed) / 1_000_000_000,
            "storage_operations": st.ops.load(Ordering::Relaxed),
            "faults_injected": *st.fired.lock().unwrap(),
            "distinct_storage_states_after_a_leg": st.states.lock().unwrap().len(),
            "distinct_case_classes": classes.lock().unwrap().len(),
            "probes": *st.probes.lock().unwrap(),
            "discarded": disc.lock().unwrap().iter().take(20).map(|(k, v)| (k.clone(), *v)).collect::<BTreeMap<String, usize>>(),
            "known_findings_hit": *known_hits.lock().unwrap(),
            "stopped_by_wall_clock_cap": capped.load(Ordering::SeqCst),
            "real_code": "the release binary of /repo (command line, integrators, effects, snapshot and history code), built from the working tree; for C12 also posidonius/analysis/history.py, for C21 the Python package that writes cases",
            "stubs": "libc file, clock, randomness and allocation entry points (libsim.so); the operator who restarts runs; synthetic evolution tables; for C12 and C21 pandas"
        },
        "wall_s": wall, "violations": viol,
        "assumptions": ["the library's own decoder tells a whole snapshot file from a torn one", "a killed process loses nothing it had handed to the kernel (power loss is modelled separately in C05 and C17)", "cases are small: 2 to 10 bodies, most with up to about a hundred steps, some with thousands, C01 and C02 with one of 80 000"]
    });
    std::fs::write(verif.join("evidence").join(format!("{}.json", prop)), serde_json::to_string_pretty(&ev).unwrap()).ok();
    if std::env::var_os("SIM_KEEP").is_none() { std::fs::remove_dir_all(&base).ok(); }
    if n_disc > 0 { let d = disc.lock().unwrap(); for (m, k) in d.iter().take(6) { say!("discarded {}: {}", k, m); } }
    say!("{}: {} scenarios, {} processes, {} discarded, {:.1} s, {}", prop, n_scen, runs, n_disc, wall, if code == 0 { "held" } else { "VIOLATED" });
    code
}
