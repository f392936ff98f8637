// One simulated process: the real posidonius binary under libsim.so with a plan.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub const RT0: i64 = 1_700_000_000; // 2023-11-14 22:13:20 UTC

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault { pub kind: String, pub at: i64, pub arg: i64 }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub rt: i64,            // start of the wall clock, s
    pub rt_per_read: i64,   // ns added by every wall clock read
    pub mono_per_read: i64, // ns added by every monotonic clock read
    pub per_out: i64,       // ns that pass per progress line written
    pub per_op: i64,        // ns a storage operation takes
    pub seed: i64,          // randomness handed to the process
    pub budget: i64,        // bytes of free space, -1 unlimited
    pub chop: (i64, i64, i64),  // short/interrupted writes: permille, max bytes, seed
    pub rchop: (i64, i64, i64), // short reads
    pub faults: Vec<Fault>,
    // Where the process is started and how it is told its files: 0 in their directory, 1 the same
    // with ./, 2 elsewhere with relative paths, 3 elsewhere with absolute paths.
    #[serde(default)]
    pub place: u8,
    // Which environment variables, terminal and number of processors it sees; 0: none, no, one.
    #[serde(default)]
    pub surroundings: i64,
}
impl Plan {
    pub fn quiet() -> Plan { Plan { rt: RT0, rt_per_read: 1000, mono_per_read: 1000, per_out: 1000, per_op: 1000, seed: 1, budget: -1, chop: (0, 0, 0), rchop: (0, 0, 0), faults: vec![], place: 0, surroundings: 0 } }
    pub fn with(kind: &str, at: i64, arg: i64) -> Plan { let mut p = Plan::quiet(); p.add(kind, at, arg); p }
    pub fn add(&mut self, kind: &str, at: i64, arg: i64) { self.faults.push(Fault { kind: kind.into(), at, arg }); }
    fn text(&self) -> String {
        let mut s = format!("rt {} {}\nmono 1000000000000 {}\nper_out {}\nper_op {}\nseed {}\nbudget {}\n",
            self.rt * 1_000_000_000, self.rt_per_read, self.mono_per_read, self.per_out, self.per_op, self.seed, self.budget);
        if self.chop.0 > 0 { s += &format!("chop {} {} {}\n", self.chop.0, self.chop.1, self.chop.2); }
        if self.rchop.0 > 0 { s += &format!("rchop {} {} {}\n", self.rchop.0, self.rchop.1, self.rchop.2); }
        if self.surroundings != 0 { s += &format!("tty {}\ncpus {}\nasked {}\n", self.surroundings & 1, 1 + self.surroundings / 2 % 61, self.surroundings); }
        for f in &self.faults { s += &format!("{} {} {}\n", f.kind, f.at, f.arg); }
        s
    }
    fn args(&self, args: &[String], data: &Path) -> Vec<String> {
        args.iter().enumerate().map(|(i, a)| {
            let file = i > 0 && i < 4 && !a.starts_with('-') && (args[0] == "start" || i < 3);
            match (file, self.place) {
                (true, 1) => format!("./{}", a),
                (true, 2) => format!("../data/{}", a),
                (true, 3) => format!("{}/{}", data.display(), a),
                _ => a.clone(),
            }
        }).collect()
    }
    fn vars(&self) -> Vec<(&'static str, String)> {
        let mut k = self.surroundings as u64;
        if k == 0 { return vec![]; }
        let mut v = vec![];
        for (n, choice) in [("HOME", ["/root", "/home/u", "/nonexistent"]), ("USER", ["root", "u", ""]), ("LANG", ["C", "de_DE.UTF-8", "tr_TR.UTF-8"]), ("LC_ALL", ["C", "POSIX", "fr_FR.UTF-8"]),
            ("TZ", ["UTC", "America/New_York", "XXX-14"]), ("PATH", ["/usr/bin:/bin", "", "/bin"]), ("TERM", ["dumb", "xterm", ""]), ("TMPDIR", ["/tmp", "/nonexistent", "."]),
            ("COLUMNS", ["80", "1", "x"]), ("HOSTNAME", ["node1", "login", ""]), ("OMP_NUM_THREADS", ["1", "8", "64"]), ("RAYON_NUM_THREADS", ["1", "3", "16"]),
            ("RUST_LOG", ["info", "trace", ""]), ("NO_COLOR", ["1", "", "0"]), ("SLURM_JOB_ID", ["17", "4242", ""])].iter() {
            k = k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let c = (k >> 33) as usize % 4;
            if c < 3 { v.push((*n, choice[c].to_string())); }
        }
        v
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Open { k: i64, path: String, existed: bool, trunc: bool, ok: bool, rt: i64 },
    Write { k: i64, path: String, want: i64, got: i64 },
    Rename { k: i64, from: String, to: String, ok: bool, rt: i64 },
    Trunc { k: i64, path: String, to: i64, ok: bool },
    Sync { k: i64, path: String, ok: bool },
    Unlink { k: i64, path: String },
    Link { k: i64, to: String },
}
impl Op {
    pub fn k(&self) -> i64 { match self { Op::Open { k, .. } | Op::Write { k, .. } | Op::Rename { k, .. } | Op::Trunc { k, .. } | Op::Sync { k, .. } | Op::Unlink { k, .. } | Op::Link { k, .. } => *k } }
    pub fn path(&self) -> &str { match self { Op::Open { path, .. } | Op::Write { path, .. } | Op::Trunc { path, .. } | Op::Sync { path, .. } | Op::Unlink { path, .. } => path, Op::Rename { from, .. } => from, Op::Link { to, .. } => to } }
    pub fn letter(&self) -> char { match self { Op::Open { .. } => 'O', Op::Write { .. } => 'W', Op::Rename { .. } => 'R', Op::Trunc { .. } => 'T', Op::Sync { .. } => 'S', Op::Unlink { .. } => 'U', Op::Link { .. } => 'L' } }
}

#[derive(Clone, Debug, Default)]
pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: String,
    pub stderr: String,
    pub ops: Vec<Op>,
    pub buried: Vec<(i64, String)>, // op, name in grave/
    pub fired: Vec<String>,  // fault kinds that actually happened
    pub killed: bool,        // died at an injected crash
    pub outs: i64,
    pub reads: i64,
    pub stats: i64,
    pub allocs: i64,
    pub mono_first: i64,
    pub mono_last: i64,
    pub trace_hash: u64,
}
impl Run {
    pub fn ok(&self) -> bool { self.code == Some(0) }
    pub fn completed(&self) -> bool { self.ok() && self.stdout.contains("Simulation completed") }
    pub fn limit_stop(&self) -> bool { self.ok() && self.stdout.contains("Reached execution time limit") }
    pub fn end(&self) -> String { match (self.code, self.signal) { (Some(c), _) => format!("exit {}", c), (_, Some(s)) => format!("signal {}", s), _ => "?".into() } }
    pub fn panic_line(&self) -> String { let l: Vec<&str> = self.stderr.lines().filter(|l| !l.starts_with("note:") && !l.trim().is_empty()).collect(); l.iter().rev().take(2).rev().map(|s| s.to_string()).collect::<Vec<_>>().join(" | ").split(" (").map(|p| p.splitn(2, ')').last().filter(|_| p.starts_with(|c: char| c.is_ascii_digit()) && p.contains(") panicked")).unwrap_or(p)).collect::<Vec<_>>().join(" (").replace("'main' (", "'main'").chars().take(300).collect() }
}

#[derive(Default)]
pub struct Stats {
    pub runs: AtomicU64,
    pub sim_ns: AtomicU64,
    pub ops: AtomicU64,
    pub fired: Mutex<BTreeMap<String, u64>>,
    pub probes: Mutex<BTreeMap<String, u64>>,
    pub states: Mutex<std::collections::HashSet<u64>>,
}

#[derive(Clone)]
pub struct Env { pub bin: PathBuf, pub shim: PathBuf, pub py: PathBuf, pub base: PathBuf, pub stats: Arc<Stats> }
impl Env {
    // The interpreter itself, not a script that starts it: the simulator is loaded into one process only.
    fn python(&self) -> &'static str {
        static mut PY: String = String::new();
        static ONCE: std::sync::Once = std::sync::Once::new();
        unsafe {
            ONCE.call_once(|| PY = String::from_utf8(Command::new("python3-vt").args(&["-c", "import sys; print(sys.executable)"]).output().expect("no python3-vt").stdout).unwrap().trim().into());
            &*std::ptr::addr_of!(PY)
        }
    }
    pub fn probe(&self, name: &str) { *self.stats.probes.lock().unwrap().entry(name.into()).or_insert(0) += 1; }
    pub fn probe_n(&self, name: &str, n: u64) { *self.stats.probes.lock().unwrap().entry(name.into()).or_insert(0) += n; }
}

// A scratch world: data/ is the simulated storage and working directory of the processes,
// grave/ keeps file versions that lost their name, meta/ holds plans and traces.
pub struct World { pub dir: PathBuf, pub env: Env, n: u64 }
static NEXT: AtomicU64 = AtomicU64::new(0);
impl World {
    pub fn new(env: &Env) -> World {
        let dir = env.base.join(format!("w{}", NEXT.fetch_add(1, Ordering::SeqCst)));
        for d in ["data", "grave", "meta", "elsewhere"].iter() { fs::create_dir_all(dir.join(d)).unwrap(); }
        World { dir, env: env.clone(), n: 0 }
    }
    pub fn data(&self) -> PathBuf { self.dir.join("data") }
    pub fn grave(&self) -> PathBuf { self.dir.join("grave") }
    pub fn path(&self, f: &str) -> PathBuf { self.data().join(f) }
    pub fn put(&self, f: &str, s: &str) { self.put_bytes(f, s.as_bytes()); }
    pub fn put_bytes(&self, f: &str, s: &[u8]) { if let Some(d) = self.path(f).parent() { fs::create_dir_all(d).unwrap(); } fs::write(self.path(f), s).unwrap(); }
    pub fn read(&self, f: &str) -> Option<Vec<u8>> { fs::read(self.path(f)).ok() }
    pub fn files(&self) -> Vec<String> {
        fn below(d: &Path, prefix: &str, v: &mut Vec<String>) {
            for e in fs::read_dir(d).unwrap().map(|e| e.unwrap()) {
                let f = format!("{}{}", prefix, e.file_name().into_string().unwrap());
                if e.file_type().unwrap().is_dir() { below(&e.path(), &format!("{}/", f), v); } else { v.push(f); }
            }
        }
        let mut v = vec![];
        below(&self.data(), "", &mut v);
        v.sort();
        v
    }
    pub fn clear_grave(&self) { for e in fs::read_dir(self.grave()).unwrap() { fs::remove_file(e.unwrap().path()).ok(); } }
    pub fn image(&self) -> BTreeMap<String, Vec<u8>> { self.files().into_iter().map(|f| { let b = self.read(&f).unwrap_or_default(); (f, b) }).collect() }
    pub fn restore(&self, img: &BTreeMap<String, Vec<u8>>) {
        for f in self.files() { fs::remove_file(self.path(&f)).ok(); }
        for (f, b) in img { fs::write(self.path(f), b).unwrap(); }
    }
    // Two processes; the plan of the first says where the second gets its turn. Returns also the
    // storage before and after the turn of the second.
    pub fn exec_pair(&mut self, args: &[String], plan: &Plan, args2: &[String], plan2: &Plan) -> (Run, Option<Other>) {
        let m = self.dir.join("meta");
        let q = |s: &Path| format!("'{}'", s.display());
        let (pf, tf) = (m.join("plan_other"), m.join("trace_other"));
        fs::write(&pf, plan2.text()).unwrap();
        let script = format!("mkdir {b} {a}\ncp {d}/* {b}\ncd {d}\nenv -i LD_PRELOAD={shim} SIM_ROOT={d} SIM_PLAN={p} SIM_TRACE={t} SIM_GRAVE={g} SIM_GRAVE_NO=500000 RUST_BACKTRACE=0 {bin} {args} >{m}/out_other 2>{m}/err_other </dev/null\necho $? >{m}/rc_other\ncp {d}/* {a}\n",
            b = q(&m.join("before")), a = q(&m.join("after")), d = q(&self.data()), shim = q(&self.env.shim), p = q(&pf), t = q(&tf), g = q(&self.grave()), bin = q(&self.env.bin), m = q(&m), args = args2.iter().map(|a| format!("'{}'", a)).collect::<Vec<_>>().join(" "));
        let sf = m.join("other.sh");
        fs::write(&sf, format!("PATH=/usr/bin:/bin\n{}", script)).unwrap();
        let run = self.exec_with(args, plan, Some(&sf));
        let rc = fs::read_to_string(m.join("rc_other")).ok().and_then(|s| s.trim().parse::<i32>().ok());
        let other = rc.map(|rc| {
            let txt = |f: &str| String::from_utf8_lossy(&fs::read(m.join(f)).unwrap_or_default()).to_string();
            let mut r = Run { code: if rc < 128 { Some(rc) } else { None }, signal: if rc >= 128 { Some(rc - 128) } else { None }, stdout: txt("out_other"), stderr: txt("err_other"), ..Default::default() };
            if !m.join("trace_other").exists() { eprintln!("a process ran without the simulator: {}", r.stderr); std::process::exit(3); }
            parse_trace(&txt("trace_other"), &mut r);
            self.env.stats.runs.fetch_add(1, Ordering::Relaxed);
            self.env.stats.ops.fetch_add(r.ops.len() as u64, Ordering::Relaxed);
            Other { run: r, before: read_dir(&m.join("before")), after: read_dir(&m.join("after")) }
        });
        (run, other)
    }
    pub fn exec(&mut self, args: &[String], plan: &Plan) -> Run { self.exec_with(args, plan, None) }
    // A script of a user of the Python package, with the same storage, clock and surroundings.
    pub fn exec_script(&mut self, script: &str, spec: &str, out: &str, plan: &Plan) -> Run {
        let f = self.dir.join("meta").join("spec.json");
        fs::write(&f, spec).unwrap();
        let out = match plan.place { 1 => format!("./{}", out), 2 => format!("../data/{}", out), 3 => format!("{}/{}", self.data().display(), out), _ => out.to_string() };
        let mut cmd = Command::new(self.env.python());
        cmd.env_clear();
        cmd.args(&["-B", "-s"]).arg(self.env.py.join(script)).arg(&f).arg(out);
        // threads of numerical libraries are not scheduled by the simulator: there are none
        cmd.env("PYTHONPATH", &self.env.base).env("OPENBLAS_NUM_THREADS", "1").env("PYTHONHASHSEED", format!("{}", plan.seed & 0xffff)).env("PYTHONDONTWRITEBYTECODE", "1");
        // nor do they take any answer for an environment variable nobody has set
        self.run(cmd, vec![], plan, &plan.text().replace("\nasked ", "\nnot_asked "))
    }
    // Reads files with the analysis package.
    pub fn exec_reader(&mut self, files: &[PathBuf], plan: &Plan) -> Run {
        let cmd = self.reader(files);
        self.run(cmd, vec![], plan, &plan.text().replace("\nasked ", "\nnot_asked "))
    }
    pub fn reader(&self, files: &[PathBuf]) -> Command {
        let lf = self.dir.join("meta").join("list");
        fs::write(&lf, files.iter().map(|f| format!("{}\n", f.display())).collect::<String>()).unwrap();
        let mut cmd = Command::new(self.env.python());
        cmd.env_clear();
        cmd.args(&["-B", "-s"]).arg(self.env.py.join("reader.py")).arg(&lf);
        cmd.env("PYTHONPATH", format!("{}:{}", self.env.py.display(), "/repo")).env("OPENBLAS_NUM_THREADS", "1").env("PYTHONHASHSEED", "0").env("PYTHONDONTWRITEBYTECODE", "1");
        cmd
    }
    fn spawn(&mut self, args: &[String], plan: &Plan, who: usize) -> Live {
        use std::os::unix::io::AsRawFd;
        use std::os::unix::process::CommandExt;
        self.n += 1;
        let m = self.dir.join("meta");
        let (pf, tf, of, ef) = (m.join(format!("plan{}", self.n)), m.join(format!("trace{}", self.n)), m.join(format!("out{}", self.n)), m.join(format!("err{}", self.n)));
        fs::write(&pf, plan.text()).unwrap();
        let (mine, theirs) = std::os::unix::net::UnixStream::pair().unwrap();
        let fd = theirs.as_raw_fd();
        let mut cmd = if args[0] == "@reader" {
            fs::write(&pf, plan.text().replace("\nasked ", "\nnot_asked ")).unwrap();
            self.reader(&args[1..].iter().map(PathBuf::from).collect::<Vec<_>>())
        } else {
            let mut cmd = Command::new(&self.env.bin);
            cmd.env_clear();
            cmd.args(plan.args(args, &self.data()));
            cmd
        };
        for (n, v) in plan.vars() { cmd.env(n, v); }
        cmd.current_dir(if plan.place > 1 { self.dir.join("elsewhere") } else { self.data() })
            .env("LD_PRELOAD", &self.env.shim).env("SIM_ROOT", self.data()).env("SIM_PLAN", &pf).env("SIM_TRACE", &tf).env("SIM_GATE", "950").env("SIM_WHO", format!("{}", who)).env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null()).stdout(fs::File::create(&of).unwrap()).stderr(fs::File::create(&ef).unwrap());
        unsafe { cmd.pre_exec(move || { if libc::dup2(fd, 950) < 0 { return Err(std::io::Error::last_os_error()); } Ok(()) }); }
        let child = cmd.spawn().expect("cannot run the posidonius binary");
        Live { child, gate: mine, files: [tf, of, ef, pf], place: plan.place }
    }
    fn reap(&self, mut l: Live) -> Run {
        use std::os::unix::process::ExitStatusExt;
        let st = l.child.wait().unwrap();
        let txt = |f: &PathBuf| String::from_utf8_lossy(&fs::read(f).unwrap_or_default()).to_string();
        let mut r = Run { code: st.code(), signal: st.signal(), stdout: txt(&l.files[1]), stderr: txt(&l.files[2]), ..Default::default() };
        if l.place == 3 { let d = format!("{}/", self.data().display()); r.stdout = r.stdout.replace(&d, ""); r.stderr = r.stderr.replace(&d, ""); }
        if !l.files[0].exists() { eprintln!("a process ran without the simulator: {}", r.stderr); std::process::exit(3); }
        parse_trace(&txt(&l.files[0]), &mut r);
        for f in &l.files { fs::remove_file(f).ok(); }
        let s = &self.env.stats;
        s.runs.fetch_add(1, Ordering::Relaxed);
        s.ops.fetch_add(r.ops.len() as u64, Ordering::Relaxed);
        s.sim_ns.fetch_add((r.mono_last - r.mono_first).max(0) as u64, Ordering::Relaxed);
        if !r.fired.is_empty() { let mut m = s.fired.lock().unwrap(); for f in &r.fired { *m.entry(f.clone()).or_insert(0) += 1; } }
        r
    }
    // Several operators share the storage. Only one process at a time runs, from one access to the
    // storage to the next, and `turn` says whose turn it is; `next` is the next command of an operator,
    // given what became of the last one. Returns what ran for every operator, and the turns taken.
    pub fn exec_together(&mut self, ids: &[usize], turn: &mut dyn FnMut(&[usize]) -> usize, next: &mut dyn FnMut(&World, usize, &[Run]) -> Option<(Vec<String>, Plan)>) -> (Vec<Vec<Run>>, Vec<u8>) {
        use std::io::{Read, Write};
        let n = ids.iter().max().map(|i| i + 1).unwrap_or(0);
        let mut live: Vec<Option<Live>> = (0..n).map(|_| None).collect();
        let mut runs: Vec<Vec<Run>> = vec![vec![]; n];
        let mut turns = vec![];
        let mut done: Vec<bool> = (0..n).map(|i| !ids.contains(&i)).collect();
        loop {
            let ready: Vec<usize> = (0..n).filter(|i| !done[*i]).collect();
            if ready.is_empty() { return (runs, turns); }
            let i = turn(&ready);
            turns.push(i as u8);
            match live[i].as_mut() {
                // goes on until it wants to touch the storage again, or ends
                Some(l) => { l.gate.write_all(b"g").ok(); }
                None => {
                    let leg = runs[i].len();
                    match next(self, i, &runs[i]) { Some((args, plan)) => { let l = self.spawn(&args, &plan, 1 + i * 100 + leg); live[i] = Some(l); } None => { done[i] = true; continue; } }
                }
            }
            let mut b = [0u8; 1];
            let at_gate = live[i].as_mut().map(|l| matches!(l.gate.read(&mut b), Ok(1))).unwrap();
            if !at_gate { let l = live[i].take().unwrap(); let r = self.reap(l); runs[i].push(r); }
        }
    }
    fn exec_with(&mut self, args: &[String], plan: &Plan, other: Option<&Path>) -> Run {
        let mut cmd = Command::new(&self.env.bin);
        cmd.env_clear();
        if let Some(o) = other { cmd.env("SIM_OTHER", o); }
        self.run(cmd, plan.args(args, &self.data()), plan, &plan.text())
    }
    fn run(&mut self, mut cmd: Command, args: Vec<String>, plan: &Plan, text: &str) -> Run {
        self.n += 1;
        let pf = self.dir.join("meta").join(format!("plan{}", self.n));
        let tf = self.dir.join("meta").join(format!("trace{}", self.n));
        fs::write(&pf, text).unwrap();
        let buried = fs::read_dir(self.grave()).map(|d| d.count()).unwrap_or(0);
        for (n, v) in plan.vars() { cmd.env(n, v); }
        let out = cmd.args(&args).current_dir(if plan.place > 1 { self.dir.join("elsewhere") } else { self.data() })
            .env("LD_PRELOAD", &self.env.shim).env("SIM_ROOT", self.data()).env("SIM_PLAN", &pf).env("SIM_TRACE", &tf).env("SIM_GRAVE", self.grave()).env("SIM_GRAVE_NO", format!("{}", buried))
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).output().expect("cannot run the posidonius binary");
        use std::os::unix::process::ExitStatusExt;
        let mut r = Run { code: out.status.code(), signal: out.status.signal(), stdout: String::from_utf8_lossy(&out.stdout).into(), stderr: String::from_utf8_lossy(&out.stderr).into(), ..Default::default() };
        if plan.place == 3 { let d = format!("{}/", self.data().display()); r.stdout = r.stdout.replace(&d, ""); r.stderr = r.stderr.replace(&d, ""); }
        let trace = fs::read_to_string(&tf).unwrap_or_default();
        if !tf.exists() || trace.is_empty() && r.code == Some(97) { eprintln!("a process ran without the simulator: {}", r.stderr); std::process::exit(3); }
        parse_trace(&trace, &mut r);
        if std::env::var_os("SIM_KEEP").is_none() { fs::remove_file(&tf).ok(); fs::remove_file(&pf).ok(); }
        else { eprintln!("{} {} : {} fired {:?}\n{}\n{}", self.dir.display(), args.join(" "), r.end(), r.fired, r.stdout.replace('\r', "\n"), r.stderr); }
        let st = &self.env.stats;
        st.runs.fetch_add(1, Ordering::Relaxed);
        st.ops.fetch_add(r.ops.len() as u64, Ordering::Relaxed);
        st.sim_ns.fetch_add((r.mono_last - r.mono_first).max(0) as u64, Ordering::Relaxed);
        if !r.fired.is_empty() { let mut m = st.fired.lock().unwrap(); for f in &r.fired { *m.entry(f.clone()).or_insert(0) += 1; } }
        r
    }
}
struct Live { child: std::process::Child, gate: std::os::unix::net::UnixStream, files: [PathBuf; 4], place: u8 }
pub struct Other { pub run: Run, pub before: BTreeMap<String, Vec<u8>>, pub after: BTreeMap<String, Vec<u8>> }
fn read_dir(d: &Path) -> BTreeMap<String, Vec<u8>> { fs::read_dir(d).map(|it| it.filter_map(|e| e.ok()).map(|e| (e.file_name().into_string().unwrap(), fs::read(e.path()).unwrap_or_default())).collect()).unwrap_or_default() }
impl Drop for World { fn drop(&mut self) { if std::env::var_os("SIM_KEEP").is_none() { fs::remove_dir_all(&self.dir).ok(); } } }

fn parse_trace(t: &str, r: &mut Run) {
    let mut h = String::new();
    for l in t.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        let n = |i: usize| f.get(i).and_then(|s| s.parse::<i64>().ok()).unwrap_or(0);
        let s = |i: usize| f.get(i).map(|s| s.to_string()).unwrap_or_default();
        if !l.starts_with("O ") { h.push_str(l); h.push('\n'); } else { h.push_str(l.split(" ino=").next().unwrap()); h.push('\n'); }
        match f[0] {
            "O" => r.ops.push(Op::Open { k: n(1), path: s(2), existed: s(3) == "ex=1", trunc: s(4) == "tr=1", ok: s(5).starts_with("ino"), rt: s(6).trim_start_matches("rt=").parse().unwrap_or(0) }),
            "W" => r.ops.push(Op::Write { k: n(1), path: s(2), want: n(3), got: n(4) }),
            "R" => r.ops.push(Op::Rename { k: n(1), from: s(2), to: s(3), ok: n(4) == 0, rt: s(5).trim_start_matches("rt=").parse().unwrap_or(0) }),
            "T" => r.ops.push(Op::Trunc { k: n(1), path: s(2), to: n(4), ok: n(5) == 0 && f.len() > 5 }),
            "S" => r.ops.push(Op::Sync { k: n(1), path: s(2), ok: n(3) == 0 }),
            "U" => r.ops.push(Op::Unlink { k: n(1), path: s(2) }),
            "L" => r.ops.push(Op::Link { k: n(1), to: s(3) }),
            "B" => r.buried.push((n(1), s(2))),
            "F" => r.fired.push(s(1)),
            "J" => r.fired.push(format!("{}jump", s(1))),
            "X" => { r.fired.push(s(1)); r.killed = true; }
            "P" => r.outs += 1,
            "M" => { if r.mono_first == 0 { r.mono_first = n(1); } r.mono_last = n(1); }
            "E" => for p in &f[1..] {
                let mut kv = p.split('=');
                let (k, v) = (kv.next().unwrap_or(""), kv.next().and_then(|v| v.parse::<i64>().ok()).unwrap_or(0));
                match k { "reads" => r.reads = v, "stats" => r.stats = v, "allocs" => r.allocs = v, _ => {} }
            },
            _ => {}
        }
    }
    r.trace_hash = crate::rng::fnv(&h);
}
pub fn copy(a: &Path, b: &Path) { fs::copy(a, b).unwrap(); }
