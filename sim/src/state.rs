// What a user can see of a simulation: recovery snapshots and the history file.
use serde_json::Value;
use std::collections::BTreeMap;
use std::path::Path;

pub const REC: usize = 156; // bytes per body in one history record

// A decoded recovery snapshot, flattened to path -> bits so that two of them compare exactly.
#[derive(Clone, Debug)]
pub struct State { pub time: f64, pub n_hist: u64, pub leaves: BTreeMap<String, String> }

fn flatten(p: &str, v: &Value, out: &mut BTreeMap<String, String>) {
    match v {
        Value::Object(m) => for (k, x) in m { flatten(&format!("{}.{}", p, k), x, out); },
        Value::Array(a) => {
            if a.len() > 64 && a.iter().all(|x| x.is_number() || x.is_null()) {
                // Long numeric arrays (tables, coefficients): one leaf.
                out.insert(p.into(), format!("#{:x}", crate::rng::fnv(&serde_json::to_string(v).unwrap())));
            } else { for (i, x) in a.iter().enumerate() { flatten(&format!("{}[{}]", p, i), x, out); } }
        }
        Value::Number(n) => { out.insert(p.into(), match n.as_f64() { Some(f) if n.is_f64() => format!("{:e}", f), _ => n.to_string() }); }
        x => { out.insert(p.into(), x.to_string()); }
    }
}
pub fn flat(v: &Value) -> BTreeMap<String, String> { let mut m = BTreeMap::new(); flatten("", v, &mut m); m }
fn from_value(v: &Value) -> Option<State> {
    let mut leaves = BTreeMap::new();
    flatten("", v, &mut leaves);
    Some(State { time: v.get("current_time")?.as_f64()?, n_hist: v.get("n_historic_snapshots")?.as_u64()?, leaves })
}
pub fn decode(bytes: &[u8], json: bool, integrator: &str) -> Option<State> {
    macro_rules! go { ($t:ty) => {{
        let x: $t = if json { serde_json::from_slice(bytes).ok()? } else { bincode::deserialize_from(&mut &bytes[..]).ok()? };
        serde_json::to_value(&x).ok()?
    }} }
    let v = match integrator { "whfast" => go!(posidonius::WHFast), "ias15" => go!(posidonius::Ias15), _ => go!(posidonius::LeapFrog) };
    from_value(&v)
}
// Time and record count only.
pub fn brief(bytes: &[u8], json: bool, integrator: &str) -> Option<(f64, u64)> {
    use posidonius::Integrator;
    macro_rules! go { ($t:ty) => {{
        let x: $t = if json { serde_json::from_slice(bytes).ok()? } else { bincode::deserialize_from(&mut &bytes[..]).ok()? };
        Some((x.get_current_time(), x.get_n_historic_snapshots() as u64))
    }} }
    match integrator { "whfast" => go!(posidonius::WHFast), "ias15" => go!(posidonius::Ias15), _ => go!(posidonius::LeapFrog) }
}
pub fn load(path: &Path, integrator: &str) -> Option<State> {
    let b = std::fs::read(path).ok()?;
    let json = path.extension().map(|e| e == "json").unwrap_or(false);
    decode(&b, json, integrator)
}
// Bookkeeping of recovery itself, not part of the simulated system.
pub fn is_bookkeeping(p: &str) -> bool { p == ".hash" || p == ".last_recovery_snapshot_time" || p == ".recovery_snapshot_period" }
pub fn diff(a: &State, b: &State, ignore: &dyn Fn(&str) -> bool) -> Vec<String> {
    let mut d = vec![];
    for (k, v) in &a.leaves { if ignore(k) { continue; } match b.leaves.get(k) { Some(w) if w == v => {}, Some(w) => d.push(format!("{}: {} != {}", k, v, w)), None => d.push(format!("{}: only one side", k)) } }
    for k in b.leaves.keys() { if !ignore(k) && !a.leaves.contains_key(k) { d.push(format!("{}: only one side", k)); } }
    d
}
pub fn digest(a: &State) -> u64 { let mut s = String::new(); for (k, v) in &a.leaves { if !is_bookkeeping(k) { s.push_str(k); s.push('='); s.push_str(v); s.push(';'); } } crate::rng::fnv(&s) }

#[derive(Clone, Debug)]
pub struct Rec { pub time: f64, pub step: f64, pub id: i32, pub v: Vec<f64> }
pub fn records(b: &[u8]) -> Vec<Rec> {
    b.chunks_exact(REC).map(|c| {
        let f = |o: usize| f64::from_le_bytes([c[o], c[o + 1], c[o + 2], c[o + 3], c[o + 4], c[o + 5], c[o + 6], c[o + 7]]);
        Rec { time: f(0), step: f(8), id: i32::from_le_bytes([c[16], c[17], c[18], c[19]]), v: (0..17).map(|i| f(20 + 8 * i)).collect() }
    }).collect()
}
// times of whole records (one per n bodies); Err if the file is not a sequence of whole, consistent records
pub fn record_times(b: &[u8], n: usize) -> Result<Vec<f64>, String> {
    if b.len() % (REC * n) != 0 { return Err(format!("history has {} bytes, not a multiple of {} bodies x {}", b.len(), n, REC)); }
    let rs = records(b);
    let mut t = vec![];
    for (i, g) in rs.chunks(n).enumerate() {
        for (j, r) in g.iter().enumerate() {
            if r.id != j as i32 { return Err(format!("record {}: body {} where body {} belongs", i, r.id, j)); }
            if r.time.to_bits() != g[0].time.to_bits() { return Err(format!("record {}: bodies at different times {} and {}", i, g[0].time, r.time)); }
        }
        t.push(g[0].time);
    }
    Ok(t)
}
