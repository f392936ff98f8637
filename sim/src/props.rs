// The properties: how a scenario is drawn from a seed, and what must hold over its history.
use crate::case::{gen_case, masses, table_at, table_love, CaseSpec, GenOpts};
use crate::chain::*;
use crate::exec::{Env, Fault, Op, Plan, Run, World, RT0};
use crate::rng::{mix, Rng};
use crate::state::{self, REC};
use std::collections::BTreeMap;

pub struct Prop { pub id: &'static str, pub batches: (usize, usize), pub per: usize }
pub const PROPS: &[Prop] = &[
    Prop { id: "C01", batches: (250, 2600), per: 5 },
    Prop { id: "C02", batches: (250, 3000), per: 6 },
    Prop { id: "C03", batches: (240, 2600), per: 6 },
    Prop { id: "C04", batches: (300, 3000), per: 9 },
    Prop { id: "C05", batches: (280, 2600), per: 10 },
    Prop { id: "C06", batches: (200, 1500), per: 10 },
    Prop { id: "C07", batches: (320, 3600), per: 4 },
    Prop { id: "C08", batches: (260, 2600), per: 5 },
    Prop { id: "C09", batches: (340, 3600), per: 4 },
    Prop { id: "C10", batches: (360, 3200), per: 5 },
    Prop { id: "C11", batches: (260, 2800), per: 5 },
    Prop { id: "C12", batches: (140, 1200), per: 2 },
    Prop { id: "C13", batches: (240, 2000), per: 4 },
    Prop { id: "C14", batches: (280, 2600), per: 5 },
    Prop { id: "C15", batches: (300, 3600), per: 4 },
    Prop { id: "C16", batches: (450, 3600), per: 3 },
    Prop { id: "C17", batches: (300, 2600), per: 8 },
    Prop { id: "C18", batches: (280, 2600), per: 4 },
    Prop { id: "C19", batches: (220, 1500), per: 12 },
    Prop { id: "C20", batches: (400, 2600), per: 5 },
    Prop { id: "C21", batches: (130, 1300), per: 3 },
    Prop { id: "C22", batches: (200, 2600), per: 4 },
];

const EIO: i64 = 5;
const ERRNOS: [i64; 7] = [5, 28, 122, 13, 30, 24, 27];

// ---------------------------------------------------------------------------------------------
// Generation
fn crash(r: &mut Rng, ops: &[Op], outs: i64, snap: &str, frac: f64) -> Fault {
    let n = ((ops.len() as f64 * frac) as u64).max(1);
    if outs > 0 && r.chance(0.08) { return Fault { kind: "outcrash".into(), at: r.below(((outs as f64 * frac) as u64).max(1)) as i64, arg: 0 }; }
    let mut k = r.below(n) as i64;
    if r.chance(0.55) {
        // inside the replacement of a snapshot
        let v: Vec<i64> = ops.iter().take(n as usize).filter(|o| o.path().starts_with(stem(snap))).map(|o| o.k()).collect();
        if !v.is_empty() { k = *r.pick(&v); }
    }
    let kind = *r.pick(&["crash_before", "crash_after", "crash_mid", "crash_mid"]);
    let arg = if kind == "crash_mid" { *r.pick(&[1, 120, 333, 500, 730, 950, 999]) + r.range(0, 0) } else { 0 };
    Fault { kind: kind.into(), at: k, arg }
}
fn chop(r: &mut Rng, p: &mut Plan) { p.chop = (r.range(100, 900), *r.pick(&[1, 7, 100, 3000]), r.next() as i64 >> 8); }
fn clock(r: &mut Rng, p: &mut Plan, i: usize, rt: &mut i64) {
    *rt += r.range(60, 40000);
    p.rt = *rt;
    p.seed = r.range(1, 1 << 40);
    if r.chance(0.3) { p.add("rtjump", r.range(0, 40), *r.pick(&[-90000, -3600, 50000, 200000, 86400 * 400])); }
    let _ = i;
}
fn crash_legs(r: &mut Rng, sc: &mut Scenario, rf: &Ref, max: i64) {
    let mut rt = RT0 + r.range(0, 86400);
    let n = r.range(1, max);
    for i in 0..n {
        let mut leg = Leg::clean();
        clock(r, &mut leg.plan, i as usize, &mut rt);
        leg.silent = r.chance(0.5);
        let frac = if i == 0 { r.uni(0.15, 1.0) } else { r.uni(0.05, 0.7) };
        if i == 0 && sc.case.n_steps > 70_000.0 {
            // late, after more records than fit in 16 bits
            let k = rf.run.ops.len() as f64 * r.uni(0.86, 0.99);
            leg.plan.add(*r.pick(&["crash_before", "crash_after"]), k as i64, 0);
            sc.legs.push(leg);
            continue;
        }
        let f = crash(r, &rf.run.ops, if leg.silent { 0 } else { rf.run.outs }, &sc.snap, frac);
        leg.plan.faults.push(f);
        if r.chance(0.2) { chop(r, &mut leg.plan); }
        if r.chance(0.15) { leg.mode = "older".into(); } else if r.chance(0.12) { leg.mode = "backup".into(); }
        sc.legs.push(leg);
    }
}
// The first leg ends, by an execution time limit, right before a step that will be rejected and repeated.
fn stop_before_rejection(r: &mut Rng, sc: &mut Scenario, env: &Env, cache: &mut Cache, p: f64) -> Result<(), Fail> {
    if sc.case.fate != "encounter" || sc.legs.is_empty() || !r.chance(p) { return Ok(()); }
    let at = cache.every_step(env, sc)?.before_rejected_steps(sc);
    if at.is_empty() { return Ok(()); }
    env.probe("stopped right before a rejected step");
    let l = &mut sc.legs[0];
    l.plan.faults.clear();
    l.limit = *r.pick(&at) as u64;
    l.plan.mono_per_read = 1_000_000_000;
    Ok(())
}
fn dyadic(prop: &str) -> bool { match prop { "C05" | "C10" | "C11" | "C13" => true, _ => false } }
pub fn gen_batch(prop: &str, seed: u64, batch: usize) -> CaseSpec {
    let mut r = Rng::new(seed);
    let mut o = GenOpts { dyadic: dyadic(prop) || matches!(prop, "C03" | "C14" | "C17") && batch % 6 == 5, ..Default::default() };
    if prop == "C15" { o.force_evolution = true; o.encounter = 0.6; }
    if prop == "C01" || prop == "C11" { o.encounter = 0.6; }
    if prop == "C13" { o.encounter = 0.0; }
    if prop == "C20" { o.fatal = true; o.kaula = false; }
    if prop == "C21" {
        // every table the Python package knows
        let mut all: Vec<(&'static str, f64)> = vec![("b1998", 0.1), ("b1998", 1.0)];
        for k in ["gb2017", "bm2016", "b2015", "l2011"].iter() { all.extend(masses(k).iter().filter(|m| *k != "bm2016" || **m < 1.45).map(|m| (*k, *m))); }
        let e = if batch % 2 == 0 { Some(all[batch / 2 % all.len()]) } else { None };
        o.star = e;
    }
    if prop == "C09" || prop == "C07" { o.max_steps = 110; }
    if prop == "C22" { o.max_steps = 40; }
    if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C07" | "C16" | "C17") { o.long = 0.02; }
    if matches!(prop, "C01" | "C02" | "C12") { o.long = 0.05; }
    if (prop == "C01" || prop == "C02") && batch % 300 == 1 { o.long = 1.0; o.very_long = true; }
    let mut c = gen_case(&mut r, o);
    if prop == "C21" && c.star_evolution == "bm2016" && c.star_mass > 1.45 { c.star_mass = 1.4; } // the Python package has no table of that mass
    if !c.fate.is_empty() && r.chance(0.5) { c.rec_period = c.time_step * 0.3; }
    match prop {
        "C03" if r.chance(0.4) => { c.hist_period = c.time_step * *r.pick(&[7.0, 12.0, 31.0]); }
        "C04" if r.chance(0.3) => { c.hist_period = c.time_step * 0.6; c.rec_period = c.time_step * *r.pick(&[11.0, 25.0]); c.n_steps = c.n_steps.max(50.0); }
        "C08" if r.chance(0.75) => { c.hist_period = 1e-6; }
        "C13" => { c.hist_period = c.time_step * *r.pick(&[1.0, 2.0, 3.0]); if c.integrator == "ias15" { c.hist_period = 1e-6; } }
        "C15" => if c.integrator == "ias15" && r.chance(0.7) {
            c.hist_period = 1e-6;
            if r.chance(0.4) {
                // the first step is far too long and is rejected, after the tables were followed to its end
                if r.chance(0.6) { c.star_evolution = "b2015".into(); c.star_mass = 1.0; }
                let f = r.uni(8.0, 40.0); c.time_step *= f; c.n_steps = (c.n_steps / f).ceil().max(2.0); c.rec_period = c.rec_period.max(c.time_step / f); if c.fate == "encounter" { c.fate_t = c.fate_t.min(0.9 * c.time_step * c.n_steps); }
            } else { c.time_step *= r.uni(1.0, 3.0); }
        },
        "C12" => { c.hist_period = c.time_step * *r.pick(&[0.5, 1.0, 2.0]); }
        "C14" => { c.rec_period = c.time_step * *r.pick(&[1.0, 2.0, 3.0]); }
        "C17" => { c.rec_period = c.time_step * *r.pick(&[1.0, 2.0, 4.0]); }
        _ => {}
    }
    c
}
// Times and periods that come back from a JSON snapshot unchanged, and an integrator that does not choose its steps.
fn exact_in_decimal(c: &CaseSpec) -> bool { c.integrator != "ias15" && [c.time_step, c.hist_period, c.rec_period].iter().all(|x| (x * 128.0).fract() == 0.0) }
pub fn gen(prop: &str, seed: u64, i: usize, case: &CaseSpec, env: &Env, cache: &mut Cache) -> Result<Scenario, Fail> {
    let seed = mix(seed, i as u64 + 1);
    let mut r = Rng::new(seed);
    let mut sc = Scenario::new(prop, seed, case);
    if prop == "C13" || ((prop == "C05" || prop == "C06") && r.chance(0.2)) { sc.snap = "snap.json".into(); if prop == "C05" && sc.case.integrator == "ias15" { sc.case.hist_period = 1e-6; } }
    else if prop == "C19" { sc.snap = r.pick(&["snap.bin", "snap.bin", "snap.json"]).to_string(); }
    else if matches!(prop, "C03" | "C14" | "C17") && exact_in_decimal(case) && r.chance(0.6) { sc.snap = "snap.json".into(); }
    else if matches!(prop, "C01" | "C03" | "C14" | "C16" | "C17") { sc.snap = r.pick(&["snap.bin", "snap.bin", "snap.run.2.bin", "snap.dump"]).to_string(); }
    if prop == "C20" { c20_legs(&mut r, &mut sc, env, cache)?; return Ok(sc); }
    if prop == "C21" { c21_legs(&mut r, &mut sc, env, cache)?; return Ok(sc); }
    let rf = cache.reference(env, &sc)?;
    let nops = rf.run.ops.len() as i64;
    if prop == "C22" { c22_legs(&mut r, &mut sc, &rf); return Ok(sc); }
    match prop {
        "C01" => { crash_legs(&mut r, &mut sc, &rf, 4); stop_before_rejection(&mut r, &mut sc, env, cache, 0.3)?; }
        "C02" => {
            crash_legs(&mut r, &mut sc, &rf, 4);
            for l in sc.legs.iter_mut() {
                if r.chance(0.4) { chop(&mut r, &mut l.plan); }
                if r.chance(0.4) { l.tail = if r.chance(0.06) { r.range(100_000, 3_000_000) } else { r.range(1, 700) }; }
                if r.chance(0.35) {
                    // torn history write
                    let v: Vec<i64> = rf.run.ops.iter().filter(|o| o.path() == HIST && o.letter() == 'W').map(|o| o.k()).collect();
                    if !v.is_empty() { l.plan.faults.retain(|f| !f.kind.contains("crash")); let k = *r.pick(&v); l.plan.add("crash_mid", k, r.range(1, 999)); }
                }
            }
        }
        "C03" => {
            crash_legs(&mut r, &mut sc, &rf, 4);
            for l in sc.legs.iter_mut() {
                l.mode = "auto".into();
                if r.chance(0.5) { l.limit = 100_000_000; }
                if r.chance(0.12) { l.plan.add("staterr", r.range(2, 12), *r.pick(&[EIO, 13, 116])); }
                if r.chance(0.3) { l.args = sv(&["--recovery-snapshot-period"]); l.args.push(format!("{}", case.time_step * *r.pick(&[1.0, 2.0, 3.0, 6.5, 14.0]))); }
            }
            sc.set("limit_last", if r.chance(0.5) { 1.0 } else { 0.0 });
        }
        "C04" => {
            let mut rt = RT0 + r.range(0, 86400);
            if r.chance(0.35) { let mut l = Leg::clean(); clock(&mut r, &mut l.plan, 0, &mut rt); let f = crash(&mut r, &rf.run.ops, 0, &sc.snap, 0.5); l.plan.faults.push(f); sc.legs.push(l); }
            for _ in 0..r.range(1, 2) {
                let mut l = Leg::clean();
                clock(&mut r, &mut l.plan, 1, &mut rt);
                l.silent = r.chance(0.4);
                let e = *r.pick(&ERRNOS);
                // late operations matter as much as early ones
                let k = if r.chance(0.35) { (nops - 1 - r.range(0, 4)).max(0) } else if r.chance(0.5) {
                    let v: Vec<i64> = rf.run.ops.iter().filter(|o| o.path().starts_with(stem(&sc.snap))).map(|o| o.k()).collect();
                    if v.is_empty() { 0 } else { *r.pick(&v) }
                } else { r.range(0, nops - 1) };
                // the operations a resume begins with, with something to cut off the history
                let k = if !sc.legs.is_empty() && r.chance(0.4) { if r.chance(0.7) { l.tail = r.range(1, 700); } r.range(0, 3) } else { k };
                match r.below(13) {
                    0 | 1 | 2 => l.plan.add("err", k, e),
                    3 | 4 => l.plan.add("errfrom", k, e),
                    5 | 6 => { let total: i64 = rf.run.ops.iter().map(|o| if let Op::Write { got, .. } = o { (*got).max(0) } else { 0 }).sum(); l.plan.budget = r.range(0, total); if r.chance(0.4) { l.plan.budget = total - r.range(1, 9000).min(total); } }
                    7 => l.plan.add("outerr", r.range(0, rf.run.outs + 3), *r.pick(&[32, 5, 28])),
                    8 => l.plan.add("oom", r.range(0, rf.run.allocs.max(1)), 0),
                    9 => l.plan.add("rerr", r.range(0, 40), e),
                    10 => { l.plan.add("short", k, r.range(1, 999)); l.plan.add("err", k + 1, e); }
                    11 => { chop(&mut r, &mut l.plan); l.plan.rchop = (r.range(100, 900), *r.pick(&[1, 50, 5000]), r.range(0, 1 << 40)); l.plan.add("reintr", r.range(0, 30), 0); l.plan.add("eintr", k, 0); }
                    _ => { chop(&mut r, &mut l.plan); l.plan.add("eintr", k, 0); l.plan.add("outshort", r.range(0, 20), 0); }
                }
                sc.legs.push(l);
            }
        }
        "C05" => {
            let mut l = Leg::clean();
            if r.chance(0.6) { let f = crash(&mut r, &rf.run.ops, 0, &sc.snap, 1.0); l.plan.faults.push(f); }
            sc.legs.push(l);
            // 0 cut main, 1 cut main near its end, 2 cut history, 3 main missing, 4 main empty, 5 read error, 6 history missing, 7 power loss, 8 stat error, 9 not a snapshot, 10 more than a snapshot
            sc.set("damage", *r.pick(&[0.0, 0.0, 1.0, 1.0, 2.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 7.0, 8.0, 9.0, 10.0, 11.0]));
            sc.set("amount", r.f());
            sc.set("errno", *r.pick(&ERRNOS) as f64);
            sc.set("at", r.range(0, 60) as f64);
        }
        "C06" if r.chance(0.2) => {
            // several starts at the same time, interleaved at every access
            sc.set("race", 3.0);
            sc.set("style", r.below(5) as f64);
            sc.set("turns", r.range(1, 1 << 40) as f64);
            for _ in 0..r.range(2, 4) {
                let mut l = Leg::clean();
                l.silent = r.chance(0.5);
                if r.chance(0.5) { l.plan.rt += r.range(0, 90000); }
                l.plan.seed = r.range(1, 1 << 40);
                if r.chance(0.25) { let f = crash(&mut r, &rf.run.ops, 0, &sc.snap, 1.0); l.plan.faults.push(f); }
                if r.chance(0.2) { chop(&mut r, &mut l.plan); }
                sc.legs.push(l);
            }
        }
        "C06" if r.chance(0.35) => {
            // two starts at the same time: 1 the second gets its turn at a storage operation of the first, 2 at a lookup
            sc.set("race", *r.pick(&[1.0, 1.0, 2.0]));
            sc.set("at", if r.chance(0.6) { r.range(0, 2) } else { r.range(0, nops - 1) } as f64);
            let mut l = Leg::clean();
            if r.chance(0.5) { l.plan.rt += r.range(0, 90000); }
            sc.legs.push(l);
            let mut l = Leg::clean();
            if r.chance(0.5) { let f = crash(&mut r, &rf.run.ops, 0, &sc.snap, 1.0); l.plan.faults.push(f); }
            l.limit = *r.pick(&[0, 0, 1]);
            sc.legs.push(l);
        }
        "C06" => {
            let mut l = Leg::clean();
            if r.chance(0.6) { let f = crash(&mut r, &rf.run.ops, 0, &sc.snap, 1.0); l.plan.faults.push(f); }
            sc.legs.push(l);
            sc.set("which", r.range(1, 3) as f64);
            sc.set("content", r.range(0, 4) as f64);
            let mut p = Plan::quiet();
            if r.chance(0.4) { p.add("staterr", r.range(0, 5), *r.pick(&[EIO, 13, 116, 40])); }
            if r.chance(0.3) { let f = crash(&mut r, &rf.run.ops, 0, &sc.snap, 1.0); p.faults.push(f); }
            if r.chance(0.2) { chop(&mut r, &mut p); }
            let mut l = Leg::plan(p);
            l.silent = r.chance(0.5);
            l.limit = *r.pick(&[0, 0, 5]);
            sc.legs.push(l);
        }
        "C07" => {
            let mut l = Leg::clean();
            l.silent = r.chance(0.5);
            l.limit = *r.pick(&[0, 0, 1_000_000_000, 4_000_000_000]);
            l.plan.rt = r.range(0, 4_000_000_000);
            l.plan.seed = r.range(1, 1 << 50);
            l.plan.rt_per_read = *r.pick(&[0, 1, 1_000_000, 3_600_000_000_000]);
            l.plan.mono_per_read = *r.pick(&[0, 1, 1000, 2_000_000_000]);
            l.plan.per_out = *r.pick(&[0, 1000, 5_000_000_000]);
            l.plan.per_op = *r.pick(&[0, 1000, 7_000_000_000]);
            for _ in 0..r.range(0, 5) { l.plan.add("rtjump", r.range(0, nops), *r.pick(&[-86400 * 300, -43200, -3600, -1, 1, 3600, 43200, 86400 * 40, 86400 * 4000])); }
            for _ in 0..r.range(0, 3) { l.plan.add("monojump", r.range(0, rf.run.outs), *r.pick(&[1, 1000, 3_600_000, 86_400_000])); }
            // the wall clock stays inside the years the program can print
            let total: i64 = l.plan.faults.iter().filter(|f| f.kind == "rtjump").map(|f| f.arg.min(0)).sum();
            l.plan.rt = l.plan.rt.max(86400 - total);
            sc.legs.push(l);
        }
        "C08" => {
            let per_step = case.hist_period < case.time_step * 0.01;
            let mut rt = RT0 + r.range(0, 86400);
            for i in 0..r.range(1, 4) {
                let mut l = Leg::clean();
                clock(&mut r, &mut l.plan, i as usize, &mut rt);
                l.plan.faults.clear();
                if i > 0 && r.chance(0.2) { let f = crash(&mut r, &rf.run.ops, 0, &sc.snap, 0.5); l.plan.faults.push(f); sc.legs.push(l); continue; }
                l.limit = r.range(1, (case.n_steps as i64 / 2).max(2)) as u64;
                if per_step && r.chance(0.75) {
                    l.silent = false;
                    l.plan.per_out = 1_000_000_000;
                    if r.chance(0.3) { l.plan.add("monojump", r.range(8, 8 + case.n_steps as i64 / 2), *r.pick(&[500, 2000, 3_600_000])); }
                } else { l.silent = true; l.plan.mono_per_read = 1_000_000_000; }
                sc.legs.push(l);
            }
        }
        "C09" => {
            let f = case.time_step;
            if r.chance(0.5) { sc.set("rec", f * *r.pick(&[0.1, 1.0, 2.0, 3.3, 6.0, 17.0, 1e6])); } else {
                // historic periods that share some record times with the original ones
                sc.set("hist", case.hist_period * *r.pick(&[2.0, 3.0, 0.5, 4.0, 1e7]));
            }
            if r.chance(0.5) {
                let fl = crash(&mut r, &rf.run.ops, 0, &sc.snap, 0.8);
                sc.legs.push(Leg::plan(Plan { faults: vec![fl], ..Plan::quiet() }));
                if sc.get("rec") > 0.0 && r.chance(0.6) { let mut l = Leg::clean(); l.args = sv(&["--recovery-snapshot-period"]); l.args.push(format!("{}", f * *r.pick(&[0.5, 1.0, 2.0, 4.0, 9.0]))); sc.legs.push(l); }
            }
        }
        "C10" => {
            let mut rt = RT0 + r.range(0, 86400);
            for i in 0..r.range(0, 4) {
                let mut l = Leg::clean();
                clock(&mut r, &mut l.plan, i as usize, &mut rt);
                if r.chance(0.5) { let f = crash(&mut r, &rf.run.ops, 0, &sc.snap, 0.6); l.plan.faults.push(f); }
                else { l.limit = r.range(1, (case.n_steps as i64 / 3).max(2)) as u64; l.plan.mono_per_read = 1_000_000_000; }
                if i > 0 && r.chance(0.6) { l.args = sv(&["--historic-snapshot-period"]); l.args.push(format!("{}", case.time_step * *r.pick(&[1.0, 2.0, 3.0, 0.5, 1.5, 7.0, 2.25]))); }
                if i > 0 && r.chance(0.2) { l.args.push("--recovery-snapshot-period".into()); l.args.push(format!("{}", case.time_step * *r.pick(&[1.0, 3.0, 6.0]))); }
                sc.legs.push(l);
            }
            let mut l = Leg::clean();
            if !sc.legs.is_empty() && r.chance(0.4) { l.args = sv(&["--historic-snapshot-period"]); l.args.push(format!("{}", case.time_step * *r.pick(&[1.0, 2.0, 3.0, 0.5, 1.5]))); }
            sc.legs.push(l);
        }
        "C11" => {
            let n2 = *r.pick(&[1.6, 1.3, 2.2, 1.05, 0.8, 0.6]) * case.n_steps;
            sc.set("n2", n2.round().max(6.0));
            sc.set("kind", if r.chance(0.3) { *r.pick(&[1.0, 1.0, 2.0, 2.0, 3.0]) } else { 0.0 });
            let mut rt = RT0 + r.range(0, 86400);
            let mut l = Leg::clean();
            clock(&mut r, &mut l.plan, 0, &mut rt);
            match r.below(3) {
                0 => {}
                1 => { let f = crash(&mut r, &rf.run.ops, 0, &sc.snap, 0.9); l.plan.faults.push(f); }
                _ => { l.limit = r.range(1, (case.n_steps as i64 / 2).max(2)) as u64; l.plan.mono_per_read = 1_000_000_000; }
            }
            sc.legs.push(l);
            stop_before_rejection(&mut r, &mut sc, env, cache, 0.5)?;
            for i in 0..r.range(0, 2) { let mut l = Leg::clean(); clock(&mut r, &mut l.plan, i as usize, &mut rt); let f = crash(&mut r, &rf.run.ops, 0, &sc.snap, 0.7); l.plan.faults.push(f); sc.legs.push(l); }
            sc.set("forget", if r.chance(0.5) { 1.0 } else { 0.0 });
        }
        "C12" => {
            crash_legs(&mut r, &mut sc, &rf, 1);
            sc.set("cuts", 24.0);
            // the reader itself meets faults, or reads while the simulation goes on
            let mut l = Leg::clean();
            if r.chance(0.6) { let most = 1 + rf.hist.len() as i64 / 8192; l.plan.add("rerr", if r.chance(0.5) { most - r.range(0, most.min(3)) } else { r.range(0, most + 1) }, *r.pick(&[EIO, EIO, 116, 12])); }
            if r.chance(0.4) { l.plan.rchop = (r.range(100, 900), *r.pick(&[1, 50, 5000]), r.range(0, 1 << 40)); if rf.hist.len() > 100_000 { l.plan.rchop.1 = 5000; } }
            if r.chance(0.3) { l.plan.add("reintr", r.range(0, 5), 0); }
            sc.legs.push(l);
            sc.set("style", r.below(5) as f64);
            sc.set("turns", r.range(1, 1 << 40) as f64);
        }
        "C13" => { crash_legs(&mut r, &mut sc, &rf, 3); for l in sc.legs.iter_mut() { if l.mode == "auto" && r.chance(0.5) { l.mode = "backup".into(); } } }
        "C14" => {
            let mut rt = RT0 + r.range(0, 86400 * 30);
            let n = r.range(1, 3);
            for i in 0..n {
                let mut l = Leg::clean();
                l.plan.rt = rt / 43200 * 43200 + match r.below(4) { 0 => r.range(2, 900), 1 => r.range(42300, 43198), _ => r.range(3600, 39000) };
                rt += r.range(0, 90000);
                l.plan.rt_per_read = 1;
                l.plan.per_op = 1;
                for _ in 0..r.range(0, 6) { l.plan.add("rtjump", r.range(0, nops), 43200 * *r.pick(&[1, 1, 1, 2, 3, 60, 730, -1, -2, -5])); }
                if i + 1 < n { let f = crash(&mut r, &rf.run.ops, 0, &sc.snap, 0.8); l.plan.faults.push(f); }
                sc.legs.push(l);
            }
        }
        "C15" => if r.chance(0.75) { crash_legs(&mut r, &mut sc, &rf, 3) },
        "C16" => if r.chance(0.85) {
            crash_legs(&mut r, &mut sc, &rf, 7);
            for l in sc.legs.iter_mut() {
                l.mode = "auto".into();
                if r.chance(0.25) { l.plan.faults.clear(); l.plan.add("err", r.range(0, nops - 1), *r.pick(&ERRNOS)); }
                else if r.chance(0.3) {
                    // stopped by its limit; starting up takes time too
                    l.plan.faults.clear(); l.limit = *r.pick(&[1, 1, 1, 2, 4, 9]);
                    if r.chance(0.5) { l.plan.mono_per_read = 1_000_000_000; } else { l.plan.mono_per_read = 1_000_000; l.plan.per_op = 1_500_000_000; l.plan.per_out = 1_500_000_000; }
                }
            }
        },
        "C18" => if r.chance(0.6) { crash_legs(&mut r, &mut sc, &rf, 2) },
        "C19" => {
            // 0 cut short, 1 missing, 2 empty, 3 read error, 4 lookup error, 5 failing allocation, 6 short and interrupted reads, 7 something else, 8 another field name, 9 error while creating the outputs, 10 followed by something else
            sc.set("damage", *r.pick(&[0.0, 0.0, 1.0, 2.0, 3.0, 3.0, 4.0, 5.0, 6.0, 6.0, 7.0, 8.0, 8.0, 8.0, 9.0, 10.0, 11.0]));
            sc.set("amount", r.f());
            sc.set("errno", *r.pick(&ERRNOS) as f64);
            sc.set("at", r.range(0, 24) as f64);
            let mut l = Leg::clean();
            l.silent = r.chance(0.5);
            sc.legs.push(l);
        }
        "C17" => {
            crash_legs(&mut r, &mut sc, &rf, 3);
            for l in sc.legs.iter_mut() { l.mode = "auto".into(); l.plan.chop = (0, 0, 0); if r.chance(0.15) { l.plan.faults.clear(); } }
            // a device that fails to make something durable, before the power fails
            let syncs: Vec<i64> = rf.run.ops.iter().filter(|o| o.letter() == 'S').map(|o| o.k()).collect();
            for l in sc.legs.iter_mut() { if !syncs.is_empty() && r.chance(0.2) { l.plan.add("err", *r.pick(&syncs), *r.pick(&[5, 28, 122])); } }
        }
        _ => {}
    }
    for l in sc.legs.iter_mut() {
        if r.chance(if prop == "C07" { 0.5 } else { 0.2 }) { l.plan.place = r.range(1, 3) as u8; }
        if r.chance(if prop == "C07" { 0.7 } else { 0.15 }) { l.plan.surroundings = r.range(1, 1 << 40); }
    }
    Ok(sc)
}

// ---------------------------------------------------------------------------------------------
// Checking
fn key_of(sc: &Scenario, s: &Step, rf: &Ref) -> Option<String> {
    // what was hit: integrator, kind of fault, kind of operation, file
    let f = s.run.fired.first()?;
    let k = s.run.ops.len() as i64;
    let op = rf.run.ops.get(k.max(1) as usize - 1);
    Some(format!("{}|{}|{}|{}|{}", sc.case.class(), f, s.what, op.map(|o| o.letter()).unwrap_or('-'), op.map(|o| if o.path() == HIST { "hist" } else { "snap" }).unwrap_or("-")))
}
fn note_state(env: &Env, w: &World) {
    // measure of distinct states reached: file names, lengths and contents after a leg
    let mut h = 0u64;
    for (f, b) in w.image() { h = mix(h, crate::rng::fnv(&f) ^ crate::rng::fnv_bytes(&b)); }
    env.stats.states.lock().unwrap().insert(h);
}
fn unexplained(s: &Step, no: usize) -> Result<(), Fail> {
    if s.run.fired.is_empty() && !s.run.ok() { return bad("refused", format!("leg {}: {} ended with {} though nothing failed: {}", no, s.what, s.run.end(), s.run.panic_line())); }
    Ok(())
}
fn covered(w: &World, sc: &Scenario, no: usize) -> Result<(), Fail> {
    let h = w.read(HIST).map(|b| b.len() as u64).unwrap_or(0);
    for s in snapshots(w, sc) {
        let need = s.n_hist * (REC * sc.case.n_particles()) as u64;
        if h < need { return bad("history-behind-snapshot", format!("after leg {}: {} accounts for {} bytes of history, the file has {}", no, s.name, need, h)); }
    }
    Ok(())
}
fn finished(chain: &Chain, no_legs: usize) -> Result<(), Fail> {
    if chain.done { Ok(()) } else { bad("not-finished", format!("not complete after {} run(s), {} of them without faults", chain.steps.len(), chain.steps.len() - no_legs.min(chain.steps.len()))) }
}

pub fn check(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    match sc.prop.as_str() {
        "C01" => c01(sc, env, cache), "C02" => c02(sc, env, cache), "C03" => c03(sc, env, cache), "C04" => c04(sc, env, cache),
        "C05" => c05(sc, env, cache), "C06" => c06(sc, env, cache), "C07" => c07(sc, env, cache), "C08" => c08(sc, env, cache),
        "C09" => c09(sc, env, cache), "C10" => c10(sc, env, cache), "C11" => c11(sc, env, cache), "C12" => c12(sc, env, cache),
        "C13" => c13(sc, env, cache), "C14" => c14(sc, env, cache), "C15" => c15(sc, env, cache), "C16" => c16(sc, env, cache),
        "C17" => c17(sc, env, cache), "C18" => c18(sc, env, cache), "C19" => c19(sc, env, cache), "C20" => c20(sc, env, cache), "C21" => c21(sc, env, cache), "C22" => c22(sc, env), _ => Err(Fail::Discard("unknown property".into())),
    }
}

fn c01(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let rf = cache.reference(env, sc)?;
    let mut w = World::new(env);
    let mut keys = vec![];
    let chain = run_chain(&mut w, sc, &rf.json, 2, |w, no, s| { unexplained(s, no)?; note_state(env, w); if s.from.is_some() { env.probe("resumes"); } if s.refused_main { env.probe("torn main snapshot refused"); } keys.extend(key_of(sc, s, &rf)); Ok(()) })?;
    finished(&chain, sc.legs.len())?;
    same_history(&w.read(HIST).unwrap_or_default(), &rf.hist, rf.n)?;
    // a stop by the time limit leaves a snapshot at a boundary that has none otherwise
    let all = if sc.legs.iter().any(|l| l.limit > 0) { cache.every_step(env, sc)? } else { rf };
    let t = check_versions(&w, sc, &all, env, true)?;
    env.probe_n("snapshots compared", t.len() as u64);
    Ok(keys)
}
fn c02(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let rf = cache.reference(env, sc)?;
    let n = rf.n;
    for k in 1..rf.rec_times.len() { if !(rf.rec_times[k] > rf.rec_times[k - 1]) { return bad("not-ordered", format!("record {} at {} days follows one at {}", k, rf.rec_times[k], rf.rec_times[k - 1])); } }
    let mut w = World::new(env);
    let mut keys = vec![];
    let chain = run_chain(&mut w, sc, &rf.json, 2, |w, no, s| {
        unexplained(s, no)?;
        note_state(env, w);
        let h = w.read(HIST).unwrap_or_default();
        // before the history is opened by the leg the garbage of the operator is still there
        if s.run.ops.is_empty() && sc.legs.get(no).map(|l| l.tail > 0).unwrap_or(false) { return Ok(()); }
        is_prefix(&h, &rf.hist, n, no)?;
        if h.len() % (REC * n) != 0 { env.probe("torn last record"); }
        covered(w, sc, no)?;
        keys.extend(key_of(sc, s, &rf));
        Ok(())
    })?;
    finished(&chain, sc.legs.len())?;
    let h = w.read(HIST).unwrap_or_default();
    if let Err(e) = state::record_times(&h, n) { return bad("malformed", e); }
    same_history(&h, &rf.hist, n)?;
    Ok(keys)
}
fn c03(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let rf = cache.reference(env, sc)?;
    let ev = cache.with(env, sc, &CaseSpec { hist_period: 1e-6, ..sc.case.clone() })?; // a record at every boundary
    let maxdt = if sc.case.integrator == "ias15" { ev.rec_times.windows(2).map(|p| p[1] - p[0]).fold(ev.rec_times.get(1).cloned().unwrap_or(sc.case.time_step), f64::max) } else { sc.case.time_step };
    let slack = 2.0 * maxdt * (1.0 + 1e-9);
    let mut period: BTreeMap<u64, f64> = BTreeMap::new(); // snapshot -> recovery period in force when it was written
    let n = rf.n;
    let mut w = World::new(env);
    let mut keys = vec![];
    let mut legs = sc.clone();
    if sc.get("limit_last") > 0.0 { legs.legs.push(Leg { limit: 100_000_000, ..Leg::clean() }); }
    let chain = run_chain(&mut w, &legs, &rf.json, 2, |w, no, s| {
        unexplained(s, no)?;
        note_state(env, w);
        let live = snapshots(w, sc);
        let have = best(&live).map(|s| s.time).unwrap_or(-1.0);
        let mut ever = -1.0f64;
        for (_, b) in versions(w, sc) { if let Some((t, _, _)) = rf.raw.get(&crate::rng::fnv_bytes(&b)).map(|t| (*t, 0, false)).or_else(|| quick(&b, &sc.case.integrator, sc.json())) { ever = ever.max(t); } }
        if have < ever { return bad("snapshot-lost", format!("after leg {} ({}): a snapshot of time {} days had been completed, the newest left is {}", no, s.run.end(), ever, if have < 0.0 { "none".into() } else { format!("{}", have) })); }
        if s.refused_main { env.probe("torn main snapshot refused, backup used"); }
        keys.extend(key_of(sc, s, &rf));
        // how far apart the snapshots of this run were, and how much was lost at its end
        let from = s.from.unwrap_or(0.0);
        let p0 = s.from.map(|t| period.get(&t.to_bits()).cloned().unwrap_or(sc.case.rec_period)).unwrap_or(sc.case.rec_period);
        let args = legs.legs.get(no).or(legs.legs.last()).map(|l| l.clone()).unwrap_or_else(Leg::clean);
        let p = if s.from.is_some() { arg_of(&args, "--recovery-snapshot-period").unwrap_or(p0) } else { p0 };
        if p != p0 { env.probe("recovery period changed on resume"); }
        let mut t: Vec<f64> = versions(w, sc).iter().filter_map(|(_, b)| rf.raw.get(&crate::rng::fnv_bytes(b)).cloned().or_else(|| quick(b, &sc.case.integrator, sc.json()).map(|x| x.0))).filter(|t| *t > from).collect();
        for x in &t { period.insert(x.to_bits(), p); }
        t.push(from);
        let h = w.read(HIST).unwrap_or_default();
        let recorded = state::record_times(&h[..h.len() / (REC * n) * (REC * n)], n).ok().and_then(|t| t.last().cloned()).unwrap_or(0.0);
        // a run killed before it came to the history leaves the records of the run before it
        let recorded = if s.before.get(HIST).map_or(false, |b| *b == h) { from } else { recorded };
        let reached = if s.run.completed() { *ev.rec_times.last().unwrap() } else { recorded };
        t.push(reached.max(from));
        t.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for q in t.windows(2) { if q[1] - q[0] > p + slack { return bad("snapshot-gap", format!("leg {} ({}): no recovery snapshot between {} and {} days; period {} days, step at most {}", no, s.what, q[0], q[1], p, maxdt)); } }
        Ok(())
    })?;
    finished(&chain, legs.legs.len())?;
    env.probe_n("snapshots in the bound", period.len() as u64);
    Ok(keys)
}
fn harmless(p: &Plan) -> bool { p.budget < 0 && p.faults.iter().all(|f| matches!(f.kind.as_str(), "eintr" | "short" | "reintr" | "outshort" | "rtjump" | "monojump")) }
fn c04(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let rf = cache.reference(env, sc)?;
    let n = rf.n;
    let mut w = World::new(env);
    let mut keys = vec![];
    let chain = run_chain(&mut w, sc, &rf.json, 2, |w, no, s| {
        unexplained(s, no)?;
        note_state(env, w);
        let foreign = sc.legs.iter().take(no + 1).any(|l| l.tail > 0); // a refused resume leaves what was appended before it
        if s.run.ok() || !foreign { is_prefix(&w.read(HIST).unwrap_or_default(), &rf.hist, n, no)?; }
        let harmless = sc.legs.get(no).map(|l| harmless(&l.plan)).unwrap_or(true);
        if harmless && !s.run.ok() { return bad("not-harmless", format!("leg {}: only short or interrupted transfers ({}), yet {}: {}", no, s.run.fired.join(","), s.run.end(), s.run.panic_line())); }
        if s.run.ok() {
            if s.run.completed() { if let Err(Fail::Violation { msg, .. }) = same_history(&w.read(HIST).unwrap_or_default(), &rf.hist, n) { return bad("silent-history-loss", format!("leg {}: exit 0 after {:?}, but {}", no, s.run.fired, msg)); } }
            let main = snapshots(w, sc).into_iter().find(|x| x.name == sc.snap);
            match main {
                None => return bad("silent-snapshot-loss", format!("leg {}: exit 0 after {:?}, but there is no whole recovery snapshot in {}", no, s.run.fired, sc.snap)),
                Some(m) => if s.run.completed() && m.time != rf.last_time() { return bad("silent-snapshot-loss", format!("leg {}: exit 0 after {:?}, but the recovery snapshot is of time {} days instead of {}", no, s.run.fired, m.time, rf.last_time())); },
            }
            for (i, o) in s.run.ops.iter().enumerate() {
                if let Op::Sync { path, ok: false, .. } = o {
                    if !s.run.ops[i + 1..].iter().any(|x| matches!(x, Op::Sync { path: p, ok: true, .. } if p == path)) { return bad("silent-sync-failure", format!("leg {}: exit 0 although {} could not be brought to the disk ({:?})", no, path, s.run.fired)); }
                }
            }
            if no == 0 && s.run.ops.iter().any(|o| matches!(o, Op::Rename { ok: false, .. })) {
                // the same run, the same clock, no error
                let names = |r: &Run| r.ops.iter().filter_map(|o| if let Op::Rename { to, .. } = o { Some(to.clone()) } else { None }).collect::<Vec<_>>();
                let mut leg = sc.legs.get(0).cloned().unwrap_or_else(Leg::clean);
                let quiet = Plan::quiet();
                leg.plan.faults.retain(|f| f.kind.contains("jump"));
                leg.plan.budget = quiet.budget; leg.plan.chop = quiet.chop; leg.plan.rchop = quiet.rchop;
                let mut w2 = World::new(env);
                w2.put("case.json", &rf.json);
                let run = w2.exec(&start_args(&sc.snap, &leg), &leg.plan);
                if run.ok() && names(&run) == names(&s.run) { env.probe("failed rename survived"); if let Some(d) = changed(&w2.image(), &w.image()) { return bad("silent-rename-failure", format!("leg {}: exit 0 after {:?}, but {}, compared with a run without errors", no, s.run.fired, d)); } }
            }
        } else if !s.run.fired.is_empty() && !s.run.killed { env.probe("error reported by exit status"); }
        if s.run.ok() && !s.run.fired.is_empty() && !harmless { env.probe("error survived with full result"); }
        keys.extend(key_of(sc, s, &rf));
        Ok(())
    })?;
    finished(&chain, sc.legs.len())?;
    same_history(&w.read(HIST).unwrap_or_default(), &rf.hist, n)?;
    check_versions(&w, sc, &rf, env, true)?;
    Ok(keys)
}
fn c05(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let rf = cache.reference(env, sc)?;
    let n = rf.n;
    let mut w = World::new(env);
    w.put("case.json", &rf.json);
    let s0 = step(&mut w, sc, &sc.legs[0], 0)?;
    let mut img = w.image();
    let kind = sc.get("damage") as i64;
    let amount = sc.get("amount");
    let mut plan = Plan::quiet();
    let snaps = snapshots(&w, sc);
    if kind != 7 {
        // a whole main snapshot to damage
        let b = match best(&snaps) { Some(b) => b.clone(), None => return Err(Fail::Discard("no snapshot yet".into())) };
        let whole = w.read(&b.name).unwrap();
        let hist = img.get(HIST).cloned().unwrap_or_default();
        let need = b.n_hist as usize * REC * n;
        img.insert(sc.snap.clone(), whole.clone());
        match kind {
            0 => { let l = (whole.len() as f64 * amount) as usize; img.insert(sc.snap.clone(), whole[..l.min(whole.len() - 1)].to_vec()); }
            1 => { let l = (2500.0 * amount) as usize + 1; img.insert(sc.snap.clone(), whole[..whole.len() - l.min(whole.len())].to_vec()); }
            2 => { let l = ((need as f64) * if amount < 0.3 { 1.0 - amount * 0.01 } else { amount }) as usize; img.insert(HIST.into(), hist[..l.min(need - 1).min(hist.len())].to_vec()); }
            3 => { img.remove(&sc.snap); }
            4 => { img.insert(sc.snap.clone(), vec![]); }
            5 => plan.add("rerr", sc.get("at") as i64, sc.get("errno") as i64),
            6 => { img.remove(HIST); }
            11 => if amount < 0.3 { img.remove(HIST); },
            8 => plan.add("staterr", (sc.get("at") / 15.0) as i64, sc.get("errno") as i64),
            10 => { let mut b = whole.clone(); match (amount * 4.0) as usize { 0 => b.push(b'x'), 1 => b.extend_from_slice(&whole), 2 => b.extend_from_slice(&hist), _ => b.extend(std::iter::repeat(0).take(8 + (5000.0 * amount) as usize)) }; img.insert(sc.snap.clone(), b); }
            _ => { img.insert(sc.snap.clone(), if amount < 0.5 { hist.clone() } else { vec![b'x'; (1.0 + 5000.0 * amount) as usize] }); }
        }
        w.restore(&img);
        let before = w.image();
        let run = w.exec(&resume_args(if kind == 11 { "case.json" } else { &sc.snap }, &Leg::clean()), &plan);
        note_state(env, &w);
        let after = w.image();
        let name = ["snapshot cut short", "snapshot cut short near its end", "history shorter than accounted for", "snapshot missing", "snapshot empty", "read error", "history missing", "", "lookup error", "not a snapshot", "snapshot followed by other bytes", "the case description instead of a snapshot"][kind as usize];
        let desc = format!("{} (amount {:.6}, main {} of {} bytes, history {} of {} needed)", name, amount, before.get(&sc.snap).map(|b| b.len()).unwrap_or(0), whole.len(), before.get(HIST).map(|b| b.len()).unwrap_or(0), need);
        if kind == 5 || kind == 8 {
            if run.fired.is_empty() { return Ok(vec![]); }
            if run.ok() { end_history(&after[HIST], &rf.hist, sc).map_err(|e| match e { Fail::Violation { msg, .. } => Fail::Violation { class: "wrong-result".into(), msg: format!("{}: accepted, but {}", desc, msg) }, x => x })?; }
            else if run.ops.is_empty() || kind == 5 { if let Some(d) = changed(&before, &after) { return bad("refusal-altered", format!("{}: refused, but {} altered", desc, d)); } }
            env.probe(if run.ok() { "read or lookup error survived" } else { "read or lookup error refused" });
        } else {
            if run.ok() || run.stdout.contains("Simulation completed") { return bad("damaged-accepted", format!("{}: resume ended with {}", desc, run.end())); }
            if let Some(d) = changed(&before, &after) { return bad("refusal-altered", format!("{}: refused, but {} altered", desc, d)); }
            env.probe(&format!("refused: {}", name));
        }
        return Ok(vec![format!("{}|{}|{}", sc.case.class(), kind, (amount * 20.0) as i64)]);
    }
    // power loss: whatever is accepted must lead to the right result
    let base: BTreeMap<String, Vec<u8>> = s0.before.clone();
    let (img, what) = power_loss(&w, &base, &s0.run, sc.seed);
    w.restore(&img);
    let names: Vec<String> = w.files().into_iter().filter(|f| keeps(f, &sc.snap)).collect();
    for f in names {
        w.restore(&img);
        if f.ends_with(".json") != sc.json() { continue; }
        let before = w.image();
        let run = w.exec(&resume_args(&f, &Leg::clean()), &Plan::quiet());
        if run.ok() {
            env.probe("accepted after power loss");
            if !run.completed() { return bad("wrong-result", format!("power loss ({}), resume {}: {}", what, f, run.end())); }
            let got = w.read(HIST).unwrap_or_default();
            if let Err(Fail::Violation { msg, .. }) = end_history(&got, &rf.hist, sc) { return bad("wrong-result", format!("power loss ({}), resume {} accepted: {}", what, f, msg)); }
        } else {
            env.probe("refused after power loss");
            if let Some(d) = changed(&before, &w.image()) { return bad("refusal-altered", format!("power loss ({}), resume {} refused, but {} altered", what, f, d)); }
        }
    }
    Ok(vec![format!("{}|power|{}", sc.case.class(), what)])
}
fn c06(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let rf = cache.reference(env, sc)?;
    if sc.get("race") == 3.0 { return c06_together(sc, env, &rf); }
    if sc.get("race") > 0.0 {
        let mut w = World::new(env);
        w.put("case.json", &rf.json);
        let (l1, l2) = (&sc.legs[0], &sc.legs[1]);
        let mut p = l1.plan.clone();
        p.add(if sc.get("race") == 1.0 { "other" } else { "otherstat" }, sc.get("at") as i64, 0);
        let (run, other) = w.exec_pair(&start_args(&sc.snap, l1), &p, &start_args(&sc.snap, l2), &l2.plan);
        let o = match other { Some(o) => o, None => return Ok(vec![]) };
        note_state(env, &w);
        let end = w.image();
        let at = format!("two starts at once, the second before {} {} of the first", if sc.get("race") == 1.0 { "storage operation" } else { "lookup" }, sc.get("at"));
        if o.before.len() > 1 {
            // the first one has created something already
            if o.run.ok() { return bad("accepted", format!("{}: the second was accepted though {:?} existed", at, o.before.keys().collect::<Vec<_>>())); }
            if let Some(d) = changed(&o.before, &o.after) { return bad("clobbered", format!("{}: the second altered {}", at, d)); }
            if !run.completed() { return bad("disturbed", format!("{}: the first ended with {} {}", at, run.end(), run.panic_line())); }
            end_history(&end[HIST], &rf.hist, sc)?;
            env.probe("second of two starts refused");
        } else if o.after.len() > 1 {
            // the second one was faster
            if let Some(d) = changed(&o.after, &end) { return bad("clobbered", format!("{}: the first altered {} of the second", at, d)); }
            if run.ok() { return bad("accepted", format!("{}: both were accepted", at)); }
            env.probe("first of two starts refused");
        } else if !run.completed() { return bad("disturbed", format!("{}: the second created nothing, the first ended with {} {}", at, run.end(), run.panic_line())); }
        return Ok(vec![format!("{}|race|{}|{}|{}", sc.case.class(), sc.get("race"), sc.get("at"), o.after.len())]);
    }
    let mut w = World::new(env);
    w.put("case.json", &rf.json);
    step(&mut w, sc, &sc.legs[0], 0)?;
    let img0 = w.image();
    let mut img: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let (which, content) = (sc.get("which") as i64, sc.get("content") as i64);
    for (f, b) in &img0 {
        let is_main = *f == sc.snap;
        if is_main && which & 1 == 0 || f == HIST && which & 2 == 0 { continue; }
        img.insert(f.clone(), b.clone());
    }
    for f in [sc.snap.as_str(), HIST].iter() {
        let bit = if *f == HIST { 2 } else { 1 };
        if which & bit == 0 { continue; }
        let old = img0.get(*f).cloned().unwrap_or_default();
        let b = match content { 0 | 1 => old, 2 => vec![], 3 => vec![7; 300], _ => old[..old.len() / 3].to_vec() };
        img.insert(f.to_string(), b);
    }
    w.restore(&img);
    w.clear_grave();
    let leg = &sc.legs[1];
    let before = w.image();
    let run = w.exec(&start_args(&sc.snap, leg), &leg.plan);
    note_state(env, &w);
    let desc = format!("start with existing {} ({}){}", ["", "snapshot", "history", "snapshot and history"][which as usize], ["left by an earlier run", "left by an earlier run", "empty", "foreign", "torn"][content as usize], if run.fired.is_empty() { String::new() } else { format!(" and {}", run.fired.join(",")) });
    if let Some(d) = changed(&before, &w.image()) { return bad("clobbered", format!("{}: {} altered", desc, d)); }
    if run.ok() { return bad("accepted", format!("{}: exit status 0", desc)); }
    env.probe(&format!("refused: {} {}", which, content));
    Ok(vec![format!("{}|{}|{}|{}|{}", sc.case.integrator, sc.snap, which, content, run.fired.join(","))])
}
// Starts of one simulation at the same time, interleaved at every access to the storage.
fn c06_together(sc: &Scenario, env: &Env, rf: &Ref) -> Res {
    let ids: Vec<usize> = (0..sc.legs.len()).collect();
    let mut w = World::new(env);
    w.put("case.json", &rf.json);
    let mut turn = scheduler(sc, &ids, 20);
    let (runs, turns) = w.exec_together(&ids, &mut turn, &mut |_, i, before| if before.is_empty() { Some((start_args(&sc.snap, &sc.legs[i]), sc.legs[i].plan.clone())) } else { None });
    note_state(env, &w);
    let runs: Vec<&Run> = runs.iter().map(|r| &r[0]).collect();
    let ends = || runs.iter().map(|r| format!("{} {}", r.end(), r.panic_line())).collect::<Vec<_>>().join("; ");
    let accepted = runs.iter().filter(|r| r.ok()).count();
    let killed = runs.iter().filter(|r| r.killed).count();
    let what = format!("{} starts at once", runs.len());
    if accepted > 1 { return bad("accepted", format!("{}: {} of them were accepted", what, accepted)); }
    let h = w.read(HIST).unwrap_or_default();
    if killed == 0 && accepted == 0 { return bad("disturbed", format!("{}: none of them was accepted: {}", what, ends())); }
    if accepted == 1 {
        end_history(&h, &rf.hist, sc)?;
        check_versions(&w, sc, rf, env, false)?;
        match snapshots(&w, sc).iter().find(|s| s.name == sc.snap) { Some(s) if s.time == rf.last_time() => {}, s => return bad("clobbered", format!("{}: the snapshot left is of {:?} days, that of one start alone of {}", what, s.map(|s| s.time), rf.last_time())) }
    } else {
        // the one that went on was killed
        is_prefix(&h, &rf.hist, rf.n, 0)?;
        covered(&w, sc, 0)?;
    }
    env.probe_n("changes from one start to another", turns.windows(2).filter(|p| p[0] != p[1]).count() as u64);
    Ok(vec![format!("{}|together|{}|{}|{}", sc.case.class(), sc.get("style"), runs.len(), killed)])
}
fn c07(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let rf = cache.reference(env, sc)?;
    let mut w = World::new(env);
    w.put("case.json", &rf.json);
    let leg = &sc.legs[0];
    let run = w.exec(&start_args(&sc.snap, leg), &leg.plan);
    note_state(env, &w);
    if !run.completed() { return bad("environment-dependent", format!("only clock, randomness or verbosity differ ({:?}), yet {}: {}", run.fired, run.end(), run.panic_line())); }
    same_history(&w.read(HIST).unwrap_or_default(), &rf.hist, rf.n)?;
    let mut t = check_versions(&w, sc, &rf, env, true)?;
    t.sort_by(|a, b| a.partial_cmp(b).unwrap());
    t.dedup();
    if t != rf.times { return bad("snapshot-times", format!("snapshots at {} times, expected {}", t.len(), rf.times.len())); }
    Ok(vec![format!("{}|{}|{}|{}", sc.case.class(), leg.silent, leg.limit > 0, run.fired.len())])
}
fn c08(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let rf = cache.reference(env, sc)?;
    let ev = cache.every_step(env, sc)?;
    let n = rf.n;
    let pos = |t: f64| if t == 0.0 { Some(0) } else { ev.times.iter().position(|x| *x == t).map(|p| p + 1) };
    let mut w = World::new(env);
    let mut keys = vec![];
    let chain = run_chain(&mut w, sc, &rf.json, 2, |w, no, s| {
        unexplained(s, no)?;
        note_state(env, w);
        let leg = match sc.legs.get(no) { Some(l) if l.limit > 0 => l, _ => return Ok(()) };
        let h = w.read(HIST).unwrap_or_default();
        is_prefix(&h, &rf.hist, n, no)?;
        let from = pos(s.from.unwrap_or(0.0));
        let left = from.map(|f| ev.times.len() + 1 - f).unwrap_or(0);
        let lines: Vec<&str> = s.run.stdout.split(|c| c == '\n' || c == '\r').collect();
        let years = lines.iter().filter(|l| l.starts_with("Year:")).count();
        if !leg.silent && leg.plan.per_out == 1_000_000_000 && sc.case.hist_period < sc.case.time_step * 0.01 {
            // one progress line per step, one second per line
            let i0 = lines.iter().position(|l| l.starts_with("Year:")).unwrap_or(0);
            let mut ms = 0i64;
            let mut expect = 0;
            while ms < leg.limit as i64 * 1000 { ms += 1000; for f in &leg.plan.faults { if f.kind == "monojump" && f.at == (i0 + expect) as i64 { ms += f.arg; } } expect += 1; }
            let others = lines.iter().skip(i0).filter(|l| !l.starts_with("Year:") && !l.is_empty() && !l.contains("Reached execution") && !l.contains("Execution time")).count(); // library messages take time too
            if expect <= years.max(left) && s.run.limit_stop() && years + others < expect { return bad("limit-early", format!("leg {}: stopped after {} steps of one second, limit {} s", no, years, leg.limit)); }
            if years > expect { return bad("limit-late", format!("leg {}: ran {} steps of one second, limit {} s", no, years, leg.limit)); }
            if s.run.limit_stop() {
                env.probe("stopped by the limit");
                let m = best(&snapshots(w, sc)).map(|m| m.time).unwrap_or(-1.0);
                match (from, pos(m)) { (Some(a), Some(b)) if b == a + years => {}, (a, b) => return bad("limit-lost-work", format!("leg {}: {} steps were done from boundary {:?}, the snapshot left is of boundary {:?} ({} days)", no, years, a, b, m)) }
            }
        } else if leg.silent && leg.plan.mono_per_read == 1_000_000_000 && s.run.completed() && left as u64 > 4 * leg.limit + 12 {
            return bad("limit-ignored", format!("leg {}: completed {} steps, each lasting at least a second, despite a limit of {} s", no, left, leg.limit));
        }
        if s.run.limit_stop() {
            let main = snapshots(w, sc).into_iter().find(|x| x.name == sc.snap);
            match main {
                None => return bad("limit-no-snapshot", format!("leg {}: stopped by the limit without a whole recovery snapshot", no)),
                Some(m) => {
                    if m.time <= s.from.unwrap_or(0.0) { return bad("limit-no-progress", format!("leg {}: began at {:?} and stopped at {} days", no, s.from, m.time)); }
                    if h.len() as u64 != m.n_hist * (REC * n) as u64 { return bad("limit-history", format!("leg {}: snapshot accounts for {} records, history has {} bytes", no, m.n_hist, h.len())); }
                }
            }
            keys.push(format!("{}|{}|{}|{}", sc.case.class(), leg.limit, years, s.what));
        }
        Ok(())
    })?;
    finished(&chain, sc.legs.len())?;
    same_history(&w.read(HIST).unwrap_or_default(), &rf.hist, n)?;
    check_versions(&w, sc, &ev, env, true)?;
    Ok(keys)
}
fn is_trajectory(p: &str) -> bool { p.starts_with(".universe.particles[") && (p.contains("].inertial_position") || p.contains("].inertial_velocity") || p.contains("].spin.") || p.contains("].angular_momentum.") || p.ends_with("].radius") || p.ends_with("].mass")) }
fn c09(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let rf = cache.reference(env, sc)?;
    let mut other = sc.clone();
    if sc.get("rec") > 0.0 { other.case.rec_period = sc.get("rec"); } else { other.case.hist_period = sc.get("hist"); }
    let json = crate::case::case_json(&other.case);
    let mut w = World::new(env);
    let chain = run_chain(&mut w, &other, &json, 2, |w, no, s| { unexplained(s, no)?; note_state(env, w); Ok(()) })?;
    finished(&chain, sc.legs.len())?;
    let h = w.read(HIST).unwrap_or_default();
    if sc.get("rec") > 0.0 {
        same_history(&h, &rf.hist, rf.n)?;
        // the physical state at common times
        check_versions(&w, sc, &rf, env, false)?;
    } else {
        let bytes = REC * rf.n;
        let t2 = match state::record_times(&h, rf.n) { Ok(t) => t, Err(e) => return bad("malformed", e) };
        let mut common = 0;
        for (i, t) in t2.iter().enumerate() {
            if let Some(j) = rf.rec_times.iter().position(|x| x.to_bits() == t.to_bits()) {
                common += 1;
                if h[i * bytes..(i + 1) * bytes] != rf.hist[j * bytes..(j + 1) * bytes] { return bad("record-differs", format!("record of time {} days differs between historic periods {} and {}", t, sc.case.hist_period, sc.get("hist"))); }
            }
        }
        env.probe_n("common records compared", common);
        for (f, b) in versions(&w, sc) {
            if let Some((t, _, j)) = quick(&b, &sc.case.integrator, false) {
                if let (Some(a), Some(r)) = (state::decode(&b, j, &sc.case.integrator), rf.state_at(t, sc)) {
                    let d = state::diff(&a, &r, &|p| !is_trajectory(p));
                    if !d.is_empty() { return bad("trajectory-differs", format!("{} at {} days: {} between historic periods {} and {}", f, t, d[0], sc.case.hist_period, sc.get("hist"))); }
                    env.probe("common snapshots compared");
                }
            }
        }
    }
    Ok(vec![format!("{}|{}|{}|{}", sc.case.class(), sc.get("rec"), sc.get("hist"), sc.legs.len())])
}
fn arg_of(leg: &Leg, name: &str) -> Option<f64> { leg.args.iter().position(|a| a == name).and_then(|i| leg.args.get(i + 1)).and_then(|v| v.parse().ok()) }
fn c10(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let rf = cache.reference(env, sc)?;
    let ev = cache.every_step(env, sc)?;
    let n = rf.n;
    let mut bounds = vec![0.0];
    bounds.extend(ev.times.iter());
    let fixed = sc.case.integrator != "ias15";
    // the final step reaches a boundary no snapshot is written for; no record is due there either
    let mut last: Vec<f64> = vec![]; // per boundary: time the model counts from after it
    let mut period: Vec<f64> = vec![];
    let mut model: Vec<f64> = vec![];
    let mut w = World::new(env);
    let chain = run_chain(&mut w, sc, &rf.json, 2, |w, no, s| {
        unexplained(s, no)?;
        note_state(env, w);
        let b0 = match s.from { None => 0, Some(t) => match bounds.iter().position(|x| *x == t) { Some(b) => b, None => return bad("snapshot-time", format!("leg {}: resumed from {} days, which is no step boundary", no, t)) } };
        let leg = sc.legs.get(no).cloned().unwrap_or_else(|| Leg { args: sc.legs.last().map(|l| l.args.clone()).unwrap_or_default(), ..Leg::clean() });
        let p0 = if b0 == 0 { sc.case.hist_period } else { period[b0 - 1] };
        let p = if s.from.is_some() { arg_of(&leg, "--historic-snapshot-period").unwrap_or(p0) } else { p0 };
        if p != p0 { env.probe("period changed on resume"); }
        let h = w.read(HIST).unwrap_or_default();
        if no > 0 && s.run.killed && s.before == w.image() { return Ok(()); } // killed before it touched anything
        last.truncate(b0);
        period.truncate(b0);
        model.retain(|t| *t < bounds[b0]);
        let mut l = if b0 == 0 { -1.0 } else { last[b0 - 1] };
        for b in b0..bounds.len() {
            let t = bounds[b];
            if l < 0.0 { model.push(t); l = if fixed { 0.0 } else { t }; }
            else if l + p <= t { model.push(t); l = if fixed { l + p } else { t }; }
            last.push(l);
            period.push(p);
        }
        let got = match state::record_times(&h[..h.len() / (REC * n) * (REC * n)], n) { Ok(t) => t, Err(e) => return bad("malformed", e) };
        for (i, t) in got.iter().enumerate() {
            if model.get(i) != Some(t) { return bad("cadence", format!("after leg {}: record {} is at {} days, due at {:?}; period {} days, step {}", no, i, t, model.get(i), p, sc.case.time_step)); }
        }
        if s.run.completed() && got.len() != model.len() { return bad("cadence", format!("after leg {}: {} records, {} were due; period {} days", no, got.len(), model.len(), p)); }
        if fixed { for r in state::records(&h) { if r.step != sc.case.time_step { return bad("step-field", format!("recorded time step {} instead of {}", r.step, sc.case.time_step)); } } }
        Ok(())
    })?;
    finished(&chain, sc.legs.len())?;
    Ok(vec![format!("{}|{}|{}|{}", sc.case.class(), sc.case.hist_period / sc.case.time_step, sc.legs.iter().map(|l| l.args.join(",")).collect::<Vec<_>>().join(";"), sc.legs.len())])
}
fn c11(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let rf = cache.reference(env, sc)?;
    let n = rf.n;
    let dt = sc.case.time_step;
    let mut w = World::new(env);
    w.put("case.json", &rf.json);
    let s0 = step(&mut w, sc, &sc.legs[0], 0)?;
    unexplained(&s0, 0)?;
    let snaps = snapshots(&w, sc);
    let cur = match best(&snaps) { Some(b) => b.time, None => return Err(Fail::Discard("killed before the first snapshot".into())) };
    let kind = sc.get("kind") as i64;
    if kind == 1 || kind == 3 || (kind == 2 && sc.case.evolving()) {
        let f = Rng::new(sc.seed ^ 0x11).uni(0.0, 1.0);
        let lim = match kind {
            1 => cur * (0.2 + 0.79 * f),
            2 => crate::case::table_end(&sc.case) + 0.1 + 40.0 * f,
            _ => if f < 0.3 { 0.0 } else { (-20.0 * f).round() },
        };
        if kind != 3 && lim <= 0.0 { return Ok(vec![]); }
        // resume exactly what an operator would: the newest whole snapshot, in the main file
        let b = best(&snaps).unwrap().name.clone();
        if b != sc.snap { std::fs::copy(w.path(&b), w.path(&sc.snap)).unwrap(); }
        let before = w.image();
        let mut l = Leg::clean();
        l.args = vec![format!("--time-limit={}", lim)];
        let run = w.exec(&resume_args(&sc.snap, &l), &l.plan);
        note_state(env, &w);
        if run.ok() { return bad("limit-accepted", format!("time limit of {} days accepted at {} days{}", lim, cur, if kind == 2 { ", beyond the evolution table" } else { "" })); }
        if let Some(d) = changed(&before, &w.image()) { return bad("refusal-altered", format!("time limit of {} days refused, but {} altered", lim, d)); }
        env.probe("impossible time limit refused");
        return Ok(vec![format!("{}|refuse{}", sc.case.class(), kind)]);
    }
    let mut n2 = sc.get("n2");
    // the new limit lies at least two steps ahead of every snapshot (steps of the adaptive integrator vary)
    let ev = cache.every_step(env, sc)?;
    let steps = state::records(&ev.hist);
    let mut maxdt = ev.times.windows(2).map(|p| p[1] - p[0]).chain(steps.iter().map(|r| r.step)).fold(dt, f64::max);
    // the step after the last recorded one: IAS15 lets a step grow up to four times
    if sc.case.integrator == "ias15" && !ev.times.iter().any(|t| *t == cur && Some(t) != ev.times.last()) { maxdt *= 4.0; }
    if n2 * dt < cur + 2.5 * maxdt { n2 = ((cur + 2.5 * maxdt) / dt).ceil() + 2.0; }
    let mut c2 = sc.case.clone();
    c2.n_steps = n2;
    let rf2 = cache.with(env, sc, &c2)?;
    let mut rest = sc.clone();
    rest.legs.remove(0);
    let args = { let mut a = sv(&["--time-limit"]); a.push(format!("{}", c2.time_limit())); a };
    let before = w.image();
    // first resume with the option; later ones rely on it having been saved once a snapshot was written since
    let mut told = false;
    let mut done = false;
    for no in 0..rest.legs.len() + 2 {
        let mut leg = rest.legs.get(no).cloned().unwrap_or_else(Leg::clean);
        let wrote = snapshots(&w, sc).iter().map(|s| s.time).fold(0.0, f64::max) > cur;
        if !(told && wrote && sc.get("forget") > 0.0) { leg.args = args.clone(); } else { env.probe("changed limit kept by the snapshot"); }
        told = true;
        let s = step(&mut w, sc, &leg, no + 1)?;
        unexplained(&s, no + 1)?;
        note_state(env, &w);
        if s.run.completed() { done = true; break; }
    }
    let _ = before;
    if !done { return bad("not-finished", "not complete after the time limit was changed".into()); }
    let h = w.read(HIST).unwrap_or_default();
    if let Err(Fail::Violation { msg, .. }) = same_history(&h, &rf2.hist, n) { return bad("limit-change-differs", format!("limit changed from {} to {} days at {} days: {}", sc.case.time_limit(), c2.time_limit(), cur, msg)); }
    env.probe(if n2 > sc.case.n_steps { "limit extended" } else { "limit shortened" });
    for (f, b) in versions(&w, sc) {
        if let Some((t, _, j)) = quick(&b, &sc.case.integrator, false) {
            if rf2.raw.contains_key(&crate::rng::fnv_bytes(&b)) { continue; }
            if let (Some(a), Some(r)) = (state::decode(&b, j, &sc.case.integrator), rf2.state_at(t, sc)) {
                let d = state::diff(&a, &r, &|p| state::is_bookkeeping(p) || p == ".universe.time_limit");
                if !d.is_empty() { return bad("limit-change-differs", format!("limit changed from {} to {} days: {} at {} days: {}", sc.case.time_limit(), c2.time_limit(), f, t, d[0])); }
            }
        }
    }
    Ok(vec![format!("{}|{}|{}", sc.case.class(), (n2 / sc.case.n_steps * 10.0) as i64, rest.legs.len())])
}
// The run nothing happens to, up to the loss of a body.
fn fatal_ref(sc: &Scenario, case: &CaseSpec, env: &Env, cache: &mut Cache) -> Result<std::sync::Arc<(Run, Vec<u8>, String)>, Fail> {
    let key = format!("{}|{}", sc.snap, serde_json::to_string(case).unwrap());
    if let Some(x) = cache.fatal.get(&key) { return Ok(x.clone()); }
    let mut w = World::new(env);
    let json = crate::case::case_json(case);
    w.put("case.json", &json);
    let run = w.exec(&start_args(&sc.snap, &Leg { silent: false, ..Leg::clean() }), &Plan::quiet());
    let x = std::sync::Arc::new((run, w.read(HIST).unwrap_or_default(), json));
    cache.fatal.insert(key, x.clone());
    Ok(x)
}
fn c20_legs(r: &mut Rng, sc: &mut Scenario, env: &Env, cache: &mut Cache) -> Result<(), Fail> {
    let rf = fatal_ref(sc, &sc.case.clone(), env, cache)?;
    let mut rt = RT0 + r.range(0, 86400);
    for i in 0..r.range(0, 4) {
        let mut l = Leg::clean();
        clock(r, &mut l.plan, i as usize, &mut rt);
        l.silent = r.chance(0.5);
        match r.below(4) {
            0 => { l.limit = r.range(1, (sc.case.n_steps as i64 / 4).clamp(2, 60)) as u64; l.plan.mono_per_read = 1_000_000_000; }
            _ => { let f = crash(r, &rf.0.ops, 0, &sc.snap, 1.0); l.plan.faults.push(f); }
        }
        if r.chance(0.3) { l.mode = "older".into(); }
        if r.chance(0.25) { l.args = sv(&["--recovery-snapshot-period"]); l.args.push(format!("{}", sc.case.time_step * *r.pick(&[1.0, 2.0, 5.0]))); }
        sc.legs.push(l);
    }
    Ok(())
}
// A panic message without file position, thread number and time of day.
fn cause(run: &Run) -> String {
    let l = run.panic_line();
    match l.find("UTC]") { Some(i) => l[i + 4..].trim().to_string(), None => l }
}
// Is a pair of bodies of this record lost? Distances relative to the limit; `host` is the most massive body.
fn lost(sc: &Scenario, g: &[state::Rec], tau: f64) -> (f64, f64) {
    let pos = |b: &state::Rec| [b.v[0] + tau * b.v[6], b.v[1] + tau * b.v[7], b.v[2] + tau * b.v[8]];
    let host = sc.case.star_index();
    let (mut near, mut far) = (f64::INFINITY, 0.0f64);
    for i in 0..g.len() { for j in 0..i {
        let (a, b) = (pos(&g[i]), pos(&g[j]));
        let d = ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2) + (a[2] - b[2]).powi(2)).sqrt();
        let (big, small) = if g[i].v[9] > g[j].v[9] { (&g[i], &g[j]) } else { (&g[j], &g[i]) };
        let roche = small.v[10] / 0.462 * (big.v[9] / small.v[9]).powf(1.0 / 3.0);
        near = near.min(d / roche.max(big.v[10] + small.v[10]));
        if i == host || j == host { far = far.max(d); }
    } }
    (near, far)
}
fn c20(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let rf = fatal_ref(sc, &sc.case, env, cache)?;
    let n = sc.case.n_particles();
    let mut every = sc.case.clone();
    every.hist_period = 1e-9;
    every.rec_period = 1e6;
    let ev = fatal_ref(sc, &every, env, cache)?;
    // the geometry of the recorded boundaries says when a body is lost
    let rs = state::records(&ev.1);
    let groups: Vec<&[state::Rec]> = rs.chunks_exact(n).collect();
    let ias = sc.case.integrator == "ias15";
    let out: Vec<bool> = groups.iter().map(|g| { let (near, far) = lost(sc, g, 0.0); near < 0.97 || far > crate::case::MAX_DISTANCE * 1.00001 }).collect();
    for k in 1..out.len() {
        let missed = if ias { out[k - 1] } else { out[k - 1] && out[k] };
        if missed { return bad("loss-missed", format!("the run goes on to {} days although {} at {} days", groups[k][0].time, describe(sc, groups[k - 1]), groups[k - 1][0].time)); }
    }
    if ev.0.ok() {
        if let Some(g) = groups.last() { if !ev.0.completed() || g[0].time + (if ias { 6.0 } else { 3.0 }) * sc.case.time_step.max(g[0].step) < sc.case.time_limit() { return bad("loss-silent", format!("exit 0 after {} days ({}), the time limit is {} days", g[0].time, ev.0.stdout.lines().last().unwrap_or(""), sc.case.time_limit())); } }
        if out.iter().any(|x| *x) { env.probe("lost at the last boundary"); }
        return Err(Fail::Discard("no body is lost within the time limit".into()));
    }
    if ev.0.signal.is_some() { return bad("loss-crash", format!("ended by signal {:?}", ev.0.signal)); }
    let last = groups.last().cloned().unwrap_or(&[]);
    if last.is_empty() { return bad("loss-no-record", format!("no record at all: {}", ev.0.panic_line())); }
    if !ias {
        let dt = sc.case.time_step;
        let hit = (0..=12).any(|i| { let (near, far) = lost(sc, last, dt * i as f64 / 8.0); near < 1.1 || far > crate::case::MAX_DISTANCE * 0.9999 });
        if !hit { return bad("loss-spurious", format!("stopped after {} days ({}) although {}", last[0].time, cause(&ev.0), describe(sc, last))); }
    }
    if rf.0.ok() || cause(&rf.0) != cause(&ev.0) { return bad("loss-differs", format!("with a record per step: {}; with the period of the case: {} {}", cause(&ev.0), rf.0.end(), cause(&rf.0))); }
    // the history holds the records up to that point, whatever happened on the way
    let tr = state::record_times(&rf.1, n).map_err(|e| Fail::Violation { class: "loss-history".into(), msg: e })?;
    let te: Vec<u64> = groups.iter().map(|g| g[0].time.to_bits()).collect();
    if let Some(t) = tr.iter().find(|t| !te.contains(&t.to_bits())) { return bad("loss-history", format!("record at {} days, which is no boundary", t)); }
    if let (Some(a), Some(b)) = (tr.last(), groups.last()) { if b[0].time - a > sc.case.hist_period + 2.0 * sc.case.time_step.max(last[0].step) { return bad("loss-history", format!("last record at {} days although the run got to {} days", a, b[0].time)); } }
    let mut w = World::new(env);
    w.put("case.json", &rf.2);
    let mut keys = vec![];
    for no in 0..sc.legs.len() + 2 {
        let leg = sc.legs.get(no).cloned().unwrap_or_else(Leg::clean);
        let s = step(&mut w, sc, &leg, no)?;
        note_state(env, &w);
        if s.run.completed() { return bad("loss-missed", format!("leg {} ({}): completed although a body is lost: {}", no, s.what, cause(&rf.0))); }
        let h = w.read(HIST).unwrap_or_default();
        is_prefix(&h, &rf.1, n, no)?;
        covered(&w, sc, no)?;
        if s.run.killed { keys.push(format!("{}|{}|{}", sc.case.class(), s.run.fired.first().cloned().unwrap_or_default(), s.what)); continue; }
        if s.run.ok() { if leg.limit == 0 { return bad("loss-missed", format!("leg {} ({}): exit 0 without completing", no, s.what)); } env.probe("stopped by the execution time limit before"); continue; }
        if cause(&s.run) != cause(&rf.0) { return bad("loss-differs", format!("leg {} ({}): ended with {}: {} instead of {}", no, s.what, s.run.end(), cause(&s.run), cause(&rf.0))); }
        same_history(&h, &rf.1, n)?;
        env.probe(if s.from.is_some() { "same end after a resume" } else { "same end" });
        if no >= sc.legs.len() { env.probe(&format!("{}", sc.case.fate)); }
    }
    if keys.is_empty() { keys.push(format!("{}|fault-free", sc.case.class())); }
    Ok(keys)
}
fn describe(sc: &Scenario, g: &[state::Rec]) -> String { let (near, far) = lost(sc, g, 0.0); format!("the closest pair is at {:.4} of its limit, the farthest body at {:.4} AU", near, far) }
// What the Python package makes of the case when nothing happens.
fn script_spec(sc: &Scenario, json: &str, extra: &[(&str, serde_json::Value)]) -> String {
    let c = &sc.case;
    let coords = ["Jacobi", "DemocraticHeliocentric", "WHDS"][c.coords.min(2) as usize];
    let mut v = serde_json::json!({ "case": serde_json::from_str::<serde_json::Value>(json).unwrap(), "integrator": c.integrator, "coords": coords });
    for (k, x) in extra { v[*k] = x.clone(); }
    v.to_string()
}
fn scripted(sc: &Scenario, env: &Env, cache: &mut Cache) -> Result<std::sync::Arc<(Run, Vec<u8>, String)>, Fail> {
    let key = format!("script|{}", serde_json::to_string(&sc.case).unwrap());
    if let Some(x) = cache.fatal.get(&key) { return Ok(x.clone()); }
    let mut w = World::new(env);
    let json = crate::case::case_json(&sc.case);
    let run = w.exec_script("gen.py", &script_spec(sc, &json, &[]), "case.json", &Plan::quiet());
    let x = std::sync::Arc::new((run, w.read("case.json").unwrap_or_default(), json));
    cache.fatal.insert(key, x.clone());
    Ok(x)
}
fn c21_legs(r: &mut Rng, sc: &mut Scenario, env: &Env, cache: &mut Cache) -> Result<(), Fail> {
    let x = scripted(sc, env, cache)?;
    let (n, len) = (x.0.ops.len() as i64, x.1.len() as i64);
    let mut rt = RT0 + r.range(0, 86400);
    // the last writes are those of the end of the script
    let at = |r: &mut Rng| if r.chance(0.4) { (n - 1 - r.range(0, 2)).max(0) } else { r.below(n.max(1) as u64) as i64 };
    for i in 0..r.range(1, 3) {
        let mut l = Leg::clean();
        clock(r, &mut l.plan, i as usize, &mut rt);
        match r.below(8) {
            0 | 1 => { let k = at(r); l.plan.add("err", k, *r.pick(&ERRNOS)); }
            2 => { let k = at(r); l.plan.add("errfrom", k, *r.pick(&ERRNOS)); }
            3 => l.plan.budget = if r.chance(0.4) { (len - r.range(1, 9000)).max(0) } else { r.range(0, len.max(1)) },
            4 => chop(r, &mut l.plan),
            5 => { let k = at(r); let kind = *r.pick(&["crash_before", "crash_after", "crash_mid"]); l.plan.add(kind, k, 500); }
            6 => l.plan.add("outerr", r.range(0, 1), *r.pick(&[28, 32, 5])),
            _ => {}
        }
        if r.chance(0.4) { l.plan.surroundings = r.range(1, 1 << 40); }
        if r.chance(0.4) { l.plan.place = r.below(4) as u8; }
        sc.legs.push(l);
    }
    sc.set("old", r.below(3) as f64);
    sc.set("more", r.below(2) as f64);
    if sc.case.evolving() { let most = *r.pick(&[0.9, 100.0]); sc.set("limit", r.uni(0.01, most) * if r.chance(0.5) { 1.0 } else { -1.0 }); }
    if sc.case.evolving() { if r.chance(0.4) { sc.set("wrong", *r.pick(&[0.8, 1.1, 1.3])); sc.set("gyration", r.below(2) as f64); } if r.chance(0.3) { let most = *r.pick(&[0.9, 200.0]); sc.set("early", r.uni(0.01, most)); } }
    if sc.case.tides == "creep" && r.chance(0.6) { sc.set("contradiction", r.range(1, 3) as f64); }
    if r.chance(0.2) { sc.set("crowd", r.range(1, 3) as f64); }
    Ok(())
}
fn c21(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let x = scripted(sc, env, cache)?;
    let (r0, want, json) = (&x.0, &x.1, &x.2);
    if !r0.ok() { return bad("description-refused", format!("a script that describes the case fails: {} {}", r0.end(), r0.panic_line())); }
    let spec = script_spec(sc, json, &[]);
    let mut w = World::new(env);
    let mut keys = vec![];
    let old: Vec<u8> = match sc.get("old") as i64 { 1 => { let mut b = want.clone(); b.extend_from_slice(b"\n{}\n"); b } 2 => want[..want.len() / 3].to_vec(), _ => vec![] };
    if !old.is_empty() { std::fs::write(w.path("case.json"), &old).unwrap(); }
    for (no, l) in sc.legs.iter().enumerate() {
        let before = w.read("case.json");
        let run = w.exec_script("gen.py", &spec, "case.json", &l.plan);
        let got = w.read("case.json");
        let what = || format!("leg {}: the script ended with {} after {:?}", no, run.end(), run.fired);
        for f in &run.fired { keys.push(format!("{} {} old={}", sc.case.class(), f, sc.get("old"))); }
        if run.ok() && got.as_ref() != Some(want) { return bad("silently-incomplete", format!("{}, and the case it wrote has {} bytes instead of the {} of the whole description", what(), got.map(|b| b.len() as i64).unwrap_or(-1), want.len())); }
        if !run.ok() && !run.killed && harmless(&l.plan) { return bad("gave-up", format!("{}: {}", what(), run.panic_line())); }
        if !run.ok() && !run.killed && run.fired.is_empty() { return bad("gave-up", format!("{}: {}", what(), run.panic_line())); }
        if run.ok() || got.as_ref() == Some(want) || got == before || got.is_none() { continue; }
        // what is left is no description of anything
        let mut w2 = World::new(env);
        w2.restore(&w.image());
        let s = w2.exec(&start_args(&sc.snap, &Leg::clean()), &Plan::quiet());
        if s.ok() || w2.read(HIST).is_some() || w2.read(&sc.snap).is_some() { return bad("partial-started", format!("{}; a simulation starts from the {} of {} bytes that are left: {} {:?}", what(), got.map(|b| b.len()).unwrap_or(0), want.len(), s.end(), w2.files())); }
        env.probe("incomplete cases refused");
    }
    let more = if sc.get("more") > 0.0 { serde_json::json!(["again.json"]) } else { serde_json::json!([]) };
    let plan = Plan { rt: RT0 + 77, seed: 5, ..Plan::quiet() };
    let run = w.exec_script("gen.py", &script_spec(sc, json, &[("more", more)]), "case.json", &plan);
    if !run.ok() { return bad("description-refused", format!("after the faults: {} {}", run.end(), run.panic_line())); }
    for f in ["case.json", "again.json"].iter().take(1 + sc.get("more") as usize) {
        if w.read(f).as_ref() != Some(want) { return bad("not-the-same", format!("{} has {:?} bytes, the first description had {}, or they differ", f, w.read(f).map(|b| b.len()), want.len())); }
    }
    // the command it names simulates what was described
    let line = run.stdout.lines().filter_map(|l| l.find("posidonius start ").map(|i| l[i + 11..].to_string())).next();
    let args: Vec<String> = match line { Some(l) => l.split_whitespace().map(|s| s.to_string()).collect(), None => start_args(&sc.snap, &Leg::clean()) };
    let s = w.exec(&args, &Plan::quiet());
    if !s.completed() {
        if cache.reference(env, sc).is_err() { return Err(Fail::Discard("the case does not complete".into())); }
        return bad("description-unusable", format!("{:?} ended with {} {}", args, s.end(), s.panic_line()));
    }
    let h = args.get(3).and_then(|f| w.read(f)).unwrap_or_default();
    if sc.case.star_evolution != "l2011" { // smooths the tabulated radii of gyration in a way of its own
        let rf = cache.reference(env, sc)?;
        if let Err(Fail::Violation { class, msg }) = close_history(&h, &rf.hist, sc) { return bad(&format!("not-as-described-{}", class), format!("compared with the same system set up through the library: {}", msg)); }
        keys.push(format!("{} simulated", sc.case.class()));
    } else {
        // what does not depend on that: the instants, the masses and the radii
        let rf = cache.reference(env, sc)?;
        let (a, b) = (crate::state::records(&h), crate::state::records(&rf.hist));
        if a.is_empty() { return bad("description-unusable", "no history".into()); }
        if sc.case.integrator != "ias15" {
            if a.len() != b.len() { return bad("not-as-described-record-count", format!("{} body records, {} of the same system set up through the library", a.len(), b.len())); }
            for (x, y) in a.iter().zip(b.iter()) { if (x.time - y.time).abs() > 1e-9 || (9..=10).any(|i| (x.v[i] - y.v[i]).abs() > 1e-9 * y.v[i].abs()) { return bad("not-as-described-radius", format!("at {} days: mass and radius {:e} {:e}; at {} days of the same system set up through the library: {:e} {:e}", x.time, x.v[9], x.v[10], y.time, y.v[9], y.v[10])); } }
            keys.push(format!("{} simulated", sc.case.class()));
        }
    }
    // creep tides and flattening describe one deformation
    if sc.case.tides == "creep" && sc.get("contradiction") > 0.0 {
        let mut w = World::new(env);
        let k = ["", "tides", "flattening", "viscosity"][sc.get("contradiction") as usize % 4];
        let run = w.exec_script("gen.py", &script_spec(sc, json, &[("contradiction", serde_json::json!(k))]), "case.json", &Plan::quiet());
        if run.ok() { return bad("contradiction-written", format!("a body with creep tides and a flattening that does not go with them ({}) is accepted", k)); }
        keys.push(format!("contradiction {}", k));
    }
    // what a table says about the start takes the place of what the script says
    if sc.get("wrong") > 0.0 && sc.case.evolving() && sc.case.star_evolution != "l2011" {
        let mut w = World::new(env);
        let run = w.exec_script("gen.py", &script_spec(sc, json, &[("wrong", serde_json::json!(sc.get("wrong"))), ("wrong_gyration_only", serde_json::json!(sc.get("gyration") > 0.0))]), "case.json", &Plan::quiet());
        let s = w.exec(&start_args(&sc.snap, &Leg::clean()), &Plan::quiet());
        if !run.ok() || !s.completed() { return bad("description-refused", format!("radii and radii of gyration of evolving bodies {} times those in the tables: {} {}; {} {}", sc.get("wrong"), run.end(), run.panic_line(), s.end(), s.panic_line())); }
        let rf = cache.reference(env, sc)?;
        if let Err(Fail::Violation { class, msg }) = close_history(&w.read(HIST).unwrap_or_default(), &rf.hist, sc) { return bad(&format!("not-from-table-{}", class), format!("radii and radii of gyration of evolving bodies given as {} times those in the tables: {}", sc.get("wrong"), msg)); }
        keys.push(format!("{} corrected from the table", sc.case.star_evolution));
    }
    // tables begin and end somewhere
    if sc.get("early") > 0.0 && sc.case.evolving() {
        let mut w = World::new(env);
        let v: serde_json::Value = serde_json::from_str(json).unwrap();
        let first = v["universe"]["particles_evolvers"].as_array().unwrap().iter().filter_map(|e| e["time"][0].as_f64()).fold(f64::NEG_INFINITY, f64::max);
        let initial = v["universe"]["initial_time"].as_f64().unwrap() + first - sc.get("early");
        let run = w.exec_script("gen.py", &script_spec(sc, json, &[("initial", serde_json::json!(initial)), ("limit", serde_json::json!(1.0))]), "case.json", &Plan::quiet());
        if run.ok() { return bad("before-tables", format!("a simulation that starts {} days before the table of one of its bodies is accepted", sc.get("early"))); }
        keys.push(format!("{} before the table", sc.case.star_evolution));
    }
    if sc.get("limit") != 0.0 && sc.case.evolving() {
        let end = crate::case::table_end(&sc.case);
        let limit = end + sc.get("limit");
        let mut w = World::new(env);
        let run = w.exec_script("gen.py", &script_spec(sc, json, &[("limit", serde_json::json!(limit))]), "case.json", &Plan::quiet());
        if run.ok() != (limit < end) { return bad("beyond-tables", format!("the tables end {} days after the start; a simulation of {} days: {} {}", end, limit, run.end(), run.panic_line())); }
        keys.push(format!("{} limit {}", sc.case.star_evolution, if limit < end { "inside" } else { "beyond" }));
    }
    if sc.get("crowd") > 0.0 && sc.case.companion == 0.0 && sc.case.star_index() == 0 {
        let extra = 10 - sc.case.n_particles() as i64 + sc.get("crowd") as i64;
        let mut w = World::new(env);
        let run = w.exec_script("gen.py", &script_spec(sc, json, &[("extra", serde_json::json!(extra))]), "case.json", &Plan::quiet());
        if run.ok() {
            let s = w.exec(&start_args(&sc.snap, &Leg { limit: 1, ..Leg::clean() }), &Plan { mono_per_read: 1_000_000_000, ..Plan::quiet() });
            if !s.ok() { return bad("too-many", format!("a description of {} bodies is written without complaint, and refused: {} {}", sc.case.n_particles() as i64 + extra, s.end(), s.panic_line())); }
        }
        keys.push(format!("{} bodies", 10 + sc.get("crowd") as i64));
    }
    Ok(keys)
}
fn c12(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let rf = cache.reference(env, sc)?;
    let n = rf.n;
    let mut w = World::new(env);
    w.put("case.json", &rf.json);
    let s = step(&mut w, sc, &sc.legs[0], 0)?;
    let mut r = Rng::new(sc.seed);
    // lengths the file had between two writes, after the kill, and in the middle of a write
    let mut lens: Vec<i64> = vec![];
    let mut l = 0;
    for o in &s.run.ops { if let Op::Write { path, got, .. } = o { if path == HIST && *got > 0 { l += got; lens.push(l); } } }
    let h = w.read(HIST).unwrap_or_default();
    lens.push(h.len() as i64);
    for _ in 0..sc.get("cuts") as i64 { lens.push(r.range(0, rf.hist.len() as i64)); }
    let first = (REC * n) as i64;
    for k in 0..(4.min(rf.rec_times.len() as i64)) { lens.push(first * k + r.range(0, first)); }
    lens.retain(|l| *l <= rf.hist.len() as i64 && *l >= first);
    lens.sort();
    lens.dedup();
    // a long history is not read at each of its lengths: at most some 60 MB are read in all, but 12 times at least
    let total: i64 = lens.iter().sum();
    let most = (lens.len() as i64 * 60_000_000 / total.max(1)).max(12) as usize;
    while lens.len() > most { let i = r.below(lens.len() as u64) as usize; lens.remove(i); }
    let mut list = String::new();
    for l in &lens {
        let f = w.dir.join("meta").join(format!("cut{}", l));
        std::fs::write(&f, &rf.hist[..*l as usize]).unwrap();
        list += &format!("{}\n", f.display());
    }
    is_prefix(&h, &rf.hist, n, 0)?;
    let lf = w.dir.join("meta").join("list");
    std::fs::write(&lf, list).unwrap();
    let out = std::process::Command::new("python3-vt").arg("-B").arg("-s").arg(env.py.join("reader.py")).arg(&lf).env_clear()
        .env("PATH", std::env::var("PATH").unwrap_or_default()).env("PYTHONPATH", format!("{}:{}", env.py.display(), "/repo")).env("PYTHONHASHSEED", (sc.seed % 1000).to_string()).output().map_err(|e| Fail::Discard(format!("no python: {}", e)))?;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    if !out.status.success() { return Err(Fail::Discard(format!("reader could not be loaded: {}", err.lines().last().unwrap_or("")))); }
    for (i, line) in text.lines().enumerate() {
        let f: Vec<&str> = line.split_whitespace().collect();
        let l = match lens.get(i) { Some(l) => *l as usize, None => break };
        if f.get(0) == Some(&"STUB") { env.probe("reader uses a pandas feature the stub lacks"); return Err(Fail::Discard(line.into())); }
        let whole = l / (REC * n);
        if f.get(0) != Some(&"OK") { return bad("reader-fails", format!("{} bytes of history ({} whole records of {} bodies): {}", l, whole, n, line)); }
        let want = rows_digest(&rf.hist[..whole * REC * n]);
        let (gn, rows, dig) = (f[1].parse::<usize>().unwrap_or(0), f[2].parse::<usize>().unwrap_or(0), f[3]);
        if gn != n || rows != whole * n { return bad("reader-rows", format!("{} bytes of history: the reader sees {} rows of {} bodies, there are {} whole rows of {} bodies", l, rows, gn, whole * n, n)); }
        if dig != want { return bad("reader-values", format!("{} bytes of history: the reader returns values that were not written", l)); }
        env.probe("reads checked");
        if l % (REC * n) != 0 { env.probe("reads of a torn file"); }
    }
    if text.lines().count() < lens.len() { return Err(Fail::Discard(format!("reader stopped: {}", err.lines().last().unwrap_or("")))); }
    note_state(env, &w);
    let mut keys: Vec<String> = lens.iter().map(|l| format!("{}|{}|{}", n, l, rf.hist.len())).collect();
    if let Some(leg) = sc.legs.get(1) {
        keys.extend(c12_faults(sc, env, &mut w, &rf, leg)?);
        if sc.case.n_steps < 1000.0 { keys.extend(c12_together(sc, env, &rf)?); }
    }
    Ok(keys)
}
// The reader meets read errors, short and interrupted reads: what it returns is complete all the same, or it fails.
fn c12_faults(sc: &Scenario, env: &Env, w: &mut World, rf: &Ref, leg: &Leg) -> Result<Option<String>, Fail> {
    let (n, h) = (rf.n, w.read(HIST).unwrap_or_default());
    if h.len() < REC * n { return Ok(None); }
    let f = w.path(HIST);
    let run = w.exec_reader(&[f], &leg.plan);
    let line = run.stdout.lines().next().unwrap_or("").to_string();
    if !run.ok() || line.is_empty() || line.starts_with("STUB") { return Err(Fail::Discard(format!("reader could not be loaded: {}", run.stderr.lines().last().unwrap_or("")))); }
    let hurt = run.fired.iter().any(|f| f == "rerr");
    let whole = h.len() / (REC * n);
    let v: Vec<&str> = line.split_whitespace().collect();
    if v[0] != "OK" {
        if !hurt { return bad("reader-fails", format!("{} bytes of history ({} whole records of {} bodies), read under {:?}: {}", h.len(), whole, n, run.fired, line)); }
        env.probe("reader failed visibly");
    } else if v[1] != n.to_string() || v[2] != (whole * n).to_string() || v[3] != rows_digest(&h[..whole * REC * n]) {
        return bad(if hurt { "reader-silently-incomplete" } else { "reader-rows" }, format!("{} bytes of history, read under {:?}: the reader returns {} rows of {} bodies without an error, there are {} whole records of {} bodies", h.len(), run.fired, v[2], v[1], whole, n));
    } else { env.probe("reader undisturbed"); }
    Ok(Some(format!("{}|{:?}|{}", n, run.fired, v[0])))
}
// The reader takes its turns while a simulation writes, is killed and resumed.
fn c12_together(sc: &Scenario, env: &Env, rf: &Ref) -> Result<Option<String>, Fail> {
    let n = rf.n;
    let mut w = World::new(env);
    w.put("case.json", &rf.json);
    let f = w.path(HIST);
    let len = || std::fs::metadata(&f).map(|m| m.len()).unwrap_or(0);
    let mut sched = scheduler(sc, &[0, 1], 60);
    let (mut least, mut most, mut read) = (u64::MAX, 0, 0);
    let mut turn = |ready: &[usize]| {
        // there is nothing to read at first
        if ready.contains(&0) && read == 0 && len() < (REC * n) as u64 { return 0; }
        let i = sched(ready);
        if i == 1 || read > 0 { least = least.min(len()); most = most.max(len()); }
        if i == 1 { read += 1; }
        i
    };
    let leg = &sc.legs[0];
    let (runs, turns) = w.exec_together(&[0, 1], &mut turn, &mut |w, i, before| match (i, before.len()) {
        (1, 0) => Some((vec!["@reader".to_string(), w.path(HIST).display().to_string(), w.path(HIST).display().to_string(), w.path(HIST).display().to_string()], Plan::quiet())),
        (0, 0) => Some((start_args(&sc.snap, leg), leg.plan.clone())),
        (0, 1) if !before[0].completed() && quick(&w.read(&sc.snap).unwrap_or_default(), &sc.case.integrator, sc.json()).is_some() => Some((resume_args(&sc.snap, &Leg::clean()), Plan::quiet())),
        _ => None,
    });
    most = most.max(len());
    let out = &runs[1][0];
    if !out.ok() || out.stdout.contains("STUB") { return Err(Fail::Discard(format!("reader could not be loaded: {}", out.stderr.lines().last().unwrap_or("")))); }
    if least < (REC * n) as u64 { return Ok(None); }
    for (i, line) in out.stdout.lines().enumerate() {
        let v: Vec<&str> = line.split_whitespace().collect();
        if v[0] != "OK" { return bad("reader-fails", format!("read {} while the history grew from {} to {} bytes: {}", i, least, most, line)); }
        let (gn, rows) = (v[1].parse::<usize>().unwrap_or(0), v[2].parse::<usize>().unwrap_or(0));
        let size = (REC * n) as u64;
        if gn != n || rows % n != 0 || ((rows / n) as u64) < least / size || (rows / n) as u64 > most / size { return bad("reader-rows", format!("read {} while the history grew from {} to {} bytes: {} rows of {} bodies; there were {} to {} records of {} bodies", i, least, most, rows, gn, least / size, most / size, n)); }
        if v[3] != rows_digest(&rf.hist[..rows * REC]) { return bad("reader-values", format!("read {} while the history grew from {} to {} bytes: values that were not written", i, least, most)); }
        env.probe("reads of a growing file");
    }
    let c = turns.windows(2).filter(|p| p[0] != p[1]).count();
    env.probe_n("changes between simulation and reader", c as u64);
    Ok(Some(format!("{}|together|{}|{}", n, sc.get("style"), c)))
}
fn rows_digest(b: &[u8]) -> String { format!("{:016x}", crate::rng::fnv_bytes(b)) }
// A history that is known to fail: decimal numbers are read back with an error in the last digit, and with a time
// step that is no binary fraction the comparison that triggers a record can then go the other way.
pub fn pinned(prop: &str) -> Option<Scenario> {
    if prop != "C13" { return None; }
    serde_json::from_str(r#"{"case": {"companion": 0.0, "coords": 0, "disk": false, "disk_days": 100.0, "fate": "", "fate_t": 0.0, "flattening": false, "gap": 0.0, "gr": "none", "hist_period": 0.05, "ignored": 0, "integrator": "whfast", "n_steps": 19.0, "planets": [{"a": 0.07959460427463483, "anomaly_deg": 77.76685092537903, "e": 0.11186857289233872, "inc_deg": 0.0, "jupiter_evolution": 0, "mass_earth": 3.5964828029027944, "node_deg": 134.2244643840071, "obliquity_deg": 0.0, "reference_star": false, "rot_hours": 50.19868366380752, "spared": 0}], "rec_period": 0.375, "star_at": 0, "star_evolution": "none", "star_mass": 1.0, "tides": "none", "time_step": 0.05, "wind": false}, "legs": [{"args": [], "limit": 0, "mode": "auto", "plan": {"budget": -1, "chop": [0, 0, 0], "faults": [{"arg": 0, "at": 14, "kind": "outcrash"}], "mono_per_read": 1000, "per_op": 1000, "per_out": 1000, "rchop": [0, 0, 0], "rt": 1700000000, "rt_per_read": 1000, "seed": 1}, "silent": false, "tail": 0}], "p": {"pinned": 1.0}, "prop": "C13", "seed": 5171668021682813279, "snap": "snap.json"}"#).ok()
}
fn c13(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    match c13_any(sc, env, cache) {
        Err(Fail::Violation { class, msg }) if sc.get("pinned") > 0.0 && class == "record-count" => bad("decimal-rounding", msg),
        r => r,
    }
}
fn c13_any(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let rf = cache.reference(env, sc)?;
    let mut bin = sc.clone();
    bin.snap = "snap.bin".into();
    let rb = cache.reference(env, &bin)?;
    if rf.hist != rb.hist { return bad("format-matters", "an uninterrupted run gives another history with JSON snapshots than with binary ones".into()); }
    if rf.times.len() != rb.times.len() || rf.times.iter().zip(&rb.times).any(|(a, b)| (a - b).abs() > 1e-12 * b.abs()) { return bad("format-matters", format!("{} usable JSON snapshots written, {} binary ones; times {:?} and {:?}", rf.times.len(), rb.times.len(), rf.times, rb.times)); }
    let n = rf.n;
    let mut w = World::new(env);
    let mut keys = vec![];
    w.put("case.json", &rf.json);
    let chain = run_chain(&mut w, sc, &rf.json, 2, |w, no, s| {
        unexplained(s, no)?;
        note_state(env, w);
        keys.extend(key_of(sc, s, &rf));
        // backups must be usable under the name the program gave them
        for x in snapshots(w, sc) {
            if x.name == sc.snap { continue; }
            let img = w.image();
            let mut w2 = World::new(env);
            w2.restore(&img);
            let need = x.n_hist as usize * REC * n;
            if img.get(HIST).map(|h| h.len()).unwrap_or(0) < need { continue; }
            let r = w2.exec(&resume_args(&x.name, &Leg::clean()), &Plan::quiet());
            if !r.completed() { return bad("backup-unusable", format!("after leg {}: the backup {} of time {} days cannot be resumed: {} {}", no, x.name, x.time, r.end(), r.panic_line())); }
            env.probe("backups resumed");
            break;
        }
        Ok(())
    })?;
    finished(&chain, sc.legs.len())?;
    let h = w.read(HIST).unwrap_or_default();
    let exact = close_history(&h, &rf.hist, sc)?;
    if !exact { env.probe("JSON resume off by rounding"); }
    Ok(keys)
}
fn window(rt: i64) -> String {
    let days = rt.div_euclid(86400);
    let half = if rt.rem_euclid(86400) < 43200 { "AM" } else { "PM" };
    // civil date from days since 1970
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    format!("{:04}{:02}{:02}T{}", y, m, d, half)
}
fn c14(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let rf = cache.reference(env, sc)?;
    let mut w = World::new(env);
    let mut expect: BTreeMap<String, f64> = BTreeMap::new(); // window -> time of the last snapshot replaced in it
    let mut keys = vec![];
    let mut main: Option<f64> = None; // whole snapshot in the main file
    let chain = run_chain(&mut w, sc, &rf.json, 1, |w, no, s| {
        unexplained(s, no)?;
        note_state(env, w);
        if no >= sc.legs.len() { return Ok(()); }
        main = s.from;
        // replay the leg: every appearance of a new main file replaces the one before
        let mut vs: Vec<f64> = rf.times.iter().cloned().filter(|t| main.map(|m| *t > m).unwrap_or(true)).collect();
        vs.reverse();
        let mut pending: Option<(String, f64)> = None;
        for o in &s.run.ops {
            match o {
                // the main file gives up its name, or its content is cut, while it holds a whole snapshot
                Op::Rename { from, to, ok: true, rt, .. } if *from == sc.snap && *to != sc.snap => { if let Some(t) = main.take() { pending = Some((window(*rt), t)); } if let Some((wd, t)) = pending.take() { expect.insert(wd, t); } }
                Op::Open { path, ok: true, rt, .. } if *path == sc.snap => { if let Some(t) = main.take() { expect.insert(window(*rt), t); } main = vs.pop(); }
                Op::Rename { to, ok: true, rt, .. } if *to == sc.snap => { if let Some(t) = main.take() { expect.insert(window(*rt), t); } main = vs.pop(); }
                _ => {}
            }
        }
        let live = snapshots(w, sc);
        let mut seen: BTreeMap<String, f64> = BTreeMap::new();
        for x in &live {
            if x.name == sc.snap { continue; }
            let mid = x.name.trim_start_matches(sc.snap.rsplitn(2, '.').last().unwrap()).trim_start_matches('.').split('.').next().unwrap_or("").to_string();
            if seen.insert(mid.clone(), x.time).is_some() { return bad("backup-duplicate", format!("after leg {}: two backups for {}", no, mid)); }
        }
        for (wd, t) in &expect {
            match seen.get(wd) {
                Some(x) if x == t => {}
                x => return bad("backup-missing", format!("after leg {}: the snapshot of {} days was the last one replaced in {}, the backup there is of {:?} days; backups: {:?}", no, t, wd, x, seen)),
            }
        }
        for wd in seen.keys() { if !expect.contains_key(wd) { return bad("backup-unexpected", format!("after leg {}: backup for {}, in which nothing was replaced; expected {:?}", no, wd, expect.keys())); } }
        env.probe_n("backups checked", seen.len() as u64);
        if seen.len() > 1 { env.probe("several half days"); }
        keys.push(format!("{}|{}|{}", sc.case.integrator, seen.len(), s.run.fired.len()));
        Ok(())
    })?;
    finished(&chain, sc.legs.len())?;
    if !sc.json() { check_versions(&w, sc, &rf, env, true)?; } // C13 compares what comes back from JSON
    // every backup leads to the right result
    let img = w.image();
    for x in snapshots(&w, sc) {
        if x.name == sc.snap { continue; }
        let mut w2 = World::new(env);
        w2.restore(&img);
        let r = w2.exec(&resume_args(&x.name, &Leg::clean()), &Plan::quiet());
        if !r.completed() { return bad("backup-unusable", format!("backup {} of {} days cannot be resumed: {} {}", x.name, x.time, r.end(), r.panic_line())); }
        end_history(&w2.read(HIST).unwrap_or_default(), &rf.hist, sc)?;
        env.probe("backups resumed");
    }
    Ok(keys)
}
fn c15(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let rf = cache.reference(env, sc)?;
    let c = &sc.case;
    let n = rf.n;
    let mut w = World::new(env);
    let verify = |h: &[u8]| -> Result<u64, Fail> {
        let mut cnt = 0;
        for rec in state::records(h) {
            let b = rec.id as usize;
            let evo: Option<(&str, f64)> = if b == c.star_index() { if c.star_evolution != "none" { Some((c.star_evolution.as_str(), c.star_mass)) } else { None } }
                else { match c.planet_of(b) { Some(p) if p.jupiter_evolution > 0 => Some(("jupiter", 0.0)), _ => None } };
            let (evo, mass) = match evo { Some(x) => x, None => continue };
            cnt += 1;
            let (rad, rg2, invq) = table_at(evo, mass, rec.time);
            if (rec.v[10] / rad - 1.0).abs() > 1e-7 { return bad("radius", format!("body {} ({}) at {} days: radius {:e} recorded, table says {:e}", b, evo, rec.time, rec.v[10], rad)); }
            if let Some(g) = rg2 { if (rec.v[11] / g - 1.0).abs() > 2e-6 { return bad("gyration", format!("body {} ({}) at {} days: squared radius of gyration {:e} recorded, table says {:e}", b, evo, rec.time, rec.v[11], g)); } }
            if let Some(q) = invq {
                // the dissipation of dynamical tides, for the spin in the record
                let q = if evo == "jupiter" && c.planet_of(b).map_or(false, |p| p.jupiter_evolution != 2) { 0.0 } else { q };
                let spin2: f64 = rec.v[3..6].iter().map(|x| x * x).sum();
                let lag = 0.75 * spin2 / posidonius::constants::SUN_DYN_FREQ_2 * q;
                if (rec.v[14] - lag).abs() > 1e-6 * lag { return bad("lag", format!("body {} ({}) at {} days: lag angle {:e} recorded, table and spin say {:e}", b, evo, rec.time, rec.v[14], lag)); }
            }
            if evo == "jupiter" && c.tides == "ctl" && c.planet_of(b).map_or(false, |p| c.tides_on(p)) { let l = table_love(rec.time); if (rec.v[12] / l - 1.0).abs() > 1e-7 { return bad("love", format!("body {} at {} days: Love number {:e} recorded, table says {:e}", b, rec.time, rec.v[12], l)); } }
        }
        Ok(cnt)
    };
    env.probe_n("evolving records checked", verify(&rf.hist)?);
    let chain = run_chain(&mut w, sc, &rf.json, 2, |w, no, s| {
        unexplained(s, no)?;
        note_state(env, w);
        let h = w.read(HIST).unwrap_or_default();
        verify(&h[..h.len() / (REC * n) * REC * n])?;
        Ok(())
    })?;
    finished(&chain, sc.legs.len())?;
    let h = w.read(HIST).unwrap_or_default();
    verify(&h)?;
    Ok(vec![format!("{}|{}|{}", c.class(), sc.legs.len(), rf.rec_times.len())])
}
fn c16(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let rf = match cache.reference(env, sc) { Ok(r) => r, Err(Fail::Discard(m)) => return bad("does-not-complete", m), Err(e) => return Err(e) };
    let mut w = World::new(env);
    let mut keys = vec![];
    let mut prev = -1.0;
    let mut faultless = 0;
    let chain = run_chain(&mut w, sc, &rf.json, 1, |w, no, s| {
        unexplained(s, no)?;
        note_state(env, w);
        let now = best(&snapshots(w, sc)).map(|b| b.time).unwrap_or(-1.0);
        if now < prev { return bad("went-back", format!("after leg {}: newest snapshot of {} days, it was of {} before", no, now, prev)); }
        // a new snapshot was completed if a later one than the one resumed from exists in any version
        let wrote = s.run.ops.iter().filter(|o| matches!(o, Op::Open { path, ok: true, .. } if *path == sc.snap)).count();
        if wrote > 1 && now <= s.from.unwrap_or(-1.0) { return bad("no-progress", format!("leg {}: {} snapshots were begun, the newest whole one is still of {} days", no, wrote, now)); }
        if s.run.ok() && s.run.fired.is_empty() && now <= s.from.unwrap_or(-1.0) && !s.run.completed() { return bad("no-progress", format!("leg {}: stopped by itself where it started, at {} days", no, now)); }
        if s.run.ok() && !s.run.completed() { env.probe("runs ended by the execution time limit"); }
        prev = now;
        if sc.legs.get(no).is_none() { faultless += 1; }
        keys.extend(key_of(sc, s, &rf));
        Ok(())
    })?;
    if !chain.done { return bad("not-finished", format!("one fault-free resume after {} runs did not complete the simulation", chain.steps.len() - 1)); }
    if chain.steps.len() > 4 { env.probe("crash loops of four runs or more"); }
    let last = chain.steps.last().unwrap();
    if last.run.code != Some(0) { return bad("exit-status", format!("completed with {}", last.run.end())); }
    // it really ended at the time limit
    let h = w.read(HIST).unwrap_or_default();
    let t = state::record_times(&h, rf.n).unwrap_or_default();
    let end = t.last().cloned().unwrap_or(0.0);
    let step = state::records(&h).last().map(|r| r.step.abs()).unwrap_or(0.0).max(sc.case.time_step);
    let lim = sc.case.time_limit();
    if end > lim + 1e-6 * lim || end < lim - sc.case.hist_period - 3.0 * step { if sc.case.integrator != "ias15" { return bad("ends-elsewhere", format!("last record at {} days, limit {} days, period {} days, step {}", end, lim, sc.case.hist_period, step)); } }
    Ok(keys)
}
fn c17(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let rf = cache.reference(env, sc)?;
    let n = rf.n;
    let mut w = World::new(env);
    w.put("case.json", &rf.json);
    let mut keys = vec![];
    for no in 0..sc.legs.len() + 2 {
        let leg = sc.legs.get(no).cloned().unwrap_or_else(Leg::clean);
        w.clear_grave();
        let s = step(&mut w, sc, &leg, no)?;
        unexplained(&s, no)?;
        if no >= sc.legs.len() {
            if s.run.completed() {
                end_history(&w.read(HIST).unwrap_or_default(), &rf.hist, sc)?;
                return Ok(keys);
            }
            return bad("no-recovery", format!("leg {}: {} after power losses: {} {}", no, s.what, s.run.end(), s.run.panic_line()));
        }
        // completed snapshots: all but the one being written when the power failed
        let mut whole = s.from.unwrap_or(-1.0);
        for (_, b) in versions(&w, sc) { if let Some(t) = rf.raw.get(&crate::rng::fnv_bytes(&b)).cloned().or_else(|| quick(&b, &sc.case.integrator, sc.json()).map(|x| x.0)) { whole = whole.max(t); } }
        // the newest version may be whole in memory while its writing call had not returned yet
        let mut begun = vec![];
        for o in &s.run.ops { match o { Op::Open { path, ok: true, .. } if keeps(path, &sc.snap) => begun.push(o.k()), Op::Rename { from, to, ok: true, .. } if *to == sc.snap && !keeps(from, &sc.snap) => begun.push(o.k()), _ => {} } }
        let last_begun = begun.last().cloned();
        let after_last = last_begun.map(|k| s.run.ops.iter().any(|o| o.k() > k && o.path() == HIST && matches!(o, Op::Write { .. })) || s.run.ok()).unwrap_or(false);
        let promised = if after_last { whole } else { // only the ones before the one in flight
            let v: Vec<f64> = rf.times.iter().cloned().filter(|t| s.from.map(|f| *t > f).unwrap_or(true)).collect();
            let k = begun.len().saturating_sub(1);
            if k == 0 { s.from.unwrap_or(-1.0) } else { v.get(k - 1).cloned().unwrap_or(-1.0).min(whole) }
        };
        let (img, what) = power_loss(&w, &s.before, &s.run, mix(sc.seed, no as u64));
        w.restore(&img);
        note_state(env, &w);
        env.probe("power losses");
        let live = snapshots(&w, sc);
        let hist = img.get(HIST).map(|b| b.len() as u64).unwrap_or(0);
        let usable: Vec<Snap> = live.iter().filter(|x| x.n_hist * (REC * n) as u64 <= hist).cloned().collect();
        let have = best(&usable).map(|b| b.time).unwrap_or(-1.0);
        if have < promised { return bad("lost-to-power-failure", format!("leg {}: the snapshot of {} days was complete when the power failed ({}); the newest usable one is {}; whole snapshots {:?}, history {} bytes", no, promised, what, if have < 0.0 { "none".into() } else { format!("of {} days", have) }, live.iter().map(|x| (x.name.clone(), x.time)).collect::<Vec<_>>(), hist)); }
        if promised > 0.0 { keys.push(format!("{}|{}|{}", sc.case.class(), what.split(';').count(), s.run.ops.len())); env.probe("power losses with something to lose"); }
        // what is left but unusable would only confuse the restart
        for x in live { if !usable.iter().any(|u| u.name == x.name) { std::fs::remove_file(w.path(&x.name)).ok(); } }
    }
    Ok(keys)
}

// Every record against the state of the same boundary, as the recovery snapshot of that boundary holds it.
fn c18(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let rf = cache.reference(env, sc)?;
    let ev = cache.every_step(env, sc)?;
    let c = &sc.case;
    let n = rf.n;
    let first = match serde_json::from_str::<serde_json::Value>(&rf.json) { Ok(v) => state::flat(&v), Err(_) => return Err(Fail::Discard("case does not parse".into())) };
    let mut cache2: BTreeMap<u64, Option<BTreeMap<String, String>>> = BTreeMap::new();
    let mut verify = |h: &[u8], what: &str| -> Result<u64, Fail> {
        let mut cnt = 0;
        for r in state::records(h) {
            let b = r.id as usize;
            if b >= n { return bad("malformed", format!("{}: body {} of {}", what, b, n)); }
            if let Some(i) = r.v.iter().enumerate().position(|(i, v)| v.is_nan() || i != 16 && v.is_infinite()) { return bad("not-a-number", format!("{}: body {} at {} days: value {} is {}", what, b, r.time, i, r.v[i])); }
            if r.time < 0.0 || r.time.is_nan() { return bad("record-time", format!("{}: record at {} days", what, r.time)); }
            let st = cache2.entry(r.time.to_bits()).or_insert_with(|| if r.time == 0.0 { Some(first.clone()) } else { ev.state_at(r.time, sc).map(|s| s.leaves) });
            let st = match st { Some(s) => s, None => {
                // the boundary reached by the last step of all has no snapshot, and no record either
                return bad("record-time", format!("{}: record at {} days, which is no step boundary", what, r.time));
            } };
            let get = |k: &str| st.get(&format!(".universe.particles[{}].{}", b, k)).and_then(|v| v.parse::<f64>().ok());
            let names = ["inertial_position.x", "inertial_position.y", "inertial_position.z", "", "", "", "inertial_velocity.x", "inertial_velocity.y", "inertial_velocity.z", "mass"];
            for (i, k) in names.iter().enumerate() {
                if k.is_empty() { continue; }
                match get(k) { Some(v) if v == r.v[i] => {}, Some(v) => return bad("record-state", format!("{}: body {} at {} days: {} is {:e} in the record, {:e} in the simulated state", what, b, r.time, k, r.v[i], v)), None => return Err(Fail::Discard(format!("no field {}", k))) }
            }
            // spin from angular momentum and the recorded moment of inertia
            let inertia = r.v[9] * r.v[11] * r.v[10] * r.v[10];
            let l: Vec<Option<f64>> = ["x", "y", "z"].iter().map(|a| get(&format!("angular_momentum.{}", a))).collect();
            if let (Some(lx), Some(ly), Some(lz)) = (l[0], l[1], l[2]) {
                let norm = (lx * lx + ly * ly + lz * lz).sqrt() / inertia;
                // the evolution model fixes the initial moment of inertia, and with it the angular momentum, when it starts
                let evolving = b == c.star_index() && c.star_evolution != "none" || b != c.star_index() && c.planet_of(b).map_or(false, |p| p.jupiter_evolution > 0);
                if !(evolving && r.time == 0.0) {
                    for (i, v) in [lx, ly, lz].iter().enumerate() { if (r.v[3 + i] - v / inertia).abs() > 1e-12 * norm { return bad("record-spin", format!("{}: body {} at {} days: spin component {} is {:e} in the record, angular momentum and moment of inertia say {:e}", what, b, r.time, i, r.v[3 + i], v / inertia)); } }
                }
                if !evolving {
                    for (i, k) in [(10, "radius"), (11, "radius_of_gyration_2")].iter() { if let Some(v) = get(k) { if v != r.v[*i] { return bad("record-state", format!("{}: body {} at {} days: {} is {:e} in the record, {:e} in the simulated state", what, b, r.time, k, r.v[*i], v)); } } }
                }
            }
            if !(b != c.star_index() && c.planet_of(b).map_or(false, |p| p.jupiter_evolution > 0)) {
                // the Love number is reported by the constant time lag model only
                let l = ["CentralBody", "OrbitingBody"].iter().filter_map(|e| get(&format!("tides.effect.{}.ConstantTimeLag.love_number", e))).next().unwrap_or(0.0);
                if r.v[12] != l { return bad("record-love", format!("{}: body {} at {} days: Love number {:e} in the record, {:e} in the simulated state", what, b, r.time, r.v[12], l)); }
            }
            if r.time > 0.0 { if let Some(v) = st.get(".time_step").and_then(|v| v.parse::<f64>().ok()) { if v != r.step { return bad("record-step", format!("{}: record at {} days: time step {:e}, the simulation uses {:e}", what, r.time, r.step, v)); } } }
            cnt += 1;
        }
        Ok(cnt)
    };
    env.probe_n("body records compared with the state", verify(&rf.hist, "uninterrupted run")?);
    let mut w = World::new(env);
    let mut keys = vec![format!("{}|{}", c.class(), rf.rec_times.len())];
    let chain = run_chain(&mut w, sc, &rf.json, 2, |w, no, s| { unexplained(s, no)?; note_state(env, w); keys.extend(key_of(sc, s, &rf)); let h = w.read(HIST).unwrap_or_default(); verify(&h[..h.len() / (REC * n) * (REC * n)], &format!("after leg {}", no))?; Ok(()) })?;
    finished(&chain, sc.legs.len())?;
    env.probe_n("body records compared with the state", verify(&w.read(HIST).unwrap_or_default(), "after all resumes")?);
    Ok(keys)
}
// A start from a case description that cannot be used.
// Every field of the description, wherever it occurs.
fn fields(v: &serde_json::Value, path: &mut Vec<String>, out: &mut BTreeMap<String, Vec<Vec<String>>>) {
    match v {
        serde_json::Value::Object(m) => for (k, x) in m { path.push(k.clone()); out.entry(k.clone()).or_default().push(path.clone()); fields(x, path, out); path.pop(); },
        serde_json::Value::Array(a) => for (i, x) in a.iter().enumerate() { path.push(i.to_string()); fields(x, path, out); path.pop(); },
        _ => {}
    }
}
fn without(v: &mut serde_json::Value, path: &[String]) {
    match v {
        serde_json::Value::Object(m) => if path.len() == 1 { m.remove(&path[0]); } else if let Some(x) = m.get_mut(&path[0]) { without(x, &path[1..]); },
        serde_json::Value::Array(a) => if let Some(x) = path[0].parse::<usize>().ok().and_then(|i| a.get_mut(i)) { without(x, &path[1..]); },
        _ => {}
    }
}
fn c19_fields(sc: &Scenario, env: &Env, rf: &Ref, w: &mut World, leg: &Leg, plan: &Plan, amount: f64) -> Res {
    let whole: serde_json::Value = match serde_json::from_str(&rf.json) { Ok(v) => v, Err(_) => return Err(Fail::Discard("case does not parse".into())) };
    let mut all = BTreeMap::new();
    fields(&whole, &mut vec![], &mut all);
    all.remove("polynomials"); // computed at the start of a simulation, the Python package does not write it
    let names: Vec<&String> = all.keys().collect();
    let mut r = Rng::new(sc.seed ^ 0x19);
    for _ in 0..8 {
        let name = *r.pick(&names);
        let path = r.pick(&all[name]).clone();
        let mut v = whole.clone();
        without(&mut v, &path);
        w.restore(&BTreeMap::new());
        w.put("case.json", &serde_json::to_string_pretty(&v).unwrap());
        let before = w.image();
        let run = w.exec(&start_args(&sc.snap, leg), plan);
        note_state(env, w);
        let after = w.image();
        let at = path.join(".");
        if let Some(d) = changed(&before, &after) { return bad("case-altered", format!("without {}: {} altered", at, d)); }
        if run.ok() { return bad("unusable-accepted", format!("case description without {} accepted: {}", at, run.end())); }
        let new: Vec<&String> = after.keys().filter(|f| !before.contains_key(*f)).collect();
        if !new.is_empty() { return bad("left-over", format!("case description without {}: refused, but {:?} was created", at, new)); }
        env.probe("a field missing: refused");
    }
    Ok(vec![format!("{}|8|{}", sc.case.integrator, (amount * 20.0) as i64)])
}
fn c19(sc: &Scenario, env: &Env, cache: &mut Cache) -> Res {
    let rf = cache.reference(env, sc)?;
    let mut w = World::new(env);
    let kind = sc.get("damage") as i64;
    let amount = sc.get("amount");
    let leg = &sc.legs[0];
    let mut plan = leg.plan.clone();
    let text = rf.json.as_bytes();
    let name = ["cut short", "missing", "empty", "read error", "lookup error", "failing allocation", "short and interrupted reads", "something else", "a field missing", "output cannot be created", "followed by something else", "of a simulation under way"][kind as usize];
    match kind {
        0 => { let l = if amount < 0.3 { text.len() - 1 - (amount * 200.0) as usize } else { (amount * text.len() as f64) as usize }; w.put("case.json", std::str::from_utf8(&text[..l.min(text.len() - 1)]).unwrap_or("{")); }
        1 => {}
        2 => w.put("case.json", ""),
        7 => w.put("case.json", ["[]", "null", "{}", "{\"time_step\": 0.08}", "not a case", "\u{0}\u{0}\u{0}"][(amount * 6.0) as usize % 6]),
        8 => {}
        10 => w.put("case.json", &(rf.json.clone() + ["x", "}", &rf.json, "\u{0}", "\n{}", " 1"][(amount * 6.0) as usize % 6])),
        11 => {
            // somebody starts from a recovery snapshot instead of resuming it
            let t = rf.times[(amount * rf.times.len() as f64) as usize % rf.times.len()];
            std::fs::write(w.path(if sc.json() { "case.json" } else { "case.run" }), &rf.by_time[&t.to_bits()].0).unwrap();
        }
        _ => w.put("case.json", &rf.json),
    }
    match kind {
        3 => plan.add("rerr", sc.get("at") as i64 / 3, sc.get("errno") as i64),
        4 => plan.add("staterr", sc.get("at") as i64 / 6, sc.get("errno") as i64),
        5 => plan.add("oom", (amount * rf.run.allocs as f64) as i64, 0),
        6 => { plan.rchop = (200 + (amount * 700.0) as i64, [1, 50, 5000][sc.get("at") as usize % 3], sc.seed as i64 >> 8); plan.add("reintr", sc.get("at") as i64, 0); }
        9 => plan.add("err", (sc.get("at") / 12.0) as i64, sc.get("errno") as i64),
        _ => {}
    }
    if kind == 8 { return c19_fields(sc, env, &rf, &mut w, leg, &plan, amount); }
    let before = w.image();
    let mut args = start_args(&sc.snap, leg);
    if kind == 11 && !sc.json() { for a in args.iter_mut() { if a == "case.json" { *a = "case.run".into(); } } }
    let run = w.exec(&args, &plan);
    note_state(env, &w);
    let after = w.image();
    if let Some(d) = changed(&before, &after) { return bad("case-altered", format!("{}: {} altered", name, d)); }
    let new: Vec<&String> = after.keys().filter(|f| !before.contains_key(*f)).collect();
    let must_fail = matches!(kind, 0 | 1 | 2 | 7 | 10 | 11);
    if run.ok() {
        if must_fail { return bad("unusable-accepted", format!("case description {} (amount {:.6}): {}", name, amount, run.end())); }
        if kind != 6 && run.fired.is_empty() { return Ok(vec![]); }
        if !run.completed() { return bad("wrong-result", format!("{}: exit 0 without completion", name)); }
        if let Err(Fail::Violation { msg, .. }) = same_history(&after[HIST], &rf.hist, rf.n) { return bad("wrong-result", format!("{} survived, but {}", name, msg)); }
    } else {
        if run.fired.is_empty() && !must_fail { return bad("refused", format!("{}: {} though nothing failed: {}", name, run.end(), run.panic_line())); }
        if kind == 6 { return bad("not-harmless", format!("{}: {} {}", name, run.end(), run.panic_line())); }
        if must_fail && !new.is_empty() { return bad("left-over", format!("case description {}: refused, but {:?} was created", name, new)); }
        // whatever was written before the failure is a prefix of the right thing
        is_prefix(after.get(HIST).map(|b| &b[..]).unwrap_or(&[]), &rf.hist, rf.n, 0)?;
    }
    env.probe(&format!("{}: {}", name, if run.ok() { "survived" } else { "refused" }));
    Ok(vec![format!("{}|{}|{}", sc.case.integrator, kind, (amount * 20.0) as i64)])
}

// ---------------------------------------------------------------------------------------------
// C22: simulations side by side. Several of them share the storage, each restarted by an operator of
// its own; a seeded scheduler says at every access to the storage whose turn it is.
fn c22_names(sc: &Scenario, i: usize) -> [String; 3] {
    let f = |a: &str, b: String, c: String| [a.to_string(), b, c];
    let own = format!("case{}.json", i);
    match sc.get("names") as i64 {
        0 => f(&own, format!("snap{}.bin", i), format!("hist{}.bin", i)),
        1 => { let s = ["run", "run1", "run10", "run_1"][i % 4]; f(&own, format!("{}.bin", s), format!("{}_history.bin", s)) }
        2 => f(&own, format!("run.{}.bin", i), format!("run.{}.history.bin", i)),
        3 => f(&own, format!("run.{}", ["bin", "json", "dat", "snap"][i % 4]), format!("history.{}", ["bin", "json", "dat", "out"][i % 4])),
        4 => f("case.json", format!("snap{}.bin", i), format!("hist{}.bin", i)),
        5 => [format!("d{}/case.json", i), format!("d{}/snap.bin", i), format!("d{}/hist.bin", i)],
        _ => { let s = ["night", "night.20231114", "night.20231115", "night.2023"][i % 4]; f(&own, format!("{}.bin", s), format!("{}.history", s)) }
    }
}
fn c22_case(sc: &Scenario, i: usize) -> CaseSpec {
    let mut c = sc.case.clone();
    if sc.get("names") as i64 != 4 {
        for p in c.planets.iter_mut() { p.anomaly_deg += 11.0 * i as f64; }
        c.n_steps = (c.n_steps * (1.0 - 0.15 * i as f64)).ceil();
    }
    c
}
fn c22_legs(r: &mut Rng, sc: &mut Scenario, rf: &Ref) {
    let n = r.range(2, 4);
    sc.set("n", n as f64);
    sc.set("names", r.below(7) as f64);
    sc.set("style", r.below(5) as f64);
    sc.set("turns", r.range(1, 1 << 40) as f64);
    sc.set("others", r.below(2) as f64);
    let rt0 = RT0 + r.range(0, 86400);
    let together = r.chance(0.7);
    for s in 0..n {
        let mut rt = rt0;
        for i in 0..r.range(0, 3) {
            let mut l = Leg::clean();
            l.mode = format!("{}", s);
            if together { rt += 3600; l.plan.rt = rt; l.plan.seed = r.range(1, 1 << 40); if r.chance(0.2) { l.plan.add("rtjump", r.range(0, 40), *r.pick(&[-90000, -3600, 50000, 86400 * 400])); } } else { clock(r, &mut l.plan, i as usize, &mut rt); }
            l.silent = r.chance(0.5);
            match r.below(8) {
                0 | 1 | 2 | 3 => { let frac = r.uni(0.1, 0.9); let f = crash(r, &rf.run.ops, if l.silent { 0 } else { rf.run.outs }, &sc.snap, frac); l.plan.faults.push(f); }
                4 => { let k = r.below(rf.run.ops.len().max(1) as u64) as i64; l.plan.add(*r.pick(&["err", "errfrom"]), k, *r.pick(&ERRNOS)); }
                5 => { let total: i64 = rf.run.ops.iter().map(|o| if let Op::Write { got, .. } = o { (*got).max(0) } else { 0 }).sum(); l.plan.budget = r.range(0, total.max(1)); }
                6 => { l.limit = r.range(1, (sc.case.n_steps as i64).max(2)) as u64; l.plan.mono_per_read = 1_000_000_000; }
                _ => l.plan.add("rerr", r.range(0, 20), EIO),
            }
            if r.chance(0.2) { chop(r, &mut l.plan); }
            if r.chance(0.3) { l.plan.surroundings = r.range(1, 1 << 40); }
            if r.chance(0.4) { l.plan.place = r.below(4) as u8; }
            sc.legs.push(l);
        }
    }
}
// What the operator of one simulation does next, from its own files only.
fn c22_next(sc: &Scenario, names: &[String; 3], i: usize, w: &World, before: &[Run], resumed: &mut bool) -> Option<(Vec<String>, Plan)> {
    let legs: Vec<&Leg> = sc.legs.iter().filter(|l| l.mode == i.to_string()).collect();
    let no = before.len();
    let last = before.last();
    if last.map(|l| l.completed()).unwrap_or(false) || no >= legs.len() + 4 { return None; }
    let own = Leg { plan: Plan { rt: legs.last().map(|l| l.plan.rt).unwrap_or(RT0) + 3600 * (1 + no as i64), seed: 1000 + no as i64 + 100 * i as i64, ..Plan::quiet() }, ..Leg::clean() };
    let leg = legs.get(no).map(|l| (*l).clone()).unwrap_or(own);
    let [case, snap, hist] = names;
    if let Some(l) = last { if *resumed && !l.ok() && !l.killed { std::fs::remove_file(w.path(snap)).ok(); } }
    if w.read(snap).is_none() {
        let (stem, ext) = { let k = snap.rfind('.').unwrap(); (&snap[..k], &snap[k..]) };
        let backup = w.files().into_iter().filter(|f| f.len() > stem.len() + 1 + ext.len() && f.starts_with(stem) && f[stem.len()..].starts_with('.') && f.ends_with(ext)).filter(|f| {
            let m = &f[stem.len() + 1..f.len() - ext.len()];
            m.len() >= 9 && m.starts_with(|c: char| c.is_ascii_digit()) && m.contains('T') && !m.contains('.') && !m.contains('/')
        }).max();
        if let Some(b) = backup { std::fs::rename(w.path(&b), w.path(snap)).ok(); }
    }
    let mut args = if w.read(snap).is_some() { *resumed = true; vec!["resume".to_string(), snap.clone(), hist.clone()] }
        else { *resumed = false; std::fs::remove_file(w.path(hist)).ok(); vec!["start".to_string(), case.clone(), snap.clone(), hist.clone()] };
    if leg.limit > 0 { args.push("--limit".into()); args.push(leg.limit.to_string()); }
    if leg.silent { args.push("--silent".into()); }
    Some((args, leg.plan))
}
// Whose turn it is, among those that are not done.
fn scheduler(sc: &Scenario, only: &[usize], span: u64) -> impl FnMut(&[usize]) -> usize {
    let mut r = Rng::new(sc.get("turns") as u64);
    let style = sc.get("style") as i64;
    let (mut cur, mut no) = (only[0], 0u64);
    let stalled = *r.pick(only);
    let stall_at = 1 + r.below(span);
    let mut rank: Vec<u64> = (0..=*only.iter().max().unwrap()).map(|_| 1000 + r.below(1_000_000)).collect();
    let mut low = 1000;
    let mut change: Vec<u64> = (0..4).map(|_| r.below(span * 7)).collect();
    change.sort();
    let mut own = 0u64;
    move |ready: &[usize]| -> usize {
        no += 1;
        cur = match style {
            1 => if ready.contains(&cur) && !r.chance(0.06) { cur } else { *r.pick(ready) },
            2 => *ready.iter().find(|i| **i > cur).unwrap_or(&ready[0]),
            3 => {
                // one stands still after some accesses until all others are done
                let rest: Vec<usize> = ready.iter().filter(|i| **i != stalled).cloned().collect();
                if own >= stall_at && !rest.is_empty() { *r.pick(&rest) } else { *r.pick(ready) }
            }
            4 => {
                // priorities, changed now and then
                if change.first().map(|c| no >= *c).unwrap_or(false) { change.remove(0); low -= 1; if ready.contains(&cur) { rank[cur] = low; } }
                *ready.iter().max_by_key(|i| rank[**i]).unwrap()
            }
            _ => *r.pick(ready),
        };
        if cur == stalled { own += 1; }
        cur
    }
}
const BYSTANDERS: [&str; 8] = ["notes.txt", "run.txt", "run2.bin", "snap.20200101TAM.txt", "run.bin.orig", "run.bin.old", "hist", "night.2022.bin"];
fn c22(sc: &Scenario, env: &Env) -> Res {
    let ids: Vec<usize> = (0..sc.get("n") as usize).filter(|i| sc.get(&format!("without{}", i)) == 0.0).collect();
    let names: Vec<[String; 3]> = (0..sc.get("n") as usize).map(|i| c22_names(sc, i)).collect();
    let cases: Vec<String> = (0..sc.get("n") as usize).map(|i| crate::case::case_json(&c22_case(sc, i))).collect();
    let go = |only: &[usize], others: bool| -> (Vec<Vec<Run>>, Vec<u8>, BTreeMap<String, Vec<u8>>) {
        let mut w = World::new(env);
        if others { for (k, f) in BYSTANDERS.iter().enumerate() { w.put(f, &format!("not yours {}\n", "x".repeat(k * 997))); } }
        for i in only { w.put(&names[*i][0], &cases[*i]); }
        let mut resumed = vec![false; names.len()];
        let mut turn = scheduler(sc, only, 60);
        let (runs, turns) = w.exec_together(only, &mut turn, &mut |w, i, before| c22_next(sc, &names[i], i, w, before, &mut resumed[i]));
        let img = w.image();
        (runs, turns, img)
    };
    let (runs, turns, img) = go(&ids, sc.get("others") > 0.0);
    let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    if sc.get("others") > 0.0 { for (k, f) in BYSTANDERS.iter().enumerate() { want.insert(f.to_string(), format!("not yours {}\n", "x".repeat(k * 997)).into_bytes()); } }
    let mut keys = vec![];
    for i in &ids {
        let (alone, _, files) = go(&[*i], false);
        want.extend(files);
        for (no, (a, b)) in runs[*i].iter().zip(alone[*i].iter()).enumerate() {
            let what = if a.code != b.code || a.signal != b.signal { format!("ended with {} {}, alone with {} {}", a.end(), a.panic_line(), b.end(), b.panic_line()) }
                else if a.stdout != b.stdout { format!("printed {} bytes, alone {}", a.stdout.len(), b.stdout.len()) }
                else if a.fired != b.fired { format!("met {:?}, alone {:?}", a.fired, b.fired) }
                else { continue };
            return bad("disturbed", format!("simulation {} of {} ({}), process {}: {}", i, ids.len(), names[*i][1], no, what));
        }
        if runs[*i].len() != alone[*i].len() { return bad("disturbed", format!("simulation {} ({}) took {} processes, alone {}", i, names[*i][1], runs[*i].len(), alone[*i].len())); }
        for r in &runs[*i] { for f in &r.fired { keys.push(format!("{} {} names={} style={}", sc.case.integrator, f, sc.get("names"), sc.get("style"))); } }
        if runs[*i].last().map(|r| r.completed()).unwrap_or(false) { env.probe("simulations completed side by side"); }
    }
    for (f, b) in &want { match img.get(f) {
        None => return bad("file-gone", format!("{} is not there; its simulation alone leaves it with {} bytes", f, b.len())),
        Some(a) if a != b => return bad("file-differs", format!("{} has {} bytes that are not the {} bytes its simulation leaves alone", f, a.len(), b.len())),
        _ => {}
    } }
    if let Some(f) = img.keys().find(|f| !want.contains_key(*f)) { return bad("file-appeared", format!("{} is left, which no simulation leaves alone", f)); }
    env.probe_n("turns taken", turns.len() as u64);
    env.probe_n("changes from one simulation to another", turns.windows(2).filter(|p| p[0] != p[1]).count() as u64);
    env.stats.states.lock().unwrap().insert(crate::rng::fnv_bytes(&turns));
    keys.push(format!("{} names={} style={} n={}", sc.case.class(), sc.get("names"), sc.get("style"), ids.len()));
    Ok(keys)
}
