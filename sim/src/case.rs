// Simulation cases: generated from a seed, built with the public API of the library under test.
use crate::rng::Rng;
use posidonius::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;

pub const MAX_DISTANCE: f64 = 100.0; // AU from the host: bodies beyond are ejected
pub const INITIAL_YEARS: f64 = 1000.0;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Planet {
    pub mass_earth: f64,
    pub a: f64,
    pub e: f64,
    pub inc_deg: f64,
    pub node_deg: f64,
    pub anomaly_deg: f64,
    pub obliquity_deg: f64,
    pub rot_hours: f64,
    pub jupiter_evolution: u8, // 0: none, 1: LeconteChabrier2013(false), 2: LeconteChabrier2013(true)
    pub reference_star: bool,  // elements referred to an explicit particle instead of the most massive one
    #[serde(default)]
    pub spared: u8, // effects the body does not take part in: 1 tides, 2 flattening, 4 general relativity, 8 disk
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CaseSpec {
    pub integrator: String, // whfast, ias15, leapfrog
    pub coords: u8,         // 0 Jacobi, 1 democratic heliocentric, 2 WHDS
    pub star_mass: f64,
    pub star_evolution: String, // none, gb2017, bm2016, b2015, l2011, b1998
    pub star_at: usize, // index of the star among the bodies
    pub planets: Vec<Planet>,
    pub tides: String, // none, ctl, creep, kaula
    pub flattening: bool,
    pub gr: String, // none, kidder, anderson, newhall
    pub disk: bool,
    pub wind: bool,
    pub time_step: f64,
    pub n_steps: f64,
    pub hist_period: f64,
    pub rec_period: f64,
    // encounter: the last planet is retrograde and meets the one before it at `fate_t` days at a distance of `gap` AU;
    // roche, collision: the last planet falls below the Roche limit or into the star; ejection: it leaves 100 AU at `fate_t`
    #[serde(default)]
    pub fate: String,
    #[serde(default)]
    pub fate_t: f64,
    #[serde(default)]
    pub gap: f64,
    #[serde(default = "long")]
    pub disk_days: f64, // lifetime of the disk
    #[serde(default)]
    pub ignored: u8, // effects the bodies are set up for but the simulation leaves out: 1 tides, 2 flattening, 4 general relativity, 8 disk, 16 wind
    #[serde(default)]
    pub companion: f64, // mass of a distant second star (after all other bodies); 0: none
    #[serde(default)]
    pub disk_elsewhere: bool, // the disk is the one of the companion
    #[serde(default)]
    pub wind_all: bool, // the planets have winds too
}
fn long() -> f64 { 1.0e5 * 365.25 }

impl CaseSpec {
    pub fn n_particles(&self) -> usize { 1 + self.planets.len() + (self.companion > 0.0) as usize }
    pub fn time_limit(&self) -> f64 { self.time_step * self.n_steps }
    pub fn evolving(&self) -> bool { self.star_evolution != "none" || self.planets.iter().any(|p| p.jupiter_evolution != 0) }
    pub fn star_index(&self) -> usize { self.star_at.min(self.planets.len()) }
    // the planet behind a body, if it is one
    pub fn planet_of(&self, body: usize) -> Option<&Planet> {
        let s = self.star_index();
        if body == s { None } else { self.planets.get(if body < s { body } else { body - 1 }) }
    }
    // tides act on the body
    pub fn tides_on(&self, p: &Planet) -> bool { self.tides != "none" && p.spared & 1 == 0 }
    // a body that is to fall below its Roche limit is larger than its mass lets expect
    pub fn swollen(&self, planet: usize) -> f64 { if self.fate == "roche" && planet + 1 == self.planets.len() { 9.0 } else { 1.0 } }
    pub fn star_radius(&self) -> f64 { (if self.fate == "collision" { 14.0 * self.star_mass.powf(1.0 / 3.0) } else if self.star_mass < 0.2 { 0.12 } else { 1.0 }) * constants::R_SUN }
    pub fn label(&self) -> String {
        format!("{}{} n={} tides={} flat={} gr={} disk={} wind={} evo={} dt={} steps={} hist={} rec={}",
            self.integrator, if self.integrator == "whfast" { format!("/{}", self.coords) } else { String::new() },
            self.n_particles(), self.tides, self.flattening as u8, self.gr, self.disk as u8, self.wind as u8,
            self.star_evolution, self.time_step, self.n_steps, self.hist_period, self.rec_period) + &self.extras() + &if self.fate.is_empty() { String::new() } else { format!(" {}", self.fate) }
    }
    fn extras(&self) -> String {
        let mut t = String::new();
        if self.star_index() > 0 { t += &format!(" star={}", self.star_index()); }
        if self.companion > 0.0 { t += if self.companion > self.star_mass { " companion" } else { " light-companion" }; }
        if self.disk_elsewhere { t += " disk-of-companion"; }
        if self.wind_all { t += " winds"; }
        if self.ignored > 0 { t += &format!(" ignored={}", self.ignored); }
        if self.planets.iter().any(|p| p.spared > 0) { t += &format!(" spared={:?}", self.planets.iter().map(|p| p.spared).collect::<Vec<_>>()); }
        t
    }
    pub fn class(&self) -> String {
        format!("{}/{}/{}/{}/{}/{}/{}/{}/{}/{}", self.integrator, self.coords, self.planets.len(), self.tides, self.flattening as u8, self.gr,
            self.disk as u8, self.wind as u8, self.star_evolution, self.planets.iter().map(|p| p.jupiter_evolution).max().unwrap_or(0)) + &self.extras() + &self.fate
    }
}

#[derive(Clone, Copy)]
pub struct GenOpts {
    pub max_steps: i64,
    pub min_steps: i64,
    pub dyadic: bool,
    pub force_evolution: bool,
    pub kaula: bool,
    pub encounter: f64, // probability of a close encounter, with IAS15
    pub fatal: bool,    // a body is lost
    pub very_long: bool,
    pub star: Option<(&'static str, f64)>, // model and mass of the star
    pub long: f64,      // probability of a run of thousands of steps
}
impl Default for GenOpts {
    fn default() -> Self { GenOpts { max_steps: 70, min_steps: 12, dyadic: false, force_evolution: false, kaula: true, encounter: 0.4, fatal: false, very_long: false, star: None, long: 0.0 } }
}

pub fn gen_case(r: &mut Rng, o: GenOpts) -> CaseSpec {
    let integrator = r.pick(&["whfast", "whfast", "ias15", "ias15", "leapfrog"]).to_string();
    let n = if r.chance(0.07) { *r.pick(&[6, 9]) } else { r.pick(&[1, 2, 2, 3, 4]).clone() };
    let evo_p = if o.force_evolution { 1.0 } else { 0.45 };
    let star_evolution = if r.chance(evo_p) { r.pick(&["gb2017", "bm2016", "b2015", "l2011", "b1998"]).to_string() } else { "none".into() };
    let star_mass: f64 = match star_evolution.as_str() {
        "b1998" => *r.pick(&[0.1, 1.0]),
        "b2015" | "l2011" | "gb2017" | "bm2016" => *r.pick(masses(&star_evolution)),
        _ => *r.pick(&[0.08, 0.5, 1.0]),
    };
    let (star_evolution, star_mass) = match o.star { Some((e, m)) => (e.to_string(), m), None => (star_evolution, star_mass) };
    let tides = if o.kaula { r.pick(&["none", "ctl", "ctl", "ctl", "creep", "kaula"]).to_string() } else { r.pick(&["none", "ctl", "ctl", "creep"]).to_string() };
    let mut a = r.uni(0.03, 0.08);
    let light = (star_mass / 0.08).min(1.0); // planets of brown dwarfs
    // the jumps of a tabulated Love number make IAS15 shrink its step without end close to the star
    if tides == "kaula" && integrator == "ias15" { a *= 5.0; }
    let mut planets = vec![];
    for _ in 0..n {
        // a body of Jupiter's size needs a mass that keeps its Roche limit well inside its orbit
        let jupiter_evolution = if r.chance(if o.force_evolution { 0.5 } else { 0.15 }) { 1 + r.below(2) as u8 } else { 0 };
        planets.push(Planet {
            mass_earth: light * if jupiter_evolution > 0 { r.uni(200.0, 400.0) } else { r.uni(0.3, 12.0) },
            a,
            e: if r.chance(0.3) { 0.0 } else { r.uni(0.0, if jupiter_evolution > 0 { 0.05 } else { 0.12 }) },
            inc_deg: if tides == "creep" { 0.0 } else { r.uni(0.0, 8.0) },
            node_deg: r.uni(0.0, 300.0),
            anomaly_deg: r.uni(0.0, 350.0),
            obliquity_deg: if tides == "creep" { 0.0 } else { r.uni(0.0, 30.0) },
            rot_hours: r.uni(8.0, 80.0),
            jupiter_evolution,
            reference_star: r.chance(0.3),
            spared: 0,
        });
        a *= r.uni(1.7, 2.6);
        if a > 40.0 { break; }
    }
    // the creep tide follows the orbit around the star, which must not become unbound for a moment
    // because of the star's own motion around a massive inner planet
    if tides == "creep" {
        let mut reflex = 0.0;
        let bound = planets.iter().take_while(|p| {
            let free = reflex < 0.12 * (star_mass / p.a).sqrt();
            reflex += 2.0 * p.mass_earth * 3e-6 / star_mass * (star_mass / p.a).sqrt();
            free
        }).count();
        planets.truncate(bound);
    }
    let time_step = if o.dyadic { *r.pick(&[0.0625, 0.03125, 0.125]) } else { *r.pick(&[0.08, 0.05, 0.0625, 0.1, 0.03]) };
    let n_steps = r.range(o.min_steps, o.max_steps) as f64;
    // Periods in steps: shorter than a step, multiples, and not multiples of it.
    let hist = if o.dyadic { *r.pick(&[1.0, 1.0, 2.0, 3.0, 5.0, 1.5, 2.5, 0.5]) } else { *r.pick(&[1.0, 1.0, 2.0, 3.0, 1.7, 0.6, 4.3]) };
    let rec = *r.pick(&[1.0, 2.0, 3.0, 5.0, 7.5, 11.0, 4.0]);
    let (mut fate, mut fate_t, mut gap) = (String::new(), 0.0, 0.0);
    let (mut star_evolution, mut n_steps, mut tides) = (star_evolution, n_steps, tides);
    let calm = |p: &mut Planet, e: f64| { p.e = e; p.inc_deg = 0.0; if p.jupiter_evolution > 0 { p.jupiter_evolution = 0; p.mass_earth = 5.0; } };
    if o.fatal {
        star_evolution = "none".into();
        for p in planets.iter_mut() { let e = p.e; calm(p, e); }
        fate = r.pick(&["roche", "roche", "collision", "ejection"]).to_string();
        fate_t = time_step * n_steps * r.uni(0.2, 0.95);
        if fate != "ejection" { n_steps = 420.0; }
        if fate == "ejection" && tides == "creep" { tides = "none".into(); } // not meant for unbound orbits
        let l = planets.len() - 1;
        // the other planets stay well outside the orbit that ends
        if fate != "ejection" { for p in planets[..l].iter_mut() { p.a = 0.5 * p.a / 0.05; } let a = *r.pick(&[0.09, 0.1, 0.11]) * star_mass.powf(1.0 / 3.0); let q = &mut planets[l]; q.a = a; q.e = r.uni(0.45, 0.6); q.mass_earth = if fate == "roche" { r.uni(0.8, 2.0) } else { 300.0 }; q.anomaly_deg = r.uni(150.0, 260.0); }
    } else if integrator == "ias15" && planets.len() > 1 && tides == "none" || tides == "ctl" && integrator == "ias15" && planets.len() > 1 {
        let l = planets.len();
        // two bodies that pass slowly would fall onto each other
        if r.chance(o.encounter) && star_mass / planets[l - 2].a > 0.05 {
            calm(&mut planets[l - 2], 0.0);
            calm(&mut planets[l - 1], 0.0);
            fate = "encounter".into();
            fate_t = time_step * n_steps * r.uni(0.1, 0.9);
            gap = r.uni(1.2e-4, 5e-4);
            for p in planets[l - 2..].iter_mut() { p.mass_earth = r.uni(0.03, 0.6); }
        }
    }
    let mut c = CaseSpec {
        integrator,
        coords: r.below(3) as u8,
        star_mass,
        star_evolution,
        star_at: 0,
        planets,
        flattening: tides == "creep" || r.chance(0.5),
        tides,
        gr: r.pick(&["none", "kidder", "anderson", "newhall"]).to_string(),
        disk: r.chance(0.3),
        wind: r.chance(0.4),
        time_step,
        n_steps,
        hist_period: hist * time_step,
        rec_period: rec * time_step,
        fate,
        fate_t,
        gap,
        disk_days: if r.chance(0.5) { r.uni(5.0, 500.0) } else { long() },
        ignored: 0,
        companion: 0.0,
        disk_elsewhere: false,
        wind_all: false,
    };
    if r.chance(0.2) { c.star_at = r.range(1, c.planets.len() as i64) as usize; }
    if r.chance(0.3) && c.tides != "creep" { for p in c.planets.iter_mut() { if r.chance(0.5) { p.spared = r.below(16) as u8; } } }
    if r.chance(0.15) && c.tides != "creep" { c.ignored = r.below(32) as u8; }
    // wider orbits and spins
    if c.fate.is_empty() && c.tides != "creep" {
        if c.planets.len() == 1 && c.planets[0].jupiter_evolution == 0 && r.chance(0.5) { let p = &mut c.planets[0]; p.a = p.a.max(0.05); p.e = r.uni(0.1, if c.tides == "kaula" { 0.25 } else { 0.5 }); }
        if r.chance(0.3) { for p in c.planets.iter_mut() { p.inc_deg = r.uni(0.0, 70.0); p.obliquity_deg = r.uni(0.0, 170.0); } }
    }
    // the star with the planets is not the most massive body
    if c.fate.is_empty() && c.integrator != "whfast" && c.star_evolution == "none" && c.planets.len() < 9 && r.chance(0.2) {
        if r.chance(0.6) {
            c.gr = "none".into();
            c.companion = c.star_mass * r.uni(1.1, 2.0);
        } else {
            c.companion = c.star_mass * r.uni(0.2, 0.9);
        }
        if r.chance(0.5) { c.disk = true; c.disk_elsewhere = true; }
    }
    c.wind_all = c.wind && r.chance(0.25);
    if r.chance(o.long) {
        // thousands of steps and records
        c.fate = String::new();
        c.companion = 0.0;
        c.disk_elsewhere = false;
        c.star_evolution = "none".into();
        c.star_at = c.star_at.min(1);
        if c.tides != "none" { c.tides = "ctl".into(); }
        c.planets.truncate(1);
        for p in c.planets.iter_mut() { p.jupiter_evolution = 0; p.mass_earth = 2.0; p.e = p.e.min(0.1); p.a = p.a.max(0.05); p.inc_deg = p.inc_deg.min(8.0); }
        c.n_steps = if o.very_long { 80_000.0 } else if r.chance(0.25) { 66_500.0 } else { (1500.0 * 6.0f64.powf(r.f())).round() };
        if c.n_steps > 60_000.0 && c.integrator == "ias15" { c.integrator = "leapfrog".into(); }
        c.hist_period = c.time_step * if c.n_steps > 60_000.0 || o.dyadic { 1.0 } else { *r.pick(&[1.0, 0.6, 1.7]) };
        c.rec_period = c.time_step * (c.n_steps / r.uni(3.0, 30.0)).round();
        if c.n_steps > 60_000.0 && o.very_long { c.rec_period = c.time_step * (c.n_steps / r.uni(80.0, 120.0)).round(); }
    }
    c
}

// ---------------------------------------------------------------------------------------------
// Synthetic evolution tables. The repository's own input data is not shipped; these have many
// irregular nodes inside one simulated run, so interpolation is exercised on every few steps.
pub struct Table { pub years: Vec<f64>, pub radius: Vec<f64>, pub rg2: Vec<f64>, pub love: Vec<f64>, pub invq: Vec<f64> }

pub fn table(kind: &str) -> Table {
    let mut r = Rng::new(crate::rng::fnv(kind));
    let (mut y, mut t) = (vec![], Table { years: vec![], radius: vec![], rg2: vec![], love: vec![], invq: vec![] });
    let mut days = -40.0;
    let mut burst = 0; // many nodes within a time step
    while days < 260.0 {
        if kind == "b2015" && y.len() < 2900 && days > 0.0 {
            for k in 0..2900 { y.push(INITIAL_YEARS + (0.003 + 0.0001 * k as f64) / 365.25); }
            days = f64::max(days, 0.32);
        }
        y.push(INITIAL_YEARS + days / 365.25);
        if burst == 0 && r.chance(0.12) { burst = r.range(15, 50); }
        days += if burst > 0 { burst -= 1; r.uni(0.002, 0.01) } else if r.chance(0.3) { r.uni(0.03, 0.4) } else { r.uni(0.3, 2.5) };
    }
    let r0 = match kind { "b1998big" => 6.9e8, "jupiter" => 7.0e7, _ => 0.9 };
    for i in 0..y.len() {
        let dense = i + 1 < y.len() && (y[i + 1] - y[i]) * 365.25 < 0.001; // no noise where thousands of nodes fall into one time step
        let q = if dense { 0.0 } else { 1.0 };
        t.radius.push(r0 * (1.0 + 0.2 * (i as f64 / y.len() as f64) + q * r.uni(-0.02, 0.02)));
        t.rg2.push(0.2 + q * r.uni(-0.01, 0.01));
        t.love.push(0.35 + r.uni(-0.02, 0.02));
        t.invq.push(1.0e-4 * (1.0 + r.uni(-0.3, 0.3)));
    }
    t.years = y;
    t
}
pub fn table_kind(evo: &str, mass: f64) -> &'static str {
    match evo { "b1998" if mass > 0.5 => "b1998big", "b1998" => "b1998small", "gb2017" => "gb2017", "bm2016" => "bm2016", "b2015" => "b2015", "l2011" => "l2011", "jupiter" => "jupiter", _ => "none" }
}
// The masses each model has a table for, and what sets the table apart in its file name.
pub const GB2017: [f64; 10] = [0.3, 0.4, 0.6, 0.7, 0.8, 0.9, 1.0, 1.1, 1.2, 1.4];
pub const BM2016: [f64; 12] = [0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0, 1.1, 1.2, 1.3, 1.4, 1.5];
pub const L2011: [f64; 12] = [0.01, 0.012, 0.015, 0.02, 0.03, 0.04, 0.05, 0.06, 0.07, 0.072, 0.075, 0.08];
pub const B2015: [f64; 29] = [0.01, 0.015, 0.02, 0.03, 0.04, 0.05, 0.06, 0.07, 0.072, 0.075, 0.08, 0.09, 0.11, 0.13, 0.15, 0.17, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0, 1.1, 1.2, 1.3, 1.4];
pub fn masses(kind: &str) -> &'static [f64] { match kind { "gb2017" => &GB2017, "bm2016" => &BM2016, "l2011" => &L2011, "b2015" => &B2015, _ => &[1.0] } }
// The table of a body of the `k`-th mass: each file has values of its own.
fn table_for(kind: &str, k: usize) -> Table {
    let mut t = table(kind);
    let k = k as f64;
    for v in t.radius.iter_mut() { *v *= 1.0 + 0.004 * k; }
    for v in t.rg2.iter_mut() { *v *= 1.0 + 0.003 * k; }
    for v in t.invq.iter_mut() { *v *= 1.0 + 0.03 * k; }
    t
}
// Radii of gyration of Leconte 2011 come at times of their own, that do not reach as far.
fn aux(len: usize) -> Vec<usize> { (5..len - 4).step_by(3).collect() }
// The table in the units of the simulation: days after the start, AU.
struct Nodes { x: Vec<f64>, radius: Vec<f64>, rg2: Vec<f64>, love: Vec<f64>, invq: Vec<f64> }
thread_local!(static NODES: std::cell::RefCell<BTreeMap<(&'static str, usize), std::rc::Rc<Nodes>>> = Default::default());
fn nodes(evo: &str, mass: f64) -> std::rc::Rc<Nodes> {
    let kind = table_kind(evo, mass);
    let k = masses(kind).iter().position(|m| (m - mass).abs() < 1e-9).unwrap_or(0);
    if let Some(n) = NODES.with(|c| c.borrow().get(&(kind, k)).cloned()) { return n; }
    let tb = table_for(kind, k);
    let unit = match kind { "b1998big" | "jupiter" => constants::M2AU, _ => constants::R_SUN };
    let mut n = Nodes {
        x: tb.years.iter().map(|y| if evo == "gb2017" { 10f64.powf(fmt(y.log10())) } else { fmt(*y) }).map(|y| y * 365.25 - INITIAL_YEARS * 365.25).collect(),
        radius: tb.radius.iter().map(|v| fmt(*v) * unit).collect(),
        rg2: tb.rg2.iter().map(|v| fmt(*v)).collect(),
        love: tb.love.iter().map(|v| fmt(*v)).collect(),
        invq: tb.invq.iter().map(|v| if evo == "gb2017" { 1.0 / 10f64.powf(fmt(-v.log10())) } else { fmt(*v) }).collect(),
    };
    if evo == "l2011" {
        let a = aux(n.x.len());
        let (first, last) = (a[0], *a.last().unwrap());
        let mut g = vec![];
        for i in first..=last {
            let j = a.iter().rposition(|q| *q <= i).unwrap().min(a.len() - 2);
            let (y0, y1) = (fmt(tb.years[a[j]]), fmt(tb.years[a[j + 1]]));
            let w = (fmt(tb.years[i]) - y0) / (y1 - y0);
            g.push(((n.rg2[a[j]] * (1.0 - w) + n.rg2[a[j + 1]] * w) * 1e7).round() / 1e7);
        }
        n.rg2 = g;
        n.x = n.x[first..=last].to_vec();
        n.radius = n.radius[first..=last].to_vec();
    }
    let n = std::rc::Rc::new(n);
    NODES.with(|c| c.borrow_mut().insert((kind, k), n.clone()));
    n
}
impl Nodes {
    fn at(&self, t: f64) -> (usize, f64) { let i = self.x.iter().rposition(|v| *v <= t).unwrap_or(0).min(self.x.len() - 2); (i, (t - self.x[i]) / (self.x[i + 1] - self.x[i])) }
}
// Radius in AU, squared radius of gyration and inverse quality factor (if the model tabulates them) at `t` days after the start.
pub fn table_at(evo: &str, mass: f64, t: f64) -> (f64, Option<f64>, Option<f64>) {
    let n = nodes(evo, mass);
    let (i, w) = n.at(t);
    let lin = |v: &Vec<f64>| v[i] * (1.0 - w) + v[i + 1] * w;
    let rg2 = match evo { "b2015" | "l2011" | "jupiter" => Some(lin(&n.rg2)), _ => None };
    let invq = match evo { "bm2016" | "jupiter" | "gb2017" => Some(lin(&n.invq)), _ => None }; // inverse of the tidal quality factor
    (lin(&n.radius), rg2, invq)
}
// Days after the start at which the first of the evolution tables in use ends.
pub fn table_end(c: &CaseSpec) -> f64 {
    let end = |evo: &str| *nodes(evo, c.star_mass).x.last().unwrap();
    let mut e = f64::INFINITY;
    if c.star_evolution != "none" { e = e.min(end(&c.star_evolution)); }
    if c.planets.iter().any(|p| p.jupiter_evolution != 0) { e = e.min(end("jupiter")); }
    e
}
pub fn table_love(t: f64) -> f64 {
    let n = nodes("jupiter", 1.0);
    let (i, w) = n.at(t);
    n.love[i] * (1.0 - w) + n.love[i + 1] * w
}
fn s(v: f64) -> String { format!("{:.15e}", v) }
fn fmt(v: f64) -> f64 { s(v).parse().unwrap() }

pub fn write_tables(base: &Path) {
    let w = |p: &str, rows: Vec<Vec<f64>>| {
        let f = base.join("input").join(p);
        fs::create_dir_all(f.parent().unwrap()).unwrap();
        let txt: Vec<String> = rows.iter().map(|r| r.iter().map(|v| s(*v)).collect::<Vec<_>>().join(" ")).collect();
        fs::write(f, if txt.is_empty() { String::new() } else { txt.join("\n") + "\n" }).unwrap();
    };
    w("empty.dat", vec![]);
    for (k, m) in GB2017.iter().enumerate() {
        let t = table_for("gb2017", k);
        w(&format!("Gallet_Bolmont_2017/M_{:02}_Z_0134.dat", (m * 10.0).round()), (0..t.years.len()).map(|i| vec![t.years[i].log10(), 0., 0., t.radius[i], 0., 0., 0., 0., 0., 0., -t.invq[i].log10()]).collect());
    }
    for (k, m) in BM2016.iter().enumerate() {
        let t = table_for("bm2016", k);
        w(&format!("Bolmont_Mathis_2016/L{:02}Z02r.dat", (m * 10.0).round()), (0..t.years.len()).map(|i| vec![t.years[i], t.radius[i], t.invq[i]]).collect());
    }
    for (k, m) in B2015.iter().enumerate() {
        let t = table_for("b2015", k);
        w(&format!("Baraffe_2015/{:04}_Msun.dat", (m * 1000.0).round()), (0..t.years.len()).map(|i| vec![t.years[i], 0., t.radius[i], t.rg2[i]]).collect());
    }
    let ts: Vec<Table> = (0..L2011.len()).map(|k| table_for("l2011", k)).collect();
    for (t, m) in ts.iter().zip(L2011.iter()) { w(&format!("Leconte_2011/mass_{:.4}.dat", m * 1000.0), (0..t.years.len()).map(|i| vec![t.years[i], t.radius[i]]).collect()); }
    w("Leconte_2011/rg2BD.dat", aux(ts[0].years.len()).into_iter().map(|i| { let mut v = vec![ts[0].years[i]]; v.extend(ts.iter().map(|t| t.rg2[i])); v }).collect());
    let t = table("b1998small");
    w("Baraffe_1998/01Msun.dat", (0..t.years.len()).map(|i| vec![t.years[i], t.radius[i]]).collect());
    let t = table("b1998big");
    w("Baraffe_1998/SRad_Spli_M-1_0000.dat", (0..t.years.len()).map(|i| vec![t.years[i], t.radius[i]]).collect());
    let t = table("jupiter");
    w("Leconte_Chabrier_2013/Jupiter.dat", (0..t.years.len()).map(|i| vec![t.years[i], t.radius[i], t.love[i], t.rg2[i], 0., t.invq[i]]).collect());
}

fn kaula(scale: f64) -> KaulaParameters {
    let (mut w, mut re, mut im) = ([0.0; 1024], [0.0; 1024], [0.0; 1024]);
    for i in 0..1024 {
        w[i] = 1.0e-9 * (1.0 + i as f64 * 0.5).powf(2.2);
        re[i] = scale * (0.3 + 0.2 / (1.0 + i as f64 / 200.0));
        im[i] = -scale * 0.05 * (i as f64 / 100.0) / (1.0 + (i as f64 / 100.0).powi(2));
    }
    KaulaParameters { love_number_excitation_frequency: w, real_part_love_number: re, imaginary_part_love_number: im,
        num_datapoints: 1024.0, polynomials: Polynomials::new(), kaula_tidal_force: Axes { x: 0., y: 0., z: 0. } }
}

fn universe(c: &CaseSpec) -> Universe {
    let zero = Axes { x: 0., y: 0., z: 0. };
    let spin = Axes { x: 0., y: 0., z: constants::TWO_PI / 2.9 };
    let star_radius = c.star_radius();
    let mut star = Particle::new(c.star_mass, star_radius, 0.45, zero, zero, spin);
    let visc = 1.0e19 * constants::AU * constants::DAY / constants::M_SUN;
    match c.tides.as_str() {
        "ctl" | "creep" => star.set_tides(Tides::new(TidesEffect::CentralBody(TidalModel::ConstantTimeLag(ConstantTimeLagParameters { dissipation_factor: 4.992 * 3.845764e-2, dissipation_factor_scale: [1.0, 1.7][c.planets.len() % 2], love_number: 0.03 })))),
        "kaula" => star.set_tides(Tides::new(TidesEffect::CentralBody(TidalModel::Kaula(kaula(0.01))))),
        _ => {}
    }
    if c.flattening { star.set_rotational_flattening(RotationalFlattening::new(RotationalFlatteningEffect::CentralBody(RotationalFlatteningModel::OblateSpheroid(OblateSpheroidParameters { love_number: 0.03 })))); }
    let gr = match c.gr.as_str() { "kidder" => GeneralRelativityImplementation::Kidder1995, "anderson" => GeneralRelativityImplementation::Anderson1975, "newhall" => GeneralRelativityImplementation::Newhall1983, _ => GeneralRelativityImplementation::Disabled };
    if c.gr != "none" { star.set_general_relativity(GeneralRelativity::new(GeneralRelativityEffect::CentralBody(gr))); }
    if c.wind { star.set_wind(Wind::new(WindEffect::Interaction, 4.0e-18, 1.7592918860102842)); }
    let disk = Disk::new(DiskEffect::CentralBody(DiskProperties { inner_edge_distance: 0.05, outer_edge_distance: 100.0, lifetime: c.disk_days, alpha: 1.0e-2,
        surface_density_normalization: 1.0e4 / constants::M_SUN * constants::AU.powi(2), mean_molecular_weight: 2.4 }));
    if c.disk && !c.disk_elsewhere { star.set_disk(disk); }
    let evo = match c.star_evolution.as_str() {
        "gb2017" => EvolutionType::GalletBolmont2017(c.star_mass), "bm2016" => EvolutionType::BolmontMathis2016(c.star_mass), "b2015" => EvolutionType::Baraffe2015(c.star_mass),
        "l2011" => EvolutionType::Leconte2011(c.star_mass), "b1998" => EvolutionType::Baraffe1998(c.star_mass), _ => EvolutionType::NonEvolving };
    star.set_evolution(evo);
    let mut particles = vec![];
    for (no, p) in c.planets.iter().enumerate() {
        let last = no + 1 == c.planets.len();
        let mass = p.mass_earth * constants::M_EARTH;
        let radius = if p.jupiter_evolution > 0 { 10.9 } else { p.mass_earth.powf(0.27) } * constants::R_EARTH * c.swollen(no);
        let d = constants::DEG2RAD;
        let gm = constants::G * (mass + c.star_mass);
        let (x, y, z, vx, vy, vz) = tools::calculate_cartesian_coordinates(gm, p.a * (1.0 - p.e), p.e, p.inc_deg * d, (p.node_deg + 10.0) * d, p.node_deg * d, p.anomaly_deg * d);
        let (mut x, mut y, mut z, mut vx, mut vy, mut vz) = (x, y, z, vx, vy, vz);
        if last && c.fate == "encounter" {
            let o: &Particle = &particles[no - 1];
            let (ox, oy) = (o.heliocentric_position.x, o.heliocentric_position.y);
            let a = (ox * ox + oy * oy).sqrt();
            let n = (gm / a.powi(3)).sqrt();
            let phi = oy.atan2(ox) + 2.0 * n * c.fate_t;
            let (b, v) = (a + c.gap, n * a);
            x = b * phi.cos(); y = b * phi.sin(); z = 0.0;
            vx = v * phi.sin(); vy = -v * phi.cos(); vz = 0.0;
        }
        if last && c.fate == "ejection" {
            let v = 0.02;
            let f = p.node_deg * d;
            let r0 = MAX_DISTANCE - v * c.fate_t;
            x = r0 * f.cos(); y = r0 * f.sin(); z = 0.0;
            vx = v * f.cos(); vy = v * f.sin(); vz = 0.0;
        }
        let spin = tools::calculate_spin(constants::TWO_PI / (p.rot_hours / 24.0), p.inc_deg * d, p.obliquity_deg * d, 0.0);
        let mut b = Particle::new(mass, radius, 0.55, Axes { x, y, z }, Axes { x: vx, y: vy, z: vz }, spin);
        match if p.spared & 1 > 0 { "none" } else { c.tides.as_str() } {
            "ctl" => b.set_tides(Tides::new(TidesEffect::OrbitingBody(TidalModel::ConstantTimeLag(ConstantTimeLagParameters { dissipation_factor: 2.0 * constants::K2 * 2.465278e-3 / (3.0 * radius.powi(5)), dissipation_factor_scale: [1.0, 0.6, 2.5][p.node_deg as usize % 3], love_number: 0.299 })))),
            "creep" => {
                let q = CreepCoplanarParameters { uniform_viscosity_coefficient: visc };
                b.rotational_flattening = RotationalFlattening::new(RotationalFlatteningEffect::OrbitingBody(RotationalFlatteningModel::CreepCoplanar(q)));
                b.set_tides(Tides::new(TidesEffect::OrbitingBody(TidalModel::CreepCoplanar(q))));
            }
            "kaula" => b.set_tides(Tides::new(TidesEffect::OrbitingBody(TidalModel::Kaula(kaula(1.0))))),
            _ => {}
        }
        if c.flattening && c.tides != "creep" && p.spared & 2 == 0 { b.set_rotational_flattening(RotationalFlattening::new(RotationalFlatteningEffect::OrbitingBody(RotationalFlatteningModel::OblateSpheroid(OblateSpheroidParameters { love_number: 0.9532 })))); }
        if c.gr != "none" && p.spared & 4 == 0 { b.set_general_relativity(GeneralRelativity::new(GeneralRelativityEffect::OrbitingBody)); }
        if c.wind_all { b.set_wind(Wind::new(WindEffect::Interaction, 4.0e-28, 0.9)); }
        if c.disk && p.spared & 8 == 0 { b.set_disk(Disk::new(DiskEffect::OrbitingBody)); }
        match p.jupiter_evolution { 1 => b.set_evolution(EvolutionType::LeconteChabrier2013(false)), 2 => b.set_evolution(EvolutionType::LeconteChabrier2013(true)), _ => {} }
        if p.reference_star { b.reference = Reference::Particle(c.star_index()); }
        particles.push(b);
    }
    particles.insert(c.star_index(), star);
    if c.companion > 0.0 {
        // circular, far away; everything was laid out around the star so far
        let (d, v) = (15.0, (constants::G * (c.companion + c.star_mass) / 15.0).sqrt());
        let mut b = Particle::new(c.companion, constants::R_SUN, 0.45, Axes { x: d, y: 0., z: 0. }, Axes { x: 0., y: v, z: 0. }, Axes { x: 0., y: 0., z: constants::TWO_PI / 10.0 });
        if c.disk_elsewhere { b.set_disk(disk); }
        particles.push(b);
    }
    let consider = ConsiderEffects { tides: c.tides != "none" && c.ignored & 1 == 0, rotational_flattening: c.flattening && c.ignored & 2 == 0, general_relativity: c.gr != "none" && c.ignored & 4 == 0, disk: c.disk && c.ignored & 8 == 0, wind: c.wind && c.ignored & 16 == 0, evolution: c.evolving() };
    Universe::new(INITIAL_YEARS * 365.25, c.time_limit(), particles, consider)
}

// The JSON case description `posidonius start` takes. Needs the scratch base as working directory.
pub fn case_json(c: &CaseSpec) -> String {
    let u = universe(c);
    match c.integrator.as_str() {
        "whfast" => {
            let k = match c.coords { 0 => whfast::CoordinatesType::Jacobi, 1 => whfast::CoordinatesType::DemocraticHeliocentric, _ => whfast::CoordinatesType::WHDS };
            serde_json::to_string(&WHFast::new(c.time_step, c.rec_period, c.hist_period, u, k)).unwrap()
        }
        "ias15" => serde_json::to_string(&Ias15::new(c.time_step, c.rec_period, c.hist_period, u)).unwrap(),
        _ => serde_json::to_string(&LeapFrog::new(c.time_step, c.rec_period, c.hist_period, u)).unwrap(),
    }
}
