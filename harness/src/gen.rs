//! Random commands.  The generator only decides what to try; what has to
//! happen is decided by the specification that checks the trace.

use crate::exec::Exec;
use crate::query::HUGE;
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone)]
pub struct Profile {
    pub w: Vec<(&'static str, f64)>,
    /// Operations per world.
    pub ops: (usize, usize),
    pub max_ents: usize,
    pub obs_every: u64,
    pub modes: Vec<&'static str>,
    /// Chance that a query writes.
    pub wq: f64,
    /// Chance that a query closure panics.
    pub pq: f64,
    /// Chance to leave component types unregistered, and to use them.
    pub unreg: f64,
    /// Chance of a world without groups.
    pub flat: f64,
    /// Chance that a handle that is not in the world is used.
    pub stale: f64,
    /// Items of an `extend`.
    pub bulk: (usize, usize),
    /// Whether all of the entities of `mass` have components.
    pub full: bool,
    /// Chance to pick queries that conflict with themselves.
    pub conflict: f64,
    /// Run the same history on this many layouts.
    pub twins: usize,
    /// Probe all known handles after an operation with this chance.
    pub probe_all: f64,
    /// Component types in use.
    pub comps: Vec<u8>,
    /// Run scripted histories of about this many entities.
    pub script: usize,
    pub kind: &'static str,
}

const SEQ: [&str; 7] = ["next", "fold", "split", "foreach", "into", "wforeach", "twice"];
const PAR: [&str; 4] = ["par", "parfor", "parcount", "wparfor"];
/// Ways that do not visit every item, or visit them through adaptors.
const ADAPT: [&str; 9] = ["nth", "skip", "take", "step", "last", "count", "find", "collect", "prog"];
const INDEXED: [&str; 11] = ["parnum", "partake", "parskip", "parany", "ixskip", "ixtake", "ixstep", "ixzip", "ixchunks", "ixinto", "ixrev"];

fn parallel(mode: &str) -> bool {
    mode.contains("par") || mode.starts_with("ix")
}

pub fn profile(name: &str) -> Profile {
    let mut p = Profile {
        w: vec![
            ("create", 10.0),
            ("extend", 2.5),
            ("extendp", 0.0),
            ("destroy", 6.0),
            ("insert", 10.0),
            ("remove", 6.0),
            ("delete", 4.0),
            ("catomic", 1.5),
            ("conc", 0.0),
            ("burn", 0.0),
            ("maintain", 1.0),
            ("clear", 0.25),
            ("reset", 0.12),
            ("setlayout", 0.4),
            ("register", 0.2),
            ("isreg", 0.0),
            ("probe", 3.0),
            ("qall", 6.0),
            ("qone", 3.0),
            ("view", 2.0),
            ("guards", 0.0),
            ("layout", 0.0),
            ("bombs", 0.0),
        ],
        ops: (60, 200),
        max_ents: 12,
        obs_every: 1,
        modes: vec!["next"],
        wq: 0.3,
        pq: 0.0,
        unreg: 0.0,
        flat: 0.1,
        stale: 0.12,
        bulk: (0, 5),
        full: false,
        conflict: 0.01,
        twins: 1,
        probe_all: 0.0,
        comps: vec![0, 1, 2, 3, 4, 5],
        script: 0,
        kind: "",
    };
    match name {
        "crud" => p.set(&[("qall", 1.0), ("qone", 1.0)]),
        "ents" => {
            p.set(&[
                ("create", 12.0), ("extend", 3.0), ("destroy", 14.0), ("insert", 3.0), ("remove", 1.0),
                ("delete", 1.0), ("catomic", 9.0), ("burn", 0.2), ("maintain", 3.0), ("clear", 0.6), ("reset", 0.4),
                ("setlayout", 0.2), ("qall", 0.3), ("qone", 0.3), ("view", 0.3), ("probe", 4.0),
            ]);
            p.max_ents = 10;
            p.stale = 0.2;
            p.comps = vec![0, 1, 4];
        }
        "stale" => {
            p.stale = 0.5;
            p.max_ents = 6;
            p.probe_all = 0.15;
            p.modes = vec!["next", "slice"];
            p.flat = 0.05;
            p.set(&[("destroy", 9.0), ("qall", 3.0), ("probe", 8.0), ("qone", 6.0), ("view", 4.0), ("catomic", 3.0), ("clear", 0.5)]);
        }
        "conc" => {
            p.set(&[
                ("create", 8.0), ("extend", 2.0), ("destroy", 12.0), ("insert", 3.0), ("remove", 0.5), ("delete", 0.5),
                ("catomic", 3.0), ("conc", 10.0), ("maintain", 4.0), ("clear", 0.6), ("reset", 0.6), ("setlayout", 0.1),
                ("qall", 0.3), ("qone", 0.3), ("view", 0.3), ("probe", 1.0),
            ]);
            p.max_ents = 24;
            p.comps = vec![0, 1];
        }
        "drops" => {
            p.set(&[("qall", 1.5), ("qone", 0.5), ("view", 0.5), ("probe", 0.3), ("clear", 0.7), ("reset", 0.4), ("setlayout", 1.0), ("extendp", 1.0), ("insert", 14.0)]);
            p.unreg = 0.15;
            p.ops = (20, 90);
        }
        "twin" => {
            p.twins = 3;
            p.ops = (30, 80);
            p.set(&[("setlayout", 0.8), ("probe", 1.0)]);
            p.modes = vec!["next", "fold", "slice"];
        }
        "query" => {
            p.set(&[("qall", 26.0), ("qone", 0.5), ("view", 0.5), ("probe", 0.5), ("destroy", 4.0)]);
            p.modes = vec!["next", "next", "foreach", "fold", "slice"];
            p.obs_every = 7;
            p.max_ents = 14;
        }
        "dense" => {
            p.set(&[("qall", 26.0), ("qone", 0.0), ("view", 0.5), ("probe", 0.0), ("destroy", 4.0), ("setlayout", 0.8)]);
            p.modes = vec!["slice", "slice", "next"];
            p.flat = 0.02;
            p.obs_every = 9;
            p.max_ents = 14;
        }
        "one" => {
            p.set(&[("qall", 6.0), ("qone", 24.0), ("probe", 4.0)]);
            p.obs_every = 5;
            p.stale = 0.15;
        }
        "iter" => {
            p.set(&[("qall", 30.0), ("qone", 0.0), ("view", 0.0), ("probe", 0.0)]);
            p.modes = [&SEQ[..], &ADAPT[..], &["next"][..]].concat();
            p.obs_every = 9;
            p.max_ents = 14;
        }
        "par" => {
            p.set(&[("qall", 30.0), ("qone", 0.0), ("view", 0.0), ("probe", 0.0), ("extend", 6.0)]);
            p.modes = [&PAR[..], &INDEXED[..]].concat();
            p.wq = 0.5;
            p.obs_every = 3;
            p.max_ents = 60;
            p.bulk = (0, 25);
        }
        "write" => {
            p.set(&[("qall", 20.0), ("qone", 8.0), ("view", 10.0), ("probe", 0.5)]);
            p.modes = [&SEQ[..], &PAR[..2], &["slice", "slice"][..]].concat();
            p.wq = 0.9;
        }
        "relayout" => {
            p.set(&[("setlayout", 9.0), ("catomic", 3.0), ("maintain", 1.5), ("qall", 8.0), ("qone", 1.0), ("view", 1.0), ("isreg", 1.0), ("register", 0.6)]);
            p.modes = vec!["next", "slice", "slice"];
            p.unreg = 0.2;
            p.probe_all = 0.02;
        }
        "layout" => {
            p.set(&[("layout", 40.0), ("qall", 40.0), ("isreg", 12.0), ("setlayout", 0.0), ("qone", 0.0), ("view", 0.0), ("probe", 0.0)]);
            p.modes = vec!["slice", "slice", "next"];
            p.obs_every = 4;
        }
        "guards" => {
            p.set(&[("guards", 25.0), ("qall", 4.0), ("qone", 3.0), ("view", 2.0), ("setlayout", 1.5), ("register", 2.5)]);
            p.modes = vec!["next", "foreach", "wforeach", "wforeach", "wparfor", "slice"];
            p.obs_every = 5;
            p.conflict = 0.3;
            p.unreg = 0.9;
            p.flat = 0.4;
            p.ops = (20, 80);
        }
        "panic" => {
            p.set(&[("extendp", 9.0), ("qall", 12.0), ("qone", 5.0), ("create", 8.0), ("isreg", 0.5)]);
            p.modes = vec!["next", "foreach", "into", "fold", "wforeach", "parfor", "wparfor", "slice"];
            p.pq = 0.5;
            p.unreg = 0.9;
        }
        "bombs" => {
            p.set(&[("bombs", 12.0), ("qall", 4.0), ("qone", 1.0), ("probe", 1.0), ("clear", 0.1), ("reset", 0.1)]);
            p.ops = (20, 60);
            p.max_ents = 8;
            p.modes = vec!["next", "slice"];
        }
        "clear" => {
            p.set(&[("clear", 3.0), ("reset", 2.0), ("catomic", 4.0), ("burn", 0.3), ("isreg", 1.0), ("qall", 8.0), ("probe", 3.0), ("register", 0.5)]);
            p.modes = vec!["next", "slice"];
            p.unreg = 0.2;
            p.probe_all = 0.05;
            p.max_ents = 9;
        }
        "extend" => {
            p.set(&[("extend", 16.0), ("qall", 10.0), ("destroy", 8.0), ("catomic", 3.0), ("extendp", 0.0)]);
            p.modes = vec!["next", "slice", "slice"];
            p.bulk = (0, 12);
            p.max_ents = 30;
        }
        "reg" => {
            p.set(&[("register", 6.0), ("isreg", 8.0), ("setlayout", 2.0), ("clear", 1.0), ("reset", 1.0), ("qall", 8.0), ("view", 4.0)]);
            p.unreg = 0.9;
            p.ops = (15, 60);
        }
        "view" => {
            p.set(&[("view", 24.0), ("probe", 4.0), ("qone", 4.0), ("qall", 1.0)]);
            p.obs_every = 4;
            p.stale = 0.25;
        }
        "grow" => {
            p.set(&[("create", 30.0), ("extend", 3.0), ("destroy", 8.0), ("insert", 20.0), ("clear", 0.05), ("reset", 0.03), ("qall", 5.0), ("setlayout", 0.5), ("probe", 1.0)]);
            p.modes = vec!["next", "slice", "fold"];
            p.max_ents = 300;
            p.obs_every = 15;
            p.ops = (300, 700);
            p.bulk = (0, 90);
        }
        // Indices that are used again and again; see `churn`.
        "churn" => {
            p.script = 10;
            p.kind = "churn";
            p.modes = vec!["next", "slice", "foreach"];
            p.comps = vec![0, 1, 2, 3];
        }
        // Many entities in groups, in queries of all kinds; see `many`.
        "many" | "manypar" => {
            p.script = 1200;
            p.kind = "many";
            p.modes = if name == "many" { [&SEQ[..], &ADAPT[..], &["slice", "slice"][..]].concat() } else { [&PAR[..], &INDEXED[..]].concat() };
            p.obs_every = 12;
            p.flat = 0.02;
            p.wq = 0.2;
        }
        // Few kinds of entities around one query of nested groups; see `nests`.
        "nests" | "nestspar" => {
            p.script = 1;
            p.kind = "nests";
            p.max_ents = 9;
            p.modes = if name == "nests" { [&SEQ[..], &ADAPT[..], &["slice", "slice"][..]].concat() } else { [&PAR[..], &INDEXED[..]].concat() };
        }
        // More entities than other histories ever have; see `mass`.
        "mass" | "scale" | "scalepar" | "vast" | "vastpar" => {
            p.kind = "mass";
            p.script = if name == "mass" { 1500 } else { 68_000 };
            p.modes = match name {
                "mass" => vec!["next", "slice", "fold", "foreach"],
                "scale" | "vast" => vec!["next", "slice", "fold", "foreach", "nth", "skip", "count", "last"],
                _ => [&PAR[..], &INDEXED[..]].concat(),
            };
            p.obs_every = if name == "mass" { 500 } else { 12 };
            p.full = name.starts_with("vast");
            p.flat = 0.02;
        }
        other => panic!("unknown profile {other}"),
    }
    p
}

impl Profile {
    fn set(&mut self, ws: &[(&'static str, f64)]) {
        for (name, w) in ws {
            let slot = self.w.iter_mut().find(|(n, _)| n == name);
            slot.unwrap_or_else(|| panic!("no weight {name}")).1 = *w;
        }
    }
}

pub struct Gen {
    pub r: Rng,
    pub p: Profile,
    live: Vec<i64>,
    queued: Vec<i64>,
    dead: Vec<i64>,
    value: u32,
    groups: Vec<Vec<u8>>,
    sets: BTreeMap<u64, Vec<Vec<u8>>>,
    /// entry -> (required mask, excluded mask, all mask, conflicts)
    quals: Vec<(u64, u64, u64, bool)>,
    vals: HashMap<(i64, u8), i64>,
    /// The query that is always used, if any.
    fixed: Option<usize>,
}

pub fn mask(cs: &[u8]) -> u64 {
    cs.iter().fold(0, |m, c| m | 1 << c)
}

impl Gen {
    pub fn new(seed: u64, p: Profile, ex: &Exec) -> Self {
        let mut sets: BTreeMap<u64, Vec<Vec<u8>>> = BTreeMap::new();
        let mut keys: Vec<_> = ex.t.sets.keys().cloned().collect();
        keys.sort();
        for k in keys {
            sets.entry(mask(&k)).or_default().push(k);
        }
        let quals = ex
            .t
            .cat
            .iter()
            .map(|e| {
                let of = |ps: &[(&str, i64)], req: bool| {
                    ps.iter().filter(|p| p.1 >= 0 && (!req || p.0 == "ref" || p.0 == "mut")).fold(0, |m, p| m | 1 << p.1)
                };
                let all: Vec<_> = e.get.iter().chain(&e.inc).chain(&e.exc).collect();
                let conflict = all.iter().enumerate().any(|(i, a)| {
                    all.iter().enumerate().any(|(j, b)| {
                        i != j && a.1 >= 0 && a.1 == b.1 && (a.0 == "mut" || a.0 == "omut")
                    })
                });
                (of(&e.get, true) | of(&e.inc, true), of(&e.exc, true), of(&e.get, false) | of(&e.inc, false) | of(&e.exc, false), conflict)
            })
            .collect();
        Self {
            r: Rng::new(seed),
            p,
            live: vec![],
            queued: vec![],
            dead: vec![],
            value: 0,
            groups: vec![],
            sets,
            quals,
            vals: HashMap::new(),
            fixed: None,
        }
    }

    fn val(&mut self, c: u8) -> u32 {
        if c == 3 {
            return 0;
        }
        self.value += 1;
        self.value
    }

    /// A nested family of groups over some components.
    pub fn groups(&mut self) -> Vec<Vec<u8>> {
        let mut gs: Vec<Vec<u8>> = vec![];
        if self.r.chance(self.p.flat) {
            return gs;
        }
        let mut free = self.p.comps.clone();
        self.r.shuffle(&mut free);
        if self.r.chance(self.p.unreg * 0.4) {
            // Leave some types to be registered later.
            free.truncate(self.r.range(1, free.len()));
        } else if self.r.chance(0.5) {
            // Start from a query, so that some queries are grouped.
            let (req, exc, _, _) = *self.r.pick(&self.quals);
            let allowed = mask(&self.p.comps);
            let (req, exc) = (req & allowed, exc & allowed & !req);
            let mut order: Vec<u8> = free.clone();
            order.sort_by_key(|c| if req >> c & 1 == 1 { 0 } else if exc >> c & 1 == 1 { 1 } else { 2 });
            let (n, m) = (req.count_ones() as usize, (req | exc).count_ones() as usize);
            if n > 1 {
                gs.push(order[..n].to_vec());
            }
            if n > 1 && m > n && self.r.chance(0.35) {
                // The excluded types start another family.
                free = order[n..].to_vec();
            } else {
                if m > n && m > 1 {
                    gs.push(order[..m].to_vec());
                }
                if m + 1 < order.len() && m > 1 && self.r.chance(0.3) {
                    gs.push(order[..m + 1].to_vec());
                }
                free = order[m..].to_vec();
                if gs.last().is_some_and(|g| g.len() > m) {
                    free.remove(0);
                }
            }
        }
        while free.len() >= 2 && self.r.chance(0.75) {
            let n = self.r.range(2, free.len());
            let fam: Vec<u8> = free.drain(..n).collect();
            let mut k = self.r.range(2, n);
            gs.push(fam[..k].to_vec());
            while k < n {
                k = self.r.range(k + 1, n);
                gs.push(fam[..k].to_vec());
            }
        }
        self.r.shuffle(&mut gs);
        for g in &mut gs {
            self.r.shuffle(g);
        }
        gs
    }

    fn comp_set(&mut self, ex: &Exec) -> Vec<u8> {
        let usable: Vec<u8> = if self.p.unreg > 0.0 && self.r.chance(0.06) {
            self.p.comps.clone()
        } else {
            self.p.comps.iter().copied().filter(|c| ex.reg.contains(c)).collect()
        };
        let mut m = 0u64;
        if !self.groups.is_empty() && self.r.chance(0.45) {
            let g = self.r.pick(&self.groups).clone();
            m = mask(&g);
            if self.r.chance(0.4) && !usable.is_empty() {
                m ^= 1 << *self.r.pick(&usable);
            }
        } else {
            let p = *self.r.pick(&[0.15, 0.35, 0.5, 0.8, 1.0]);
            for c in &usable {
                if self.r.chance(p) {
                    m |= 1 << c;
                }
            }
        }
        let m = if self.sets.contains_key(&m) { m } else { 0 };
        let n = self.sets[&m].len();
        let i = if self.r.chance(0.5) { 0 } else { self.r.below(n) };
        self.sets[&m][i].clone()
    }

    /// One or a few components, for operations on existing entities.
    fn comp_few(&mut self, ex: &Exec) -> Vec<u8> {
        if self.r.chance(0.55) {
            let usable: Vec<u8> = if self.p.unreg > 0.0 && self.r.chance(0.08) {
                self.p.comps.clone()
            } else {
                self.p.comps.iter().copied().filter(|c| ex.reg.contains(c)).collect()
            };
            if let Some(c) = (!usable.is_empty()).then(|| *self.r.pick(&usable)) {
                return vec![c];
            }
        }
        self.comp_set(ex)
    }

    fn pairs(&mut self, cs: &[u8]) -> Value {
        Value::from(cs.iter().map(|c| json!([c, self.val(*c)])).collect::<Vec<_>>())
    }

    fn any_handle(&mut self) -> i64 {
        if !self.r.chance(self.p.stale) && !self.live.is_empty() {
            return *self.r.pick(&self.live);
        }
        match self.r.below(8) {
            0..=4 if !self.dead.is_empty() => {
                // Mostly recent ones: their indices are about to be reused.
                let n = self.dead.len();
                let lo = n.saturating_sub(12);
                self.dead[self.r.range(lo, n - 1)]
            }
            5 if !self.queued.is_empty() => *self.r.pick(&self.queued),
            6 if !self.live.is_empty() => 900_000 + *self.r.pick(&self.live),
            7 => 0,
            _ if !self.live.is_empty() => *self.r.pick(&self.live),
            _ => 0,
        }
    }

    pub fn pick_query(&mut self, ex: &Exec, need: impl Fn(&crate::query::Entry) -> bool) -> Option<usize> {
        let reg: u64 = ex.reg.iter().fold(0, |m, c| m | 1 << c);
        let unreg = self.p.unreg > 0.0 && self.r.chance(0.05);
        let conflict = self.r.chance(self.p.conflict);
        let grouped = !self.groups.is_empty() && self.r.chance(0.5);
        let fam: Vec<u64> = self.groups.iter().map(|g| mask(g)).collect();
        let ok: Vec<usize> = (0..self.quals.len())
            .filter(|&i| {
                let (req, exc, all, conf) = self.quals[i];
                (unreg || all & !reg == 0)
                    && conf == conflict
                    && need(&ex.t.cat[i])
                    && (!grouped || conf || fam.contains(&req) || fam.contains(&(req | exc)))
            })
            .collect();
        (!ok.is_empty()).then(|| *self.r.pick(&ok))
    }

    /// How many items to pass over.
    fn steps(&mut self) -> usize {
        match self.r.below(20) {
            0 | 1 => HUGE,
            2 => HUGE / 2,
            3..=5 => self.r.below(400),
            6..=8 => self.r.below(30),
            _ => self.r.below(5),
        }
    }

    fn query_cmd(&mut self, ex: &Exec) -> Option<Value> {
        let mode = *self.r.pick(&self.p.modes.clone());
        let par = parallel(mode) && mode != "wparfor";
        let world = matches!(mode, "wforeach" | "wparfor");
        let q = match self.fixed {
            Some(q) if (!par || ex.t.cat[q].par.is_some()) && (!world || ex.t.cat[q].world.is_some()) => q,
            Some(_) => return None,
            None => self.pick_query(ex, |e| (!par || e.par.is_some()) && (!world || e.world.is_some()))?,
        };
        // Which entities are written has to be known.
        let partial = ADAPT.contains(&mode) || INDEXED.contains(&mode);
        let mut cmd = json!({ "ev": "qall", "q": q, "mode": mode, "w": !partial && self.r.chance(self.p.wq),
            "order": self.r.chance(0.3), "k": self.steps() });
        if mode == "prog" {
            let n = self.r.range(1, 8);
            cmd["ops"] = (0..n)
                .map(|_| match self.r.below(12) {
                    0 => json!(["rest", 1, 0]),
                    n => json!([if n < 7 { "front" } else { "take" }, 1, self.steps()]),
                })
                .collect();
        }
        if parallel(mode) {
            cmd["threads"] = json!(*self.r.pick(&[1usize, 2, 4, 8]));
        }
        if self.p.pq > 0.0 && matches!(mode, "next" | "foreach" | "into" | "fold" | "wforeach" | "parfor" | "wparfor") {
            let boom = self.r.chance(self.p.pq);
            cmd["panic"] = json!(boom);
            // It has to be known which entities were written before the panic.
            if boom && !ex.t.cat[q].get.iter().any(|p| p.0 == "ent") {
                cmd["w"] = json!(false);
            }
        }
        Some(cmd)
    }

    fn guards(&mut self, ex: &Exec) -> Option<Value> {
        let mut steps = vec![];
        if self.r.chance(0.02) && !ex.reg.is_empty() {
            // A great many shared holders of one type.
            let usable: Vec<u8> = ex.reg.iter().copied().collect();
            let c = *self.r.pick(&usable);
            let n = *self.r.pick(&[130i64, 257, 300]);
            let again = |slot: i64| json!({ "ev": "acq", "slot": slot, "kind": "tryviewmut", "c": c });
            steps.extend((1..=n).map(|s| json!({ "ev": "acq", "slot": s, "kind": "view", "c": c })));
            steps.push(again(n + 1));
            let last = self.r.range(1, n as usize) as i64;
            steps.extend((1..=n).filter(|s| *s != last).map(|s| json!({ "ev": "rel", "slot": s })));
            steps.push(again(n + 2));
            steps.push(json!({ "ev": "rel", "slot": last }));
            steps.push(again(n + 3));
            return Some(json!({ "ev": "guards", "steps": steps }));
        }
        let mut held: Vec<i64> = vec![];
        let n = self.r.range(3, 14);
        let mut slot = 0;
        for _ in 0..n {
            if !held.is_empty() && self.r.chance(0.35) {
                let i = self.r.below(held.len());
                steps.push(json!({ "ev": "rel", "slot": held.swap_remove(i) }));
                continue;
            }
            match self.r.below(14) {
                0 => {
                    steps.push(json!({ "ev": "catomic" }));
                    continue;
                }
                1 => {
                    steps.push(json!({ "ev": "probe", "h": self.any_handle() }));
                    continue;
                }
                _ => (),
            }
            slot += 1;
            let kind = *self.r.pick(&["view", "viewmut", "view", "viewg", "viewmutg", "qall", "qone", "iterpanic", "tryview", "tryviewmut", "tryqall"]);
            let mut step = json!({ "ev": "acq", "slot": slot, "kind": kind });
            if kind.contains("view") {
                let usable: Vec<u8> = if self.r.chance(0.07) {
                    self.p.comps.clone()
                } else {
                    ex.reg.iter().copied().collect()
                };
                if usable.is_empty() {
                    continue;
                }
                step["c"] = json!(*self.r.pick(&usable));
            } else {
                step["q"] = json!(self.pick_query(ex, |e| e.hold.is_some())?);
                step["order"] = json!(self.r.chance(0.5));
            }
            held.push(slot);
            steps.push(step);
        }
        Some(json!({ "ev": "guards", "steps": steps }))
    }

    /// A sequence of groups, often incompatible.
    fn layout(&mut self) -> Value {
        let mut adds: Vec<Vec<u8>> = self.groups();
        let all = self.p.comps.clone();
        for _ in 0..self.r.below(5) {
            let g = match self.r.below(6) {
                0 if !adds.is_empty() => self.r.pick(&adds).clone(),
                1 if !adds.is_empty() => {
                    let mut g = self.r.pick(&adds).clone();
                    g.pop();
                    g
                }
                2 if !adds.is_empty() => {
                    let mut g = self.r.pick(&adds).clone();
                    g.push(*self.r.pick(&all));
                    g
                }
                _ => {
                    let mut g = all.clone();
                    self.r.shuffle(&mut g);
                    g.truncate(self.r.below(5).max(usize::from(self.r.chance(0.95))));
                    if self.r.chance(0.1) && !g.is_empty() {
                        g.push(g[0]);
                    }
                    g
                }
            };
            let at = self.r.below(adds.len() + 1);
            adds.insert(at, g);
        }
        let fresh = self.r.chance(0.3);
        json!({ "ev": "layout", "adds": adds, "dyn": self.r.chance(0.5), "use": self.r.chance(0.8), "fresh": fresh })
    }

    fn bombs(&mut self, ex: &Exec) -> Option<Value> {
        let tracked: Vec<(i64, u8, i64)> = self
            .vals
            .iter()
            .filter(|((_, c), _)| *c != 1)
            .map(|((h, c), v)| (*h, *c, *v))
            .collect::<BTreeSet<_>>()
            .into_iter()
            .collect();
        if tracked.is_empty() {
            return None;
        }
        let (h, c, v) = *self.r.pick(&tracked);
        let others: Vec<u8> = self.p.comps.iter().copied().filter(|x| ex.reg.contains(x)).collect();
        let mut m = 1u64 << c;
        for o in others {
            if self.r.chance(0.4) {
                m |= 1 << o;
            }
        }
        let cs = self.sets.get(&m)?[0].clone();
        let mut bomb = json!([c, v]);
        let mut op = match self.r.below(24) {
            0..=6 => json!({ "ev": "destroy", "h": h }),
            7..=12 => json!({ "ev": "delete", "h": h, "c": cs }),
            13..=18 => json!({ "ev": "insert", "h": h, "cs": self.pairs(&cs) }),
            19..=20 => {
                // A value that the world rejects.
                let pairs = self.pairs(&cs);
                bomb = pairs.as_array().unwrap().iter().find(|p| p[0] == c)?.clone();
                json!({ "ev": "insert", "h": *self.dead.last()?, "cs": pairs })
            }
            21 => json!({ "ev": "clear" }),
            22 => json!({ "ev": "reset" }),
            _ => json!({ "ev": "dropworld" }),
        };
        op["bomb"] = bomb;
        Some(op)
    }

    /// The next command, or nothing if the choice does not apply.
    fn next(&mut self, ex: &Exec) -> Option<Value> {
        let ws: Vec<f64> = self.p.w.iter().map(|w| w.1).collect();
        let full = self.live.len() + self.queued.len() >= self.p.max_ents;
        let kind = self.p.w[self.r.weighted(&ws)].0;
        Some(match kind {
            "create" | "extend" | "extendp" | "catomic" | "conc" | "burn" if full => {
                let h = if self.live.is_empty() { return Some(json!({ "ev": "maintain" })) } else { *self.r.pick(&self.live) };
                json!({ "ev": "destroy", "h": h })
            }
            "create" => {
                let cs = self.comp_set(ex);
                json!({ "ev": "create", "cs": self.pairs(&cs) })
            }
            "extend" | "extendp" => {
                let cs = self.comp_set(ex);
                let n = self.r.range(self.p.bulk.0, self.p.bulk.1);
                let items: Vec<Value> = (0..n).map(|_| self.pairs(&cs)).collect();
                let mut cmd = json!({ "ev": "extend", "c": cs, "items": items, "exact": self.r.chance(0.5), "loose": self.r.chance(0.3) });
                if kind == "extendp" {
                    cmd["at"] = json!(self.r.range(0, n));
                }
                cmd
            }
            "destroy" => json!({ "ev": "destroy", "h": self.any_handle() }),
            "insert" => {
                let h = self.any_handle();
                let cs = self.comp_few(ex);
                json!({ "ev": "insert", "h": h, "cs": self.pairs(&cs) })
            }
            "remove" | "delete" => {
                let h = self.any_handle();
                json!({ "ev": kind, "h": h, "c": self.comp_few(ex) })
            }
            "catomic" | "maintain" | "clear" | "reset" | "isreg" => json!({ "ev": kind }),
            "conc" => json!({ "ev": "conc", "threads": *self.r.pick(&[2, 2, 3, 4, 8]), "per": *self.r.pick(&[1, 1, 2, 3, 3, 12]) }),
            "burn" => json!({ "ev": "conc", "threads": 1, "per": self.r.range(20, 120) }),
            "setlayout" => {
                let gs = self.groups();
                json!({ "ev": "setlayout", "gs": gs, "dyn": self.r.chance(0.4) })
            }
            "register" => {
                let missing: Vec<u8> = self.p.comps.iter().copied().filter(|c| !ex.reg.contains(c)).collect();
                let from = if !missing.is_empty() && self.r.chance(0.7) { missing } else { self.p.comps.clone() };
                let pad = if self.r.chance(0.02) { 300 } else { 0 };
                json!({ "ev": "register", "c": *self.r.pick(&from), "dyn": self.r.chance(0.5), "pad": pad })
            }
            "probe" => json!({ "ev": "probe", "h": self.any_handle() }),
            "qall" => return self.query_cmd(ex),
            "qone" => {
                let q = self.pick_query(ex, |e| e.one.is_some())?;
                let h = self.any_handle();
                json!({ "ev": "qone", "q": q, "h": h, "w": self.r.chance(self.p.wq), "order": self.r.chance(0.3),
                    "panic": self.r.chance(self.p.pq * 0.5) })
            }
            "view" => {
                let usable: Vec<u8> = if self.p.unreg > 0.0 && self.r.chance(0.1) {
                    self.p.comps.clone()
                } else {
                    ex.reg.iter().copied().collect()
                };
                if usable.is_empty() {
                    return None;
                }
                let ps: Vec<i64> = (0..self.r.below(5)).map(|_| self.any_handle()).collect();
                json!({ "ev": "view", "c": *self.r.pick(&usable), "x": self.r.chance(0.5), "ps": ps,
                    "how": *self.r.pick(&["none", "all", "one", "idx"]), "wh": self.any_handle() })
            }
            "guards" => return self.guards(ex),
            "layout" => self.layout(),
            "bombs" => return self.bombs(ex),
            other => panic!("unknown kind {other}"),
        })
    }

    fn forget(&mut self) {
        self.live.clear();
        self.queued.clear();
        self.dead.clear();
        self.vals.clear();
    }

    fn put(&mut self, h: i64, cs: &Value) {
        for p in cs.as_array().unwrap() {
            self.vals.insert((h, p[0].as_u64().unwrap() as u8), p[1].as_i64().unwrap());
        }
    }

    fn drop_vals(&mut self, h: i64) {
        self.vals.retain(|k, _| k.0 != h);
    }

    /// Follows what happened, to choose well.
    pub fn learn(&mut self, cmd: &Value, ev: &Value) {
        // What an operation does, it does even if a destructor panics.
        let boom = !cmd["bomb"].is_null() && ev["out"] == "panic";
        let ok = ev["out"] == "ok" || boom;
        match ev["ev"].as_str().unwrap() {
            "new" => {
                self.forget();
                self.value = 0;
                self.set_groups(&cmd["gs"]);
            }
            "create" if ok => {
                let h = ev["h"].as_i64().unwrap();
                self.live.push(h);
                self.put(h, &cmd["cs"]);
            }
            "extend" => {
                let hs = ev["hs"].as_array().cloned().unwrap_or_default();
                for (i, h) in hs.iter().enumerate() {
                    self.live.push(h.as_i64().unwrap());
                    if let Some(item) = cmd["items"].get(i) {
                        self.put(h.as_i64().unwrap(), item);
                    }
                }
            }
            "destroy" if ev["ret"] == true || boom => {
                let h = ev["h"].as_i64().unwrap();
                self.live.retain(|x| *x != h);
                self.dead.push(h);
                self.drop_vals(h);
            }
            "insert" if ok && (ev["ret"] == true || boom && self.live.contains(&cmd["h"].as_i64().unwrap())) => self.put(cmd["h"].as_i64().unwrap(), &cmd["cs"]),
            "remove" | "delete" if ok => {
                let h = cmd["h"].as_i64().unwrap();
                for c in cmd["c"].as_array().unwrap() {
                    self.vals.remove(&(h, c.as_u64().unwrap() as u8));
                }
            }
            "catomic" if ok => self.queued.push(ev["h"].as_i64().unwrap()),
            "conc" if ok => {
                for l in ev["hs"].as_array().unwrap() {
                    self.queued.extend(l.as_array().unwrap().iter().map(|h| h.as_i64().unwrap()));
                }
                if self.queued.len() > 19 {
                    // Burnt indices are given up by a clear.
                    self.dead.extend(self.queued.iter().rev().take(3));
                }
            }
            "maintain" => self.live.append(&mut self.queued),
            "clear" => {
                let old: Vec<i64> = self.live.drain(..).chain(self.queued.drain(..)).collect();
                self.dead.extend(old);
                self.vals.clear();
            }
            "reset" | "dropworld" => self.forget(),
            "setlayout" if ok => self.set_groups(&cmd["gs"]),
            "qall" | "view" | "qone" if cmd["w"] == true || cmd["x"] == true => self.resync(ev),
            "layout" if ok && cmd["use"] == true => {
                let acc: Vec<Value> = cmd["adds"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .zip(ev["outs"].as_array().unwrap())
                    .filter(|(_, o)| **o == 1)
                    .map(|(g, _)| g.clone())
                    .collect();
                if cmd["fresh"] == true {
                    self.forget();
                }
                self.set_groups(&Value::from(acc));
            }
            _ => (),
        }
    }

    /// Values change when written; the bombs need to know them.
    fn resync(&mut self, ev: &Value) {
        let Some(cs) = ev["obs"]["cs"].as_array() else { return };
        self.vals.clear();
        for e in cs {
            let c = e[0].as_u64().unwrap() as u8;
            for (h, v) in e[1].as_array().unwrap().iter().zip(e[2].as_array().unwrap()) {
                self.vals.insert((h.as_i64().unwrap(), c), v.as_i64().unwrap());
            }
        }
    }

    fn set_groups(&mut self, gs: &Value) {
        self.groups = gs
            .as_array()
            .unwrap()
            .iter()
            .map(|g| {
                let s: BTreeSet<u8> = g.as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u8).collect();
                s.into_iter().collect()
            })
            .filter(|g: &Vec<u8>| g.len() > 1)
            .collect();
    }

    fn new_cmd(&mut self) -> Value {
        let gs = self.groups();
        let rs: Vec<u8> = self
            .p
            .comps
            .clone()
            .into_iter()
            .filter(|_| !(self.p.unreg > 0.0 && self.r.chance(self.p.unreg * 0.4)))
            .collect();
        if self.r.chance(0.25) {
            // A builder used in any order; the last layout counts, with the
            // groups added since.
            let mut script: Vec<Value> = vec![];
            let split = self.r.below(gs.len() + 1);
            for _ in 0..self.r.below(2) {
                let old = self.groups();
                script.push(json!(["layout", old]));
            }
            if !script.is_empty() || split > 0 {
                script.push(json!(["layout", gs[..split]]));
            }
            script.extend(gs[split..].iter().map(|g| json!(["group", g])));
            for c in &rs {
                let at = self.r.below(script.len() + 1);
                script.insert(at, json!(["reg", c]));
            }
            // Groups that may not fit, worlds built on the way.
            for _ in 0..self.r.below(3) {
                let mut g = self.p.comps.clone();
                self.r.shuffle(&mut g);
                g.truncate(self.r.range(1, g.len().min(4)));
                let at = self.r.below(script.len() + 1);
                script.insert(at, json!(["group", g]));
            }
            for what in ["build", "clone"] {
                if self.r.chance(0.2) {
                    let at = self.r.below(script.len() + 1);
                    script.insert(at, json!([what]));
                }
            }
            return json!({ "ev": "new", "gs": gs, "rs": rs, "dyn": self.r.chance(0.4), "how": "script", "script": script });
        }
        let pad = if self.r.chance(0.1) { 300 } else { 0 };
        json!({ "ev": "new", "gs": gs, "rs": rs, "dyn": self.r.chance(0.4), "pad": pad,
            "how": *self.r.pick(&["new", "default", "builder", "builder_groups", "builder_reg_first"]) })
    }

    pub fn step(&mut self, ex: &mut Exec, cmd: &Value) {
        ex.run(cmd);
        let ev = ex.last.clone();
        self.learn(cmd, &ev);
    }

    fn go(&mut self, ex: &mut Exec, cmd: Value) {
        self.step(ex, &cmd);
    }

    /// Some operation that is not about all entities at once.
    fn any(&mut self, ex: &mut Exec, kinds: &[&str]) {
        let old = std::mem::take(&mut self.p.w);
        self.p.w = kinds.iter().map(|k| (if *k == "qall" { "qall" } else { old.iter().find(|o| o.0 == *k).unwrap().0 }, 1.0)).collect();
        let cmd = self.next(ex);
        self.p.w = old;
        if let Some(cmd) = cmd {
            self.go(ex, cmd);
        }
    }

    /// A history with a great many entities: created, mostly destroyed, in
    /// any order, and created again in every way there is.
    fn mass(&mut self, ex: &mut Exec) {
        let n = self.p.script;
        let big = n > 10_000;
        self.p.max_ents = 10 * n;
        let first = self.new_cmd();
        self.go(ex, first);
        let cs: Vec<u8> = match self.r.below(if big { 6 } else { 3 }) {
            0 | 3..=5 if !self.groups.is_empty() => self.r.pick(&self.groups).clone(),
            1 => vec![0],
            3..=5 => vec![1, 2],
            _ => vec![],
        };
        let few = match (self.p.full, big) {
            (true, _) => n,
            (_, true) => *self.r.pick(&[n / 20, n / 7]),
            _ => self.r.range(n / 4, n),
        };
        let items: Vec<Value> = (0..few).map(|_| self.pairs(&cs)).collect();
        let full = json!({ "ev": "extend", "c": cs, "items": items, "exact": true });
        let items: Vec<Value> = (few..n).map(|_| json!([])).collect();
        let bare = json!({ "ev": "extend", "c": [], "items": items, "exact": false });
        let (first, second) = if self.r.chance(0.4) { (full, bare) } else { (bare, full) };
        self.go(ex, first);
        self.go(ex, second);
        let mut all = self.live.clone();
        self.r.shuffle(&mut all);
        let gone = if big { 12 } else { all.len() - self.r.below(5) };
        for h in all.into_iter().take(gone) {
            self.go(ex, json!({ "ev": "destroy", "h": h }));
        }
        if !big && self.r.chance(0.3) {
            self.go(ex, json!({ "ev": "clear" }));
        }
        let kinds = ["create", "catomic", "insert", "remove", "qall", "probe", "maintain", "setlayout", "view", "destroy"];
        for _ in 0..if big { 30 } else { 60 } {
            self.any(ex, &kinds);
        }
        if big {
            // New indices are queued, and what is grouped is ungrouped and
            // grouped again.
            self.go(ex, json!({ "ev": "conc", "threads": 1, "per": 40 }));
            self.any(ex, &["create", "probe", "catomic", "destroy"]);
            self.go(ex, json!({ "ev": "maintain" }));
            self.go(ex, json!({ "ev": "obs" }));
            if cs.len() > 1 {
                self.go(ex, json!({ "ev": "setlayout", "gs": [], "dyn": false }));
                self.go(ex, json!({ "ev": "setlayout", "gs": [cs], "dyn": false }));
                let just = |q: usize| {
                    let e = &ex.t.cat[q];
                    let named: BTreeSet<u8> = e.get.iter().filter(|p| p.0 != "ent").map(|p| p.1 as u8).collect();
                    e.inc.is_empty() && e.exc.is_empty() && named == cs.iter().copied().collect()
                };
                let qs: Vec<usize> = (0..ex.t.cat.len()).filter(|q| just(*q)).collect();
                for _ in 0..3 {
                    self.fixed = if qs.is_empty() { None } else { Some(*self.r.pick(&qs)) };
                    self.any(ex, &["qall"]);
                }
                self.fixed = None;
            }
            for _ in 0..10 {
                self.any(ex, &["burn", "catomic", "qone", "delete", "extend", "qall", "maintain"]);
            }
            if self.r.chance(0.35) {
                let ev = *self.r.pick(&["clear", "reset"]);
                self.go(ex, json!({ "ev": ev }));
                for _ in 0..12 {
                    self.any(ex, &kinds);
                }
            }
        }
        if !big {
            for _ in 0..6 {
                let per = self.r.range(20, n / 8);
                self.go(ex, json!({ "ev": "conc", "threads": 1, "per": per }));
                let items: Vec<Value> = (0..self.r.range(n / 20, n / 8)).map(|_| json!([])).collect();
                self.go(ex, json!({ "ev": "extend", "c": [], "items": items, "exact": false }));
                self.any(ex, &["create", "catomic", "qall"]);
            }
        }
        self.go(ex, json!({ "ev": "maintain" }));
        self.go(ex, json!({ "ev": "dropworld" }));
    }

    /// Indices used again until their versions differ in the upper halves
    /// only, and old handles of them used beside new ones.
    fn churn(&mut self, ex: &mut Exec) {
        let first = self.new_cmd();
        self.go(ex, first);
        let n = self.p.script;
        for _ in 0..n {
            let cs = self.comp_set(ex);
            let pairs = self.pairs(&cs);
            self.go(ex, json!({ "ev": "create", "cs": pairs }));
        }
        for _ in 0..5 {
            // The index of the last one is the last to be used.
            let m = *self.r.pick(&[1usize, 1, 1, 2, 3]);
            let mut gone = vec![];
            for _ in 0..m {
                let h = *self.r.pick(&self.live);
                gone.push(h);
                self.go(ex, json!({ "ev": "destroy", "h": h }));
            }
            let times = *self.r.pick(&[256usize, 65_536, 65_536, 65_536, 131_072, 32_768, 257]);
            let cs = if self.r.chance(0.5) && ex.reg.contains(&1) { json!([[1, 7]]) } else { json!([]) };
            let how = if cs == json!([]) && self.r.chance(0.3) { "atomic" } else { "create" };
            self.go(ex, json!({ "ev": "churn", "n": m * times - 1, "cs": cs, "how": how }));
            for _ in 0..m {
                if self.r.chance(0.3) {
                    self.go(ex, json!({ "ev": "catomic" }));
                    self.go(ex, json!({ "ev": "maintain" }));
                    let h = *self.live.last().unwrap();
                    let cs = self.comp_set(ex);
                    let pairs = self.pairs(&cs);
                    self.go(ex, json!({ "ev": "insert", "h": h, "cs": pairs }));
                } else {
                    let cs = self.comp_set(ex);
                    let pairs = self.pairs(&cs);
                    self.go(ex, json!({ "ev": "create", "cs": pairs }));
                }
            }
            for h in gone {
                self.go(ex, json!({ "ev": "probe", "h": h }));
                for _ in 0..self.r.range(2, 7) {
                    let cs = self.comp_few(ex);
                    let c = cs.first().copied().filter(|c| ex.reg.contains(c));
                    let cmd = match (self.r.below(6), c) {
                        (0, _) => json!({ "ev": "insert", "h": h, "cs": self.pairs(&cs) }),
                        (1, _) => json!({ "ev": "remove", "h": h, "c": cs }),
                        (2, _) => json!({ "ev": "delete", "h": h, "c": cs }),
                        (3, _) => json!({ "ev": "destroy", "h": h }),
                        (4, Some(c)) => json!({ "ev": "view", "c": c, "x": self.r.chance(0.5), "ps": [h], "how": *self.r.pick(&["one", "idx"]), "wh": h }),
                        _ => {
                            let Some(q) = self.pick_query(ex, |e| e.one.is_some()) else { continue };
                            json!({ "ev": "qone", "q": q, "h": h, "w": self.r.chance(0.5), "order": self.r.chance(0.5), "panic": false })
                        }
                    };
                    self.go(ex, cmd);
                }
            }
            for _ in 0..8 {
                self.any(ex, &["insert", "remove", "qall", "qone", "probe", "view", "delete"]);
            }
        }
        self.go(ex, json!({ "ev": "clear" }));
        self.go(ex, json!({ "ev": "dropworld" }));
    }

    /// A history with many entities in groups, and many queries.
    fn many(&mut self, ex: &mut Exec) {
        self.p.max_ents = 10 * self.p.script;
        let first = self.new_cmd();
        self.go(ex, first);
        let bulks = self.r.range(2, 5);
        for _ in 0..bulks {
            let cs = self.comp_set(ex);
            let n = self.r.range(self.p.script / 10, self.p.script * 2 / bulks);
            let items: Vec<Value> = (0..n).map(|_| self.pairs(&cs)).collect();
            let exact = self.r.chance(0.5);
            self.go(ex, json!({ "ev": "extend", "c": cs, "items": items, "exact": exact }));
            for _ in 0..self.r.below(20) {
                self.any(ex, &["insert", "remove", "destroy", "delete", "create"]);
            }
            for _ in 0..5 {
                self.any(ex, &["qall"]);
            }
        }
        for _ in 0..15 {
            self.any(ex, &["qall", "qall", "qall", "insert", "destroy", "remove", "setlayout", "create", "view"]);
        }
        self.go(ex, json!({ "ev": "dropworld" }));
    }

    /// A history about one query whose types fill nested groups: entities
    /// are of a few kinds, so that ranges of the groups are often empty,
    /// full or equal.
    fn nests(&mut self, ex: &mut Exec) {
        let allowed = mask(&self.p.comps);
        let many = self.r.chance(0.7);
        let par = parallel(self.p.modes[0]);
        let ok: Vec<usize> = (0..self.quals.len())
            .filter(|&i| {
                let (req, exc, all, conf) = self.quals[i];
                !conf && all & !allowed == 0 && req & exc == 0 && req.count_ones() >= 2
                    && exc.count_ones() >= if many { 2 } else { 1 }
                    && (!par || ex.t.cat[i].par.is_some())
            })
            .collect();
        let q = *self.r.pick(&ok);
        let (req, exc, _, _) = self.quals[q];
        let mut order = self.p.comps.clone();
        self.r.shuffle(&mut order);
        order.sort_by_key(|c| if req >> c & 1 == 1 { 0 } else if exc >> c & 1 == 1 { 1 } else { 2 });
        let (n, m) = (req.count_ones() as usize, (req | exc).count_ones() as usize);
        let mut gs = vec![order[..n].to_vec(), order[..m].to_vec()];
        if n > 2 && self.r.chance(0.3) {
            gs.push(order[..n - 1].to_vec());
        }
        if m < order.len() && self.r.chance(0.3) {
            gs.push(order[..self.r.range(m + 1, order.len())].to_vec());
        }
        self.r.shuffle(&mut gs);
        for g in &mut gs {
            self.r.shuffle(g);
        }
        let dynamic = self.r.chance(0.3);
        self.go(ex, json!({ "ev": "new", "gs": gs, "rs": order, "dyn": dynamic, "how": "builder_groups" }));
        let mut kinds = vec![req];
        for _ in 0..self.r.range(1, 3) {
            let mut k = req;
            match self.r.below(5) {
                0 => k |= exc,
                4 => k = (req | exc) & !(1 << *self.r.pick(&order[..m])),
                _ => order[n..m].iter().for_each(|c| if self.r.chance(0.6) { k |= 1 << c }),
            }
            if self.r.chance(0.1) {
                k ^= 1 << *self.r.pick(&order);
            }
            if self.sets.contains_key(&k) {
                kinds.push(k);
            }
        }
        self.fixed = Some(q);
        for _ in 0..self.r.range(12, 30) {
            let kind = *self.r.pick(&kinds);
            let cs = self.r.pick(&self.sets[&kind]).clone();
            let h = if self.live.is_empty() { 0 } else { *self.r.pick(&self.live) };
            let has = self.p.comps.iter().filter(|c| self.vals.contains_key(&(h, **c))).fold(0u64, |m, c| m | 1 << c);
            let less: Vec<u8> = order.iter().copied().filter(|c| (has & !kind) >> c & 1 == 1).collect();
            let more: Vec<u8> = order.iter().copied().filter(|c| (kind & !has) >> c & 1 == 1).collect();
            match self.r.below(10) {
                0..=3 if self.live.len() < self.p.max_ents => {
                    let pairs = self.pairs(&cs);
                    self.go(ex, json!({ "ev": "create", "cs": pairs }));
                }
                4 if self.live.len() < self.p.max_ents => {
                    let items: Vec<Value> = (0..self.r.below(4)).map(|_| self.pairs(&cs)).collect();
                    let exact = self.r.chance(0.5);
                    self.go(ex, json!({ "ev": "extend", "c": cs, "items": items, "exact": exact }));
                }
                5 => self.go(ex, json!({ "ev": "destroy", "h": h })),
                _ if h == 0 => continue,
                // An entity becomes one of that kind.
                _ => {
                    for c in less {
                        if self.r.chance(0.5) {
                            self.go(ex, json!({ "ev": "remove", "h": h, "c": [c] }));
                        } else {
                            self.go(ex, json!({ "ev": "delete", "h": h, "c": [c] }));
                        }
                    }
                    for c in more {
                        let pairs = self.pairs(&[c]);
                        self.go(ex, json!({ "ev": "insert", "h": h, "cs": pairs }));
                    }
                }
            }
            self.any(ex, &["qall"]);
        }
        self.fixed = None;
        for _ in 0..4 {
            self.any(ex, &["qall"]);
        }
        self.go(ex, json!({ "ev": "dropworld" }));
    }

    /// Drives worlds until enough events were written.
    pub fn drive(&mut self, ex: &mut Exec, events: u64) {
        ex.obs_every = self.p.obs_every;
        if self.p.script > 0 {
            // Their events are larger than those of others.
            let events = match (self.p.kind, self.p.script) {
                ("mass", n) if n > 10_000 => 1,
                ("many", _) => events / 10,
                ("churn", _) => events / 3,
                _ => events,
            };
            while ex.events < events {
                match self.p.kind {
                    "churn" => self.churn(ex),
                    "many" => self.many(ex),
                    "nests" => self.nests(ex),
                    _ => self.mass(ex),
                }
            }
            ex.flush();
            return;
        }
        while ex.events < events {
            let mut cmds = vec![];
            let first = self.new_cmd();
            self.step(ex, &first);
            cmds.push(first);
            let n = self.r.range(self.p.ops.0, self.p.ops.1);
            let mut gone = false;
            for _ in 0..n {
                let Some(cmd) = self.next(ex) else { continue };
                self.step(ex, &cmd);
                gone = cmd["ev"] == "dropworld";
                cmds.push(cmd);
                if gone {
                    break;
                }
                if self.r.chance(self.p.probe_all) {
                    for h in 1..=ex.live_handles() as i64 {
                        let cmd = json!({ "ev": "probe", "h": h });
                        self.step(ex, &cmd);
                        cmds.push(cmd);
                    }
                }
            }
            if !gone {
                let cmd = json!({ "ev": "dropworld" });
                self.step(ex, &cmd);
                cmds.push(cmd);
            }
            for _ in 1..self.p.twins {
                for mut cmd in cmds.clone() {
                    if cmd["ev"] == "new" || cmd["ev"] == "setlayout" {
                        cmd["gs"] = json!(self.groups());
                    }
                    ex.run(&cmd);
                }
            }
        }
        ex.flush();
    }
}
