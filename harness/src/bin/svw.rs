//! Drives the real crate with many component types, up to its limits: groups
//! of 16 types, 64 groups, component sets and queries of 16 parts.
//!
//! svw drive wide SEED EVENTS OUT
//! svw replay CMDS OUT

use serde_json::{json, Value};
use sv_harness::exec::Exec;
use sv_harness::rng::Rng;
use sv_harness::sets::Tables;

#[path = "../widecat.rs"]
mod cat;

fn tables() -> Tables {
    Tables {
        sets: cat::sets().into_iter().collect(),
        comps: cat::comps().into_iter().collect(),
        cat: cat::catalogue(),
        guards: vec![],
        groups: cat::groups().into_iter().collect(),
    }
}

struct Gen {
    r: Rng,
    live: Vec<i64>,
    dead: Vec<i64>,
    value: u32,
    sets: Vec<Vec<u8>>,
    groups: Vec<Vec<u8>>,
}

fn family(f: u8) -> Vec<u8> {
    (10 + 16 * f..26 + 16 * f).collect()
}

fn pair(i: u8) -> Vec<u8> {
    vec![74 + 2 * i, 75 + 2 * i]
}

impl Gen {
    /// A layout near or at the limits.
    fn layout(&mut self) -> Vec<Vec<u8>> {
        let mut gs: Vec<Vec<u8>> = vec![];
        let how = self.r.below(6);
        for f in 0..4 {
            let fam = family(f);
            let chain = |gs: &mut Vec<Vec<u8>>, from: usize| gs.extend((from..17).map(|k| fam[..k].to_vec()));
            match how {
                0 => gs.push(fam.clone()),
                1 | 2 => chain(&mut gs, 2),
                3 if f == 0 => chain(&mut gs, 2),
                3 => (),
                4 => (0..8).for_each(|i| gs.push(fam[2 * i..2 * i + 2].to_vec())),
                _ => {
                    let mut k = self.r.range(1, 16);
                    while k < 16 {
                        k = self.r.range(k + 1, 16);
                        gs.push(fam[..k].to_vec());
                    }
                }
            }
        }
        if how == 1 || self.r.chance(0.6) {
            gs.extend((0..4).map(pair));
        }
        assert!(gs.len() <= 64);
        self.r.shuffle(&mut gs);
        for g in &mut gs {
            if self.r.chance(0.5) {
                self.r.shuffle(g);
            }
        }
        gs
    }

    fn pairs(&mut self, cs: &[u8]) -> Value {
        let base = self.value;
        self.value += cs.len() as u32;
        cs.iter().enumerate().map(|(i, c)| json!([c, base + 1 + i as u32])).collect::<Vec<_>>().into()
    }

    fn any(&mut self) -> i64 {
        if self.r.chance(0.05) && !self.dead.is_empty() {
            *self.r.pick(&self.dead)
        } else if self.live.is_empty() {
            0
        } else {
            *self.r.pick(&self.live)
        }
    }

    /// Mostly large sets.
    fn large(&mut self) -> Vec<u8> {
        let n = self.sets.len();
        self.sets[self.r.range(73, n - 1)].clone()
    }

    fn single(&mut self) -> Vec<u8> {
        // Mostly at the ends of families.
        let c = *self.r.pick(&[0u8, 1, 2, 7, 14, 15, 15, 16, 17, 31, 47, 48, 62, 63, 64, 65, 70, 71]);
        let c = if self.r.chance(0.4) { self.r.below(72) as u8 } else { c };
        vec![c + 10]
    }

    fn go(&mut self, ex: &mut Exec, cmd: Value) {
        ex.run(&cmd);
        let ev = &ex.last;
        match cmd["ev"].as_str().unwrap() {
            "new" | "reset" | "dropworld" => {
                self.live.clear();
                self.dead.clear();
            }
            "create" => self.live.extend(ev["h"].as_i64()),
            "extend" => self.live.extend(ev["hs"].as_array().unwrap().iter().map(|h| h.as_i64().unwrap())),
            "destroy" => {
                let h = cmd["h"].as_i64().unwrap();
                self.live.retain(|x| *x != h);
                self.dead.push(h);
            }
            "clear" => {
                let mut live = std::mem::take(&mut self.live);
                self.dead.append(&mut live);
            }
            _ => (),
        }
    }

    /// Sequences of groups of which some are too large or do not fit.
    fn adds(&mut self) -> Value {
        let mut adds = vec![];
        // Around the documented number of groups, where the last of them are
        // rejected and those there already are not.
        if self.r.chance(0.3) {
            let last: Vec<u8> = (74..82).collect();
            (0..4).for_each(|f| adds.extend((2..17).map(|k| family(f)[..k].to_vec())));
            adds.extend((2..9).map(|k| last[..k].to_vec()));
            self.r.shuffle(&mut adds);
            adds.truncate(self.r.range(62, 67));
            for _ in 0..self.r.below(4) {
                let g = self.r.pick(&adds).clone();
                adds.push(g);
            }
            return json!({ "ev": "layout", "adds": adds, "dyn": self.r.chance(0.5), "use": true, "fresh": false });
        }
        for _ in 0..self.r.range(1, 12) {
            let f = self.r.below(4) as u8;
            let mut g = family(f);
            match self.r.below(5) {
                0 => g.truncate(self.r.range(1, 16)),
                1 => g.push(*self.r.pick(&[10, 42, 80])),
                2 => {
                    g.truncate(self.r.range(1, 15));
                    g.push(*self.r.pick(&[10, 42, 74, 80]));
                }
                3 => {
                    g = g[self.r.below(14)..].to_vec();
                }
                _ => (),
            }
            adds.push(g);
        }
        json!({ "ev": "layout", "adds": adds, "dyn": self.r.chance(0.5), "use": self.r.chance(0.5), "fresh": false })
    }

    fn world(&mut self, ex: &mut Exec) {
        self.value = 0;
        let gs = self.layout();
        let how = *self.r.pick(&["new", "default", "builder", "builder_groups"]);
        let all: Vec<u8> = (10..82).collect();
        let dynamic = self.r.chance(0.5);
        self.go(ex, json!({ "ev": "new", "gs": gs, "rs": all, "dyn": dynamic, "how": how }));
        self.groups = gs;
        let nq = ex.t.cat.len();
        for _ in 0..self.r.range(30, 70) {
            if self.live.len() > 8 {
                let h = self.any();
                self.go(ex, json!({ "ev": "destroy", "h": h }));
            }
            let cmd = match self.r.below(28) {
                0..=4 => {
                    let cs = self.large();
                    json!({ "ev": "create", "cs": self.pairs(&cs) })
                }
                5 => {
                    let cs = self.large();
                    let items: Vec<Value> = (0..self.r.below(4)).map(|_| self.pairs(&cs)).collect();
                    json!({ "ev": "extend", "c": cs, "items": items, "exact": true })
                }
                6 | 7 => {
                    let h = self.any();
                    let cs = self.single();
                    json!({ "ev": "insert", "h": h, "cs": self.pairs(&cs) })
                }
                8 | 9 => {
                    let h = self.any();
                    let cs = self.large();
                    json!({ "ev": "insert", "h": h, "cs": self.pairs(&cs) })
                }
                10 | 11 => json!({ "ev": *self.r.pick(&["remove", "delete"]), "h": self.any(), "c": self.single() }),
                12 => json!({ "ev": *self.r.pick(&["remove", "delete"]), "h": self.any(), "c": self.large() }),
                13 => {
                    let gs = self.layout();
                    self.groups = gs.clone();
                    json!({ "ev": "setlayout", "gs": gs, "dyn": self.r.chance(0.5) })
                }
                14 if self.r.chance(0.2) => json!({ "ev": *self.r.pick(&["clear", "reset"]) }),
                15 => self.adds(),
                16..=18 => json!({ "ev": "qone", "q": self.r.below(nq), "h": self.any(), "w": self.r.chance(0.3),
                    "order": self.r.chance(0.5), "panic": false }),
                19 => {
                    let ps: Vec<i64> = (0..3).map(|_| self.any()).collect();
                    json!({ "ev": "view", "c": self.single()[0], "x": self.r.chance(0.5), "ps": ps,
                        "how": *self.r.pick(&["none", "all", "one", "idx"]), "wh": self.any() })
                }
                20 => {
                    let q = *self.r.pick(&ex.t.cat.iter().enumerate().filter(|e| e.1.par.is_some()).map(|e| e.0).collect::<Vec<_>>());
                    json!({ "ev": "qall", "q": q, "mode": *self.r.pick(&["par", "parfor"]), "w": self.r.chance(0.4),
                        "order": false, "k": 1, "threads": *self.r.pick(&[1, 2, 4]) })
                }
                _ => json!({ "ev": "qall", "q": self.r.below(nq), "mode": *self.r.pick(&["next", "slice", "slice", "foreach", "fold"]),
                    "w": self.r.chance(0.2), "order": self.r.chance(0.3), "k": 1 }),
            };
            self.go(ex, cmd);
        }
        self.go(ex, json!({ "ev": "dropworld" }));
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "drive" => {
            let mut ex = Exec::new(tables(), Some(&args[5]));
            ex.obs_every = 6;
            let sets = cat::sets().into_iter().map(|s| s.0).collect();
            let r = Rng::new(args[3].parse().unwrap());
            let mut gen = Gen { r, live: vec![], dead: vec![], value: 0, sets, groups: vec![] };
            let events: u64 = args[4].parse().unwrap();
            while ex.events < events {
                gen.world(&mut ex);
            }
            ex.flush();
        }
        "replay" => {
            let mut ex = Exec::new(tables(), Some(&args[3]));
            for line in std::fs::read_to_string(&args[2]).unwrap().lines() {
                let cmd: Value = serde_json::from_str(line).unwrap();
                ex.run(&cmd);
            }
            ex.flush();
        }
        other => panic!("unknown subcommand {other}"),
    }
}
