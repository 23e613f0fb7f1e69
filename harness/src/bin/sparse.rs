//! Drives the public sparse vector and records what it does.
//!
//! sparse drive PROFILE SEED EVENTS OUT    random histories
//! sparse replay CMDS OUT                  a recorded list of commands
//!
//! Versions and dense indices are logged as positions in the tables below.

use serde_json::{json, Value};
use sparsey::entity::{Entity, SparseVec, SparseVecSlot, Version};
use std::io::Write;
use std::num::NonZeroU32;
use sv_harness::rng::Rng;

const VERSIONS: [u32; 5] = [0, 1, 2, 3, u32::MAX];
const DENSE: [u32; 6] = [0, 1, 2, 7, 0x8000_0000, u32::MAX];
/// Indices that are stored.
const NEAR: [u32; 25] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 1000, 4095, 4097, 65535, 65536, 65537, 131073];
/// Indices that are only asked for.
const FAR: [u32; 3] = [4098, 300_000, u32::MAX];

fn entity(i: u64, v: u64) -> Entity {
    let i = if i == 0x7FFF_FFFF { u32::MAX } else { i as u32 };
    Entity::new(i, Version(NonZeroU32::new(VERSIONS[v as usize]).unwrap()))
}

fn index(i: u32) -> u32 {
    i.min(0x7FFF_FFFF)
}

fn rank(table: &[u32], x: u32) -> i64 {
    table.iter().position(|&y| y == x).map_or(-1, |p| p as i64)
}

fn slot(s: Option<SparseVecSlot>) -> Value {
    s.map_or(json!([]), |s| json!([rank(&VERSIONS, s.version.0.get()), dense(s.dense() as u32, s.index)]))
}

fn dense(a: u32, b: u32) -> i64 {
    if a == b {
        rank(&DENSE, a)
    } else {
        -2
    }
}

struct Exec {
    vecs: Vec<SparseVec>,
    out: std::io::BufWriter<std::fs::File>,
    cmds: std::io::BufWriter<std::fs::File>,
}

impl Exec {
    fn new(out: &str) -> Self {
        let file = |p: String| std::io::BufWriter::new(std::fs::File::create(p).unwrap());
        Self {
            vecs: vec![SparseVec::new(), SparseVec::default()],
            out: file(out.to_string()),
            cmds: file(format!("{out}.cmds")),
        }
    }

    /// All that the readers of a vector tell.
    fn seen(vec: &mut SparseVec) -> Value {
        let (mut get, mut has, mut at, mut raw, mut taken) = (vec![], vec![], vec![], vec![], vec![]);
        for i in NEAR.into_iter().chain(FAR) {
            for v in 1..VERSIONS.len() {
                let e = entity(index(i).into(), v as u64);
                if let Some(d) = vec.get(e) {
                    get.push(json!([index(i), v, rank(&DENSE, d)]));
                }
                if vec.contains(e) {
                    has.push(json!([index(i), v]));
                }
            }
            if let Some(d) = vec.get_sparse(i as usize) {
                at.push(json!([index(i), rank(&DENSE, d)]));
                // There is something at this position.
                let d = unsafe { vec.get_sparse_unchecked(i as usize) };
                let s = unsafe { *vec.get_unchecked_mut(i as usize) };
                raw.push(json!([index(i), s.map_or(-3, |s| dense(d as u32, s.index))]));
            }
            if vec.contains_sparse(i as usize) {
                taken.push(json!([index(i)]));
            }
        }
        json!({ "get": get, "has": has, "at": at, "raw": raw, "taken": taken })
    }

    fn run(&mut self, cmd: &Value) {
        writeln!(self.cmds, "{cmd}").unwrap();
        self.cmds.flush().unwrap();
        let n = |k: &str| cmd[k].as_u64().unwrap_or(0);
        let x = n("x") as usize - 1;
        let i = n("i") as usize;
        let e = || entity(n("i"), n("v"));
        let vec = &mut self.vecs[x];
        let ret = match cmd["ev"].as_str().unwrap() {
            "new" => {
                *vec = SparseVec::new();
                json!([])
            }
            "set" => {
                let new = SparseVecSlot { index: DENSE[n("d") as usize], version: e().version };
                slot(vec.get_mut_or_allocate_at(i).replace(new))
            }
            "peek" => slot(*vec.get_mut_or_allocate_at(i)),
            "take" => slot(vec.get_mut_or_allocate_at(i).take()),
            "remove" => vec.remove(e()).map_or(json!([]), |d| json!([rank(&DENSE, d)])),
            "removesparse" => slot(vec.remove_sparse(e().sparse())),
            "swap" => {
                let j = n("j") as usize;
                // Asked for only where both are there.
                if vec.contains_sparse(i) && vec.contains_sparse(j) && i != j {
                    unsafe { vec.swap_nonoverlapping(i, j) };
                }
                json!([])
            }
            "clear" => {
                vec.clear();
                json!([])
            }
            "clone" => {
                let copy = vec.clone();
                self.vecs[n("y") as usize - 1] = copy;
                json!([])
            }
            other => panic!("unknown command {other}"),
        };
        let seen: Vec<Value> = self.vecs.iter_mut().map(Self::seen).collect();
        let mut event = cmd.clone();
        event["ret"] = ret;
        event["seen"] = json!(seen);
        writeln!(self.out, "{event}").unwrap();
    }
}

fn drive(ex: &mut Exec, rng: &mut Rng, events: usize) {
    // What is there, as commands tell it.
    let mut at: Vec<std::collections::BTreeMap<u32, usize>> = vec![Default::default(); 2];
    let mut pool = NEAR.to_vec();
    for k in 0..events {
        if k % 200 == 0 {
            pool = NEAR.to_vec();
            rng.shuffle(&mut pool);
            pool.truncate(rng.range(2, 25));
            for x in 0..2 {
                at[x].clear();
                ex.run(&json!({ "ev": "new", "x": x + 1 }));
            }
        }
        let x = rng.below(2);
        let near = *rng.pick(&pool);
        let any = if rng.chance(0.1) { *rng.pick(&FAR) } else { near };
        let v = match at[x].get(&any) {
            Some(&v) if rng.chance(0.6) => v,
            _ => rng.range(1, VERSIONS.len() - 1),
        };
        let there: Vec<u32> = at[x].keys().copied().collect();
        let cmd = match rng.weighted(&[5.0, 0.5, 1.0, 3.0, 1.0, 2.0, 0.1, 0.2]) {
            0 => {
                let v = rng.range(1, VERSIONS.len() - 1);
                at[x].insert(near, v);
                json!({ "ev": "set", "i": near, "v": v, "d": rng.below(DENSE.len()) })
            }
            1 => json!({ "ev": "peek", "i": near }),
            2 => {
                at[x].remove(&near);
                json!({ "ev": "take", "i": near })
            }
            3 => {
                if at[x].get(&any) == Some(&v) {
                    at[x].remove(&any);
                }
                json!({ "ev": "remove", "i": index(any), "v": v })
            }
            4 => {
                at[x].remove(&any);
                json!({ "ev": "removesparse", "i": index(any), "v": 1 })
            }
            5 if there.len() > 1 => {
                let a = *rng.pick(&there);
                let b = *rng.pick(&there);
                if a == b {
                    continue;
                }
                json!({ "ev": "swap", "i": a, "j": b })
            }
            6 => {
                at[x].clear();
                json!({ "ev": "clear" })
            }
            7 => {
                at[1 - x] = at[x].clone();
                json!({ "ev": "clone", "y": 2 - x })
            }
            _ => continue,
        };
        let mut cmd = cmd;
        cmd["x"] = json!(x + 1);
        ex.run(&cmd);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "drive" => {
            let mut ex = Exec::new(&args[5]);
            drive(&mut ex, &mut Rng::new(args[3].parse().unwrap()), args[4].parse().unwrap());
        }
        "replay" => {
            let mut ex = Exec::new(&args[3]);
            for line in std::fs::read_to_string(&args[2]).unwrap().lines() {
                ex.run(&serde_json::from_str(line).unwrap());
            }
        }
        other => panic!("unknown subcommand {other}"),
    }
}
