//! Uses handles, versions and component descriptors as keys of collections,
//! and records what comes of it.
//!
//! keys drive PROFILE SEED EVENTS OUT    random histories
//! keys replay CMDS OUT                  a recorded list of commands
//!
//! A key is logged as what it is made of: index and version, as positions in
//! a table, or the number of a type.

use serde_json::{json, Value};
use sparsey::component::ComponentData;
use sparsey::entity::{Entity, Version};
use sparsey::World;
use std::any::{type_name, TypeId};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::num::NonZeroU32;
use sv_harness::comp::{A, B, C, E, G, S, Z};
use sv_harness::rng::Rng;

const NUMBERS: [u32; 14] =
    [0, 1, 2, 3, 4, 5, 6, 7, 255, 256, 0x7FFF_FFFF, 0x8000_0000, u32::MAX - 1, u32::MAX];

fn rank(x: u32) -> i64 {
    NUMBERS.iter().position(|&y| y == x).map_or(-1, |p| p as i64)
}

trait KeyLike: Copy + Ord + Hash + Debug {
    /// A key made of these parts.
    fn make(a: usize, b: usize) -> Self;
    /// What the key says it is made of.
    fn parts(&self) -> (i64, i64);
}

/// A handle from a world, if these are small numbers.
fn from_world(index: u32, version: u32) -> Entity {
    let mut world = World::default();
    let mut es: Vec<Entity> = (0..=index).map(|k| if k % 2 == 0 { world.create(()) } else { world.create_atomic() }).collect();
    world.maintain();
    for _ in 1..version {
        world.destroy(es[index as usize]);
        es[index as usize] = world.create(());
    }
    let e = es[index as usize];
    // Which handles a world gives out is not looked at here.
    if e.index == index && e.version.0.get() == version { e } else { Entity::new(index, Version(NonZeroU32::new(version).unwrap())) }
}

fn version(b: usize) -> Version {
    Version(NonZeroU32::new(NUMBERS[b]).unwrap())
}

impl KeyLike for Entity {
    fn make(a: usize, b: usize) -> Self {
        match b {
            _ if (a + b) % 3 == 0 && a < 5 && b < 5 => from_world(NUMBERS[a], NUMBERS[b]),
            1 if a % 2 == 1 => Entity::with_index(NUMBERS[a]),
            _ => Entity::new(NUMBERS[a], version(b)),
        }
    }
    fn parts(&self) -> (i64, i64) {
        if self.sparse() != self.index as usize {
            return (-2, 0);
        }
        (rank(self.index), rank(self.version.0.get()))
    }
}

impl KeyLike for Version {
    fn make(a: usize, _: usize) -> Self {
        match a {
            1 => Version::FIRST,
            13 => Version::LAST,
            _ => version(a.max(1)),
        }
    }
    fn parts(&self) -> (i64, i64) {
        (rank(self.0.get()), 0)
    }
}

struct Ty {
    data: fn() -> ComponentData,
    id: fn() -> TypeId,
    name: fn() -> &'static str,
}

fn ty<T: Send + Sync + 'static>() -> Ty {
    Ty { data: ComponentData::new::<T>, id: TypeId::of::<T>, name: type_name::<T> }
}

fn types() -> Vec<Ty> {
    vec![
        ty::<A>(), ty::<B>(), ty::<C>(), ty::<Z>(), ty::<S>(), ty::<E>(), ty::<G<0>>(), ty::<G<1>>(), ty::<G<2>>(),
        ty::<G<3>>(), ty::<()>(), ty::<[u8; 0]>(), ty::<u8>(), ty::<i8>(),
    ]
}

impl KeyLike for ComponentData {
    fn make(a: usize, _: usize) -> Self {
        (types()[a].data)()
    }
    fn parts(&self) -> (i64, i64) {
        let of = |t: &Ty| (t.id)() == self.type_id() && (t.name)() == self.type_name();
        (types().iter().position(of).map_or(-1, |p| p as i64), 0)
    }
}

/// Collections of one kind of keys.
struct Colls<K> {
    tree: BTreeMap<K, i64>,
    table: HashMap<K, i64>,
    sorted: Vec<(K, i64)>,
}

fn sign(o: Ordering) -> i64 {
    o as i64
}

fn found(v: Option<i64>) -> Value {
    v.map_or(json!([]), |v| json!([v]))
}

fn hash<K: Hash>(k: &K) -> u64 {
    let mut h = DefaultHasher::new();
    k.hash(&mut h);
    h.finish()
}

fn log<K: KeyLike>(k: &K) -> Value {
    let (a, b) = k.parts();
    json!([a, b])
}

fn logs<'a, K: KeyLike + 'a>(ks: impl IntoIterator<Item = &'a K>) -> Value {
    ks.into_iter().map(log).collect()
}

impl<K: KeyLike> Colls<K> {
    fn new() -> Self {
        Self { tree: BTreeMap::new(), table: HashMap::new(), sorted: vec![] }
    }

    fn keys(v: &Value) -> Vec<K> {
        v.as_array().unwrap().iter().map(Self::key).collect()
    }

    fn key(k: &Value) -> K {
        K::make(k[0].as_u64().unwrap() as usize, k[1].as_u64().unwrap() as usize)
    }

    fn run(&mut self, cmd: &Value, ev: &mut Value) {
        match cmd["ev"].as_str().unwrap() {
            "new" => {
                *self = Self::new();
                // Made twice, so that equal keys are not the same object.
                let (ks, again) = (Self::keys(&cmd["ks"]), Self::keys(&cmd["ks"]));
                let all = |f: &dyn Fn(&K, &K) -> Value| -> Value {
                    ks.iter().map(|a| again.iter().map(|b| f(a, b)).collect::<Value>()).collect()
                };
                ev["made"] = logs(&ks);
                ev["cmp"] = all(&|a, b| json!(sign(a.cmp(b))));
                ev["part"] = all(&|a, b| json!(a.partial_cmp(b).map_or(9, sign)));
                ev["eq"] = all(&|a, b| json!(a == b));
                ev["ne"] = all(&|a, b| json!(a != b));
                ev["ops"] = all(&|a, b| json!([a < b, a <= b, a > b, a >= b]));
                ev["hash"] = all(&|a, b| json!(hash(a) == hash(b)));
            }
            "put" => {
                let (k, v) = (Self::key(&cmd["k"]), cmd["v"].as_i64().unwrap());
                let old = match self.sorted.binary_search_by(|x| x.0.cmp(&k)) {
                    Ok(p) => Some(std::mem::replace(&mut self.sorted[p].1, v)),
                    Err(p) => {
                        self.sorted.insert(p, (k, v));
                        None
                    }
                };
                ev["ret"] = json!([found(self.tree.insert(k, v)), found(self.table.insert(k, v)), found(old)]);
            }
            "take" => {
                let k = Self::key(&cmd["k"]);
                let old = self.sorted.binary_search_by(|x| x.0.cmp(&k)).ok().map(|p| self.sorted.remove(p).1);
                ev["ret"] = json!([found(self.tree.remove(&k)), found(self.table.remove(&k)), found(old)]);
            }
            "get" => {
                let k = Self::key(&cmd["k"]);
                let at = self.sorted.binary_search_by(|x| x.0.cmp(&k)).ok().map(|p| self.sorted[p].1);
                let lin = self.sorted.iter().find(|x| x.0 == k).map(|x| x.1);
                ev["ret"] =
                    json!([found(self.tree.get(&k).copied()), found(self.table.get(&k).copied()), found(at), found(lin)]);
            }
            "list" => {
                let (a, b) = (Self::key(&cmd["a"]), Self::key(&cmd["b"]));
                let (lo, hi) = (a.min(b), a.max(b));
                ev["lo"] = log(&lo);
                ev["hi"] = log(&hi);
                ev["tree"] = logs(self.tree.keys());
                ev["sorted"] = logs(self.sorted.iter().map(|x| &x.0));
                ev["table"] = self.table.iter().map(|(k, v)| json!([log(k), v])).collect();
                ev["range"] = logs(self.tree.range(lo..=hi).map(|x| x.0));
            }
            "sort" => {
                let ks = Self::keys(&cmd["ks"]);
                let (mut stable, mut unstable) = (ks.clone(), ks.clone());
                stable.sort();
                unstable.sort_unstable();
                ev["stable"] = logs(&stable);
                ev["unstable"] = logs(&unstable);
                ev["min"] = log(ks.iter().min().unwrap());
                ev["max"] = log(ks.iter().max().unwrap());
                let (tree, table) = (ks.iter().collect::<BTreeSet<_>>(), ks.iter().collect::<HashSet<_>>());
                ev["set"] = json!(if tree.len() == table.len() { tree.len() as i64 } else { -1 });
                stable.dedup();
                ev["dedup"] = json!(stable.len());
            }
            other => panic!("unknown command {other}"),
        }
    }
}

struct Exec {
    kind: String,
    entities: Colls<Entity>,
    versions: Colls<Version>,
    types: Colls<ComponentData>,
    out: std::io::BufWriter<std::fs::File>,
    cmds: std::io::BufWriter<std::fs::File>,
}

impl Exec {
    fn new(out: &str) -> Self {
        let file = |p: String| std::io::BufWriter::new(std::fs::File::create(p).unwrap());
        Self {
            kind: String::new(),
            entities: Colls::new(),
            versions: Colls::new(),
            types: Colls::new(),
            out: file(out.to_string()),
            cmds: file(format!("{out}.cmds")),
        }
    }

    fn run(&mut self, cmd: &Value) {
        writeln!(self.cmds, "{cmd}").unwrap();
        self.cmds.flush().unwrap();
        if let Some(kind) = cmd["kind"].as_str() {
            self.kind = kind.to_string();
        }
        let mut ev = cmd.clone();
        match self.kind.as_str() {
            "entity" => self.entities.run(cmd, &mut ev),
            "version" => self.versions.run(cmd, &mut ev),
            _ => self.types.run(cmd, &mut ev),
        }
        writeln!(self.out, "{ev}").unwrap();
    }
}

fn drive(ex: &mut Exec, rng: &mut Rng, events: usize) {
    let mut ks: Vec<Value> = vec![];
    for n in 0..events {
        if n % 250 == 0 {
            let kind = *rng.pick(&["entity", "entity", "entity", "version", "type"]);
            let mut all: Vec<Value> = vec![];
            if kind == "entity" {
                // Few numbers, so that many keys share one of the two.
                let few = |rng: &mut Rng, lo: usize| -> Vec<usize> { (0..5).map(|_| rng.range(lo, 13)).collect() };
                let (is, vs) = (few(rng, 0), few(rng, 1));
                all.extend(is.iter().flat_map(|i| vs.iter().map(move |v| json!([i, v]))));
            } else {
                all.extend((1..14).map(|i| json!([i, 0])));
            }
            all.sort_by_key(|k| k.to_string());
            all.dedup();
            rng.shuffle(&mut all);
            all.truncate(20);
            ks = all;
            ex.run(&json!({ "ev": "new", "kind": kind, "ks": ks }));
            continue;
        }
        let k = rng.pick(&ks).clone();
        let cmd = match rng.weighted(&[6.0, 3.0, 3.0, 0.6, 1.0]) {
            0 => json!({ "ev": "put", "k": k, "v": rng.below(1000) }),
            1 => json!({ "ev": "take", "k": k }),
            2 => json!({ "ev": "get", "k": k }),
            3 => json!({ "ev": "list", "a": k, "b": rng.pick(&ks) }),
            _ => json!({ "ev": "sort", "ks": (0..rng.range(1, 30)).map(|_| rng.pick(&ks).clone()).collect::<Vec<_>>() }),
        };
        ex.run(&cmd);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "drive" => {
            let mut ex = Exec::new(&args[5]);
            drive(&mut ex, &mut Rng::new(args[3].parse().unwrap()), args[4].parse().unwrap());
        }
        "replay" => {
            let mut ex = Exec::new(&args[3]);
            for line in std::fs::read_to_string(&args[2]).unwrap().lines() {
                ex.run(&serde_json::from_str(line).unwrap());
            }
        }
        other => panic!("unknown subcommand {other}"),
    }
}
