//! Records what a world asks of the allocator.
//!
//! heap drive PROFILE SEED EVENTS OUT    random histories
//! heap replay CMDS OUT                  a recorded list of commands

use serde_json::{json, Value};
use sparsey::component::{ComponentData, GroupLayout};
use sparsey::entity::Entity;
use sparsey::World;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sv_harness::rng::Rng;

// ---- the allocator ---------------------------------------------------------

/// Blocks that were asked for while recording, and the requests so far.
/// This process has one thread.
struct Book {
    keys: [usize; SLOTS],
    ids: [u32; SLOTS],
    next: u32,
    log: [[u64; 6]; LOG],
    len: usize,
}

const SLOTS: usize = 1 << 14;
const LOG: usize = 1 << 15;
const GONE: usize = 1;

struct Recorder(UnsafeCell<Book>);
unsafe impl Sync for Recorder {}

#[global_allocator]
static HEAP: Recorder = Recorder(UnsafeCell::new(Book { keys: [0; SLOTS], ids: [0; SLOTS], next: 1, log: [[0; 6]; LOG], len: 0 }));

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    /// The next destructor panics.
    static BOOM: Cell<bool> = const { Cell::new(false) };
}

impl Book {
    fn find(&self, p: usize) -> Option<usize> {
        let mut k = (p >> 4).wrapping_mul(0x9E37_79B9) % SLOTS;
        while self.keys[k] != 0 {
            if self.keys[k] == p {
                return Some(k);
            }
            k = (k + 1) % SLOTS;
        }
        None
    }

    fn add(&mut self, p: usize) -> u32 {
        let mut k = (p >> 4).wrapping_mul(0x9E37_79B9) % SLOTS;
        while self.keys[k] > GONE {
            k = (k + 1) % SLOTS;
        }
        self.keys[k] = p;
        self.ids[k] = self.next;
        self.next += 1;
        self.ids[k]
    }

    fn take(&mut self, p: usize) -> Option<u32> {
        let k = self.find(p)?;
        self.keys[k] = GONE;
        Some(self.ids[k])
    }

    fn note(&mut self, r: [u64; 6]) {
        if self.len == LOG {
            // Nothing is known about the rest.
            std::process::abort();
        }
        self.log[self.len] = r;
        self.len += 1;
    }

    /// Slots of blocks that are gone make room.
    fn tidy(&mut self) {
        if self.keys.iter().all(|&k| k <= GONE) {
            self.keys = [0; SLOTS];
        }
    }
}

unsafe impl GlobalAlloc for Recorder {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let p = System.alloc(layout);
        if ON.get() {
            let book = &mut *self.0.get();
            let id = book.add(p as usize);
            book.note([0, id.into(), layout.size() as u64, layout.align() as u64, 0, 0]);
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let book = &mut *self.0.get();
        let id = book.take(p as usize);
        if id.is_some() || ON.get() {
            book.note([1, id.unwrap_or(0).into(), layout.size() as u64, layout.align() as u64, 0, 0]);
        }
        System.dealloc(p, layout)
    }

    unsafe fn realloc(&self, p: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        let book = &mut *self.0.get();
        let id = book.take(p as usize);
        let q = System.realloc(p, layout, size);
        if id.is_some() || ON.get() {
            let new = book.add(q as usize);
            book.note([2, id.unwrap_or(0).into(), layout.size() as u64, layout.align() as u64, new.into(), size as u64]);
        }
        q
    }
}

/// Runs `f` with requests recorded.
fn recorded<R>(f: impl FnOnce() -> R) -> R {
    ON.set(true);
    let r = f();
    ON.set(false);
    r
}

fn requests() -> Vec<Value> {
    let book = unsafe { &mut *HEAP.0.get() };
    let rows: Vec<[u64; 6]> = book.log[..book.len].to_vec();
    book.len = 0;
    book.tidy();
    rows.iter()
        .map(|r| match r[0] {
            0 => json!(["a", r[1], r[2], r[3]]),
            1 => json!(["f", r[1], r[2], r[3]]),
            _ => json!(["r", r[1], r[2], r[3], r[4], r[5]]),
        })
        .collect()
}

// ---- components ------------------------------------------------------------

trait Make {
    fn make() -> Self;
}

#[allow(dead_code)]
struct V0(u64);
#[allow(dead_code)]
struct V1([u8; 41]);
struct V2;
#[allow(dead_code)]
struct V3(Box<u32>);
#[allow(dead_code)]
#[repr(align(64))]
struct V4(u8);

// The value itself owns nothing, so that it may be forgotten.
impl Drop for V0 {
    fn drop(&mut self) {
        if BOOM.replace(false) {
            panic!("destructor");
        }
    }
}

/// Runs `f`, in which a destructor may panic if there is to be one that does.
fn defused(boom: bool, f: impl FnOnce()) {
    BOOM.set(boom);
    let _ = catch_unwind(AssertUnwindSafe(f)).is_err();
    BOOM.set(false);
}

impl Make for V0 {
    fn make() -> Self {
        V0(7)
    }
}
impl Make for V1 {
    fn make() -> Self {
        V1([7; 41])
    }
}
impl Make for V2 {
    fn make() -> Self {
        V2
    }
}
impl Make for V3 {
    fn make() -> Self {
        V3(Box::new(7))
    }
}
impl Make for V4 {
    fn make() -> Self {
        V4(7)
    }
}

const TYPES: usize = 5;

fn data(c: usize) -> ComponentData {
    match c {
        0 => ComponentData::new::<V0>(),
        1 => ComponentData::new::<V1>(),
        2 => ComponentData::new::<V2>(),
        3 => ComponentData::new::<V3>(),
        _ => ComponentData::new::<V4>(),
    }
}

/// Calls a macro with the types of a set.
macro_rules! with {
    ($bits:expr, $f:ident) => {
        match $bits {
            1 => $f!(V0),
            2 => $f!(V1),
            3 => $f!(V0, V1),
            4 => $f!(V2),
            5 => $f!(V0, V2),
            6 => $f!(V1, V2),
            7 => $f!(V0, V1, V2),
            8 => $f!(V3),
            9 => $f!(V0, V3),
            10 => $f!(V1, V3),
            11 => $f!(V0, V1, V3),
            12 => $f!(V2, V3),
            13 => $f!(V0, V2, V3),
            14 => $f!(V1, V2, V3),
            15 => $f!(V0, V1, V2, V3),
            16 => $f!(V4),
            17 => $f!(V0, V4),
            18 => $f!(V1, V4),
            19 => $f!(V0, V1, V4),
            20 => $f!(V2, V4),
            21 => $f!(V0, V2, V4),
            22 => $f!(V1, V2, V4),
            23 => $f!(V0, V1, V2, V4),
            24 => $f!(V3, V4),
            25 => $f!(V0, V3, V4),
            26 => $f!(V1, V3, V4),
            27 => $f!(V0, V1, V3, V4),
            28 => $f!(V2, V3, V4),
            29 => $f!(V0, V2, V3, V4),
            30 => $f!(V1, V2, V3, V4),
            31 => $f!(V0, V1, V2, V3, V4),
            _ => $f!(),
        }
    };
}

fn bits(cs: &Value) -> u32 {
    cs.as_array().unwrap().iter().fold(0, |b, c| b | 1 << c.as_u64().unwrap())
}

fn layout(gs: &Value) -> GroupLayout {
    let mut layout = GroupLayout::default();
    for g in gs.as_array().unwrap() {
        let g: Vec<ComponentData> = g.as_array().unwrap().iter().map(|c| data(c.as_u64().unwrap() as usize)).collect();
        layout.add_group_dyn(&g);
    }
    layout
}

// ---- commands --------------------------------------------------------------

struct Items(usize);

impl Iterator for Items {
    type Item = ();
    fn next(&mut self) -> Option<()> {
        self.0 = self.0.checked_sub(1)?;
        Some(())
    }
}

struct Exec {
    world: Option<World>,
    /// Entities by what they have, oldest first.
    have: BTreeMap<u32, Vec<Entity>>,
    gone: Vec<Entity>,
    out: std::io::BufWriter<std::fs::File>,
    cmds: std::io::BufWriter<std::fs::File>,
}

impl Exec {
    fn new(out: &str) -> Self {
        // What a first panic sets up is no matter of a world.
        std::panic::set_hook(Box::new(|_| {}));
        let _ = catch_unwind(|| panic!("{}", 1));
        let file = |p: String| std::io::BufWriter::new(std::fs::File::create(p).unwrap());
        Self { world: None, have: BTreeMap::new(), gone: vec![], out: file(out.to_string()), cmds: file(format!("{out}.cmds")) }
    }

    fn take(&mut self, s: u32, n: usize, newest: bool) -> Vec<Entity> {
        let es = self.have.entry(s).or_default();
        let n = n.min(es.len());
        if newest {
            es.split_off(es.len() - n)
        } else {
            es.drain(..n).collect()
        }
    }

    fn run(&mut self, cmd: &Value) {
        writeln!(self.cmds, "{cmd}").unwrap();
        self.cmds.flush().unwrap();
        let ev = cmd["ev"].as_str().unwrap();
        let mut n = cmd["n"].as_u64().unwrap_or(1) as usize;
        let s = if cmd["s"].is_array() { bits(&cmd["s"]) } else { 0 };
        let c = if cmd["c"].is_array() { bits(&cmd["c"]) } else { 0 };
        let newest = cmd["newest"] == true;
        let boom = cmd["boom"] == true;
        if ev == "new" {
            self.have.clear();
            self.gone.clear();
            let gs = &cmd["gs"];
            let how = cmd["how"].as_u64().unwrap_or(0);
            self.world = Some(recorded(|| match how {
                0 => World::new(&layout(gs)),
                1 => {
                    let mut b = World::builder();
                    b.set_layout(layout(gs));
                    // A builder can make several worlds.
                    drop(b.build());
                    b.build()
                }
                2 => {
                    let mut b = World::builder();
                    for g in gs.as_array().unwrap() {
                        let g: Vec<ComponentData> = g.as_array().unwrap().iter().map(|c| data(c.as_u64().unwrap() as usize)).collect();
                        b.add_group_dyn(&g);
                    }
                    b.build()
                }
                _ => {
                    let mut w = World::default();
                    w.set_layout(&layout(gs).clone());
                    w
                }
            }));
        } else if ev == "drop" {
            let w = self.world.take();
            recorded(|| defused(boom, || drop(w)));
            self.have.clear();
        } else {
            let mut w = self.world.take().unwrap();
            match ev {
                "create" => {
                    n = 1;
                    macro_rules! f { ($($T:ident),*) => { recorded(|| w.create(($($T::make(),)*))) } }
                    let e = with!(s, f);
                    self.have.entry(s).or_default().push(e);
                }
                "extend" => {
                    let at = cmd["at"].as_u64().map(|k| k as usize);
                    let mut new = Vec::with_capacity(n);
                    macro_rules! f { ($($T:ident),*) => {{
                        let ids = recorded(|| catch_unwind(AssertUnwindSafe(|| {
                            let mut k = 0;
                            w.extend(Items(n).map(|()| {
                                assert!(Some(k) != at);
                                k += 1;
                                ($($T::make(),)*)
                            }))
                            .len()
                        }))
                        .map_err(drop));
                        let _ = ids;
                    }} }
                    let before: std::collections::HashSet<Entity> = w.entities().iter().copied().collect();
                    with!(s, f);
                    new.extend(w.entities().iter().copied().filter(|e| !before.contains(e)));
                    n = new.len();
                    self.have.entry(s).or_default().extend(new);
                }
                "queue" => recorded(|| {
                    for _ in 0..n {
                        w.create_atomic();
                    }
                }),
                "maintain" => {
                    let before: std::collections::HashSet<Entity> = w.entities().iter().copied().collect();
                    recorded(|| w.maintain());
                    let new: Vec<Entity> = w.entities().iter().copied().filter(|e| !before.contains(e)).collect();
                    self.have.entry(0).or_default().extend(new);
                }
                "destroy" => {
                    let es = self.take(s, n, newest);
                    n = es.len();
                    for e in &es {
                        recorded(|| defused(boom, || assert!(w.destroy(*e))));
                    }
                    self.gone = es;
                }
                "insert" => {
                    let es = self.take(s, n, newest);
                    for e in &es {
                        macro_rules! f { ($($T:ident),*) => { recorded(|| defused(boom, || assert!(w.insert(*e, ($($T::make(),)*))))) } }
                        with!(c, f);
                    }
                    n = es.len();
                    self.have.entry(s | c).or_default().extend(es);
                }
                "remove" => {
                    let es = self.take(s, n, newest);
                    let delete = cmd["delete"] == true;
                    for e in &es {
                        macro_rules! f { ($($T:ident),*) => {
                            recorded(|| defused(boom, || if delete {
                                w.delete::<($($T,)*)>(*e)
                            } else {
                                let _ = w.remove::<($($T,)*)>(*e);
                            }))
                        } }
                        with!(c, f);
                    }
                    n = es.len();
                    self.have.entry(s & !c).or_default().extend(es);
                }
                // Calls without effect.
                "stale" => {
                    for e in &self.gone {
                        macro_rules! f { ($($T:ident),*) => { recorded(|| {
                            w.insert(*e, ($($T::make(),)*));
                            let _ = w.remove::<($($T,)*)>(*e);
                            w.delete::<($($T,)*)>(*e);
                            w.destroy(*e);
                        }) } }
                        with!(c, f);
                    }
                }
                "unknown" => {
                    struct Other(#[allow(dead_code)] Box<u8>);
                    let e = self.have.values().flatten().next().copied();
                    recorded(|| {
                        let refused = catch_unwind(AssertUnwindSafe(|| w.create((V0(1), Other(Box::new(1)))))).is_err();
                        let _ = refused;
                        if let Some(e) = e {
                            let _ = catch_unwind(AssertUnwindSafe(|| w.insert(e, (Other(Box::new(1)),)))).is_err();
                        }
                        let _ = catch_unwind(AssertUnwindSafe(|| w.extend((0..3).map(|_| (Other(Box::new(1)),))).len())).is_err();
                    });
                }
                "clear" => {
                    self.have.clear();
                    recorded(|| defused(boom, || w.clear()));
                }
                "reset" => {
                    self.have.clear();
                    self.gone.clear();
                    recorded(|| defused(boom, || w.reset()));
                }
                "layout" => {
                    let gs = &cmd["gs"];
                    recorded(|| w.set_layout(&layout(gs)));
                }
                "badlayout" => recorded(|| {
                    let _ = catch_unwind(|| {
                        let mut l = GroupLayout::default();
                        l.add_group_dyn(&[data(0), data(1), data(2)]);
                        l.add_group_dyn(&[data(2), data(3)]);
                    })
                    .is_err();
                }),
                "register" => {
                    macro_rules! f { ($($T:ident),*) => { recorded(|| { $(w.register::<$T>();)* }) } }
                    with!(c, f);
                }
                "look" => {
                    let (mut seen, mut some) = (0, None);
                    recorded(|| {
                        let v0 = w.is_registered::<V0>();
                        let v3 = w.is_registered::<V3>();
                        if v0 && v3 {
                            seen += w.query_all::<(&V0, &mut V3)>().iter().count();
                            seen += w.query_all::<(Entity, Option<&V0>)>().include::<&V3>().iter().count();
                            seen += w.query_all::<(&V0, &V3)>().slice().map_or(0, |s| s.0.len());
                            let _ = catch_unwind(AssertUnwindSafe(|| w.for_each::<(&V0, &V3)>(|_| panic!()))).is_err();
                            let v = w.borrow_mut::<V3>();
                            let _ = catch_unwind(AssertUnwindSafe(|| w.borrow::<V3>().len())).is_err();
                            seen += v.len();
                        }
                        some = w.entities().first().copied();
                        if let (Some(e), true) = (some, v3) {
                            seen += usize::from(w.contains::<&V3>(e));
                            seen += usize::from(w.query_one::<(&V3, Entity)>().get(e).is_some());
                        }
                    });
                    n = seen;
                }
                other => panic!("unknown command {other}"),
            }
            self.world = Some(w);
        }
        let heap = requests();
        let mut event = cmd.clone();
        event["n"] = json!(n);
        event["heap"] = json!(heap);
        writeln!(self.out, "{event}").unwrap();
    }
}

fn drive(ex: &mut Exec, rng: &mut Rng, events: usize) {
    let pick = |rng: &mut Rng, from: &[usize]| -> Vec<usize> { from.iter().copied().filter(|_| rng.chance(0.4)).collect() };
    let groups = |rng: &mut Rng| -> Value {
        let mut all: Vec<usize> = (0..TYPES).collect();
        rng.shuffle(&mut all);
        match rng.below(5) {
            0 => json!([]),
            1 => json!([&all[..2]]),
            2 => json!([&all[..2], &all[2..4]]),
            3 => json!([&all[..2], &all[..4], &all]),
            _ => json!([&all]),
        }
    };
    let known_by = |gs: &Value, known: &mut Vec<usize>| {
        for c in gs.as_array().unwrap().iter().flat_map(|g| g.as_array().unwrap()) {
            let c = c.as_u64().unwrap() as usize;
            if !known.contains(&c) {
                known.push(c);
            }
        }
    };
    let (mut known, mut queued, mut left, mut most, mut often) = (vec![], 0, 0, 0, false);
    for _ in 0..events {
        if left == 0 {
            if ex.world.is_some() {
                ex.run(&json!({ "ev": "drop", "boom": rng.chance(0.3) }));
            }
            left = *rng.pick(&[5, 30, 150, 300, 2000]);
            most = if left == 2000 { 3 } else { *rng.pick(&[3, 20, 60, 200, 600]) };
            often = rng.chance(0.5);
            known.clear();
            queued = 0;
            let gs = groups(rng);
            known_by(&gs, &mut known);
            ex.run(&json!({ "ev": "new", "gs": gs, "how": rng.below(4) }));
            continue;
        }
        left -= 1;
        let total = queued + ex.have.values().map(Vec::len).sum::<usize>();
        let room = most - total.min(most);
        let n = if rng.chance(0.5) { rng.range(1, 3) } else { rng.range(1, most) };
        let sets: Vec<u32> = ex.have.iter().filter(|(_, es)| !es.is_empty()).map(|(&s, _)| s).collect();
        let of = |s: u32| -> Vec<usize> { (0..TYPES).filter(|c| s >> c & 1 == 1).collect() };
        // Small worlds live long, and some of them change their layout often.
        let relayout = if most == 3 && often { 5.0 } else { 0.3 };
        let cmd = match rng.weighted(&[3.0, 2.0, 1.5, 1.0, 4.0, 3.0, 3.0, 0.1, 0.08, relayout, 0.5, 0.2, 0.2, 0.1, 0.5]) {
            0 if room > 0 => json!({ "ev": "create", "s": pick(rng, &known) }),
            1 if room > 0 => {
                let n = n.min(room);
                let mut cmd = json!({ "ev": "extend", "n": n, "s": pick(rng, &known) });
                if rng.chance(0.2) {
                    cmd["at"] = json!(rng.below(n));
                }
                cmd
            }
            2 if room > 0 => {
                queued += n.min(room);
                json!({ "ev": "queue", "n": n.min(room) })
            }
            3 => {
                queued = 0;
                json!({ "ev": "maintain" })
            }
            4 if !sets.is_empty() => json!({ "ev": "destroy", "s": of(*rng.pick(&sets)), "n": n, "newest": rng.chance(0.5) }),
            5 if !sets.is_empty() => json!({ "ev": "insert", "s": of(*rng.pick(&sets)), "c": pick(rng, &known), "n": n, "newest": rng.chance(0.5) }),
            6 if !sets.is_empty() => {
                let s = of(*rng.pick(&sets));
                let from = if rng.chance(0.8) { s.clone() } else { known.clone() };
                json!({ "ev": "remove", "c": pick(rng, &from), "s": s, "n": n, "newest": rng.chance(0.5), "delete": rng.chance(0.5) })
            }
            7 => {
                queued = 0;
                json!({ "ev": "clear" })
            }
            8 => {
                queued = 0;
                json!({ "ev": "reset" })
            }
            9 => {
                let gs = groups(rng);
                known_by(&gs, &mut known);
                json!({ "ev": "layout", "gs": gs })
            }
            10 => {
                let c = rng.below(TYPES);
                if !known.contains(&c) {
                    known.push(c);
                }
                json!({ "ev": "register", "c": [c] })
            }
            11 => json!({ "ev": "stale", "c": pick(rng, &known) }),
            12 => json!({ "ev": "unknown" }),
            13 => json!({ "ev": "badlayout" }),
            14 => json!({ "ev": "look" }),
            _ => continue,
        };
        let mut cmd = cmd;
        if rng.chance(0.05) {
            cmd["boom"] = json!(true);
        }
        ex.run(&cmd);
    }
    if ex.world.is_some() {
        ex.run(&json!({ "ev": "drop" }));
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "drive" => {
            let mut ex = Exec::new(&args[5]);
            drive(&mut ex, &mut Rng::new(args[3].parse().unwrap()), args[4].parse().unwrap());
        }
        "replay" => {
            let mut ex = Exec::new(&args[3]);
            for line in std::fs::read_to_string(&args[2]).unwrap().lines() {
                ex.run(&serde_json::from_str(line).unwrap());
            }
        }
        other => panic!("unknown subcommand {other}"),
    }
}
