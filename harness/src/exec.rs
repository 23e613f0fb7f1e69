//! Executes commands on a world and writes what was observed as events.

use crate::comp::{arm, pads, take_drops, Cp};
use crate::query::{huge, AllReq, AllRes, Held, Info, Op, Raw, RawRow};
use crate::sched::Sched;
use crate::sets::{Hint, CompFns, SetFns, Tables};
use serde_json::{json, Value};
use sparsey::component::{ComponentData, GroupLayout, QueryGroupInfo, ViewGroupInfo};
use sparsey::entity::{Entity, Version};
use sparsey::world::WorldBuilder;
use sparsey::World;
use std::collections::{BTreeSet, HashMap};
use std::fs::File;
use std::io::Write;
use std::num::NonZeroU32;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Stands for a handle that was never issued.
pub const UNKNOWN: i64 = 999_999;

#[derive(Clone)]
pub struct ViewReq {
    pub x: bool,
    pub how: String,
    pub probes: Vec<Entity>,
    pub wh: Entity,
}

#[derive(Default)]
pub struct ViewRes {
    pub ents: Vec<Entity>,
    pub vals: Vec<i64>,
    pub len: i64,
    pub empty: bool,
    pub probes: Vec<[i64; 3]>,
    pub wret: i64,
    pub dbg: i64,
}

/// Reads (and writes) a view.
pub fn view_fn<T: Cp>(world: &World, req: &ViewReq) -> ViewRes {
    let mut res = ViewRes { wret: -2, dbg: -1, ..ViewRes::default() };
    macro_rules! read {
        ($view:expr) => {
            res.ents = $view.entities().to_vec();
            res.vals = $view.as_slice().iter().map(Cp::val).collect();
            res.len = $view.len() as i64;
            res.empty = $view.is_empty();
            for &e in &req.probes {
                let contains = i64::from($view.contains(e));
                let get = $view.get(e).map_or(-1, Cp::val);
                let index = catch_unwind(AssertUnwindSafe(|| $view[e].val())).unwrap_or(-1);
                res.probes.push([contains, get, index]);
            }
        };
    }
    if !req.x {
        let view = world.borrow::<T>();
        read!(view);
    } else {
        let mut view = world.borrow_mut::<T>();
        read!(view);
        match req.how.as_str() {
            "all" => view.as_mut_slice().iter_mut().for_each(Cp::bump),
            "one" => {
                res.wret = view.get_mut(req.wh).map_or(-1, |v| {
                    let old = v.val();
                    v.bump();
                    old
                });
            }
            "idx" => {
                res.wret = catch_unwind(AssertUnwindSafe(|| {
                    let old = view[req.wh].val();
                    view[req.wh].bump();
                    old
                }))
                .unwrap_or(-1);
            }
            _ => (),
        }
    }
    res
}

pub fn comp_fns<T: Cp>() -> (u8, CompFns) {
    (
        T::C,
        CompFns {
            data: ComponentData::new::<T>,
            register: |w| w.register::<T>(),
            is_registered: |w| w.is_registered::<T>(),
            ginfo: |w| {
                let shared = w.borrow_with_group_info::<T>().1;
                [shared, w.borrow_with_group_info_mut::<T>().1]
            },
            brow: |b| {
                b.register::<T>();
            },
            list: |w| {
                let view = w.borrow::<T>();
                let ents = view.entities().to_vec();
                let vals = view.as_slice().iter().map(Cp::val).collect();
                (ents, vals)
            },
            view: view_fn::<T>,
            contains: |w, e| w.contains::<&'static T>(e),
            get: |w, e| w.query_one::<&'static T>().get(e).map_or(-1, Cp::val),
        },
    )
}

pub struct Exec {
    pub t: Tables,
    pub world: Option<World>,
    pub reg: BTreeSet<u8>,
    ids: HashMap<Entity, i64>,
    handles: Vec<Entity>,
    trace: Option<File>,
    cmds: Option<File>,
    buf: Vec<u8>,
    pub events: u64,
    /// Observe the whole state after every n-th event that may change it.
    pub obs_every: u64,
    muts: u64,
    pub last: Value,
    pub pools: HashMap<usize, rayon::ThreadPool>,
    pub quiet: bool,
}

fn ver(e: &Entity) -> u32 {
    e.version.0.get()
}

fn comps_of(v: &Value) -> Vec<u8> {
    v.as_array().map_or(vec![], |a| a.iter().map(|c| c.as_u64().unwrap() as u8).collect())
}

fn pairs_of(v: &Value) -> (Vec<u8>, Vec<u32>) {
    v.as_array()
        .unwrap()
        .iter()
        .map(|p| (p[0].as_u64().unwrap() as u8, p[1].as_u64().unwrap() as u32))
        .unzip()
}

impl Exec {
    pub fn new(t: Tables, trace: Option<&str>) -> Self {
        std::panic::set_hook(Box::new(|_| ()));
        Self {
            t,
            world: None,
            reg: BTreeSet::new(),
            ids: HashMap::new(),
            handles: vec![],
            trace: trace.map(|p| File::create(p).unwrap()),
            cmds: trace.map(|p| File::create(format!("{p}.cmds")).unwrap()),
            buf: vec![],
            events: 0,
            obs_every: 1,
            muts: 0,
            last: Value::Null,
            pools: HashMap::new(),
            quiet: false,
        }
    }

    pub fn flush(&mut self) {
        if let Some(f) = &mut self.trace {
            f.write_all(&self.buf).unwrap();
        }
        self.buf.clear();
    }

    fn emit(&mut self, ev: Value) {
        self.events += 1;
        if self.trace.is_some() && !self.quiet {
            serde_json::to_writer(&mut self.buf, &ev).unwrap();
            self.buf.push(b'\n');
            if self.buf.len() > 1 << 16 {
                self.flush();
            }
        }
        self.last = ev;
    }

    /// A handle returned by a creation: numbered in order of first appearance.
    fn issue(&mut self, e: Entity) -> i64 {
        let next = self.handles.len() as i64 + 1;
        let handles = &mut self.handles;
        *self.ids.entry(e).or_insert_with(|| {
            handles.push(e);
            next
        })
    }

    fn known(&self, e: Entity) -> i64 {
        self.ids.get(&e).copied().unwrap_or(UNKNOWN)
    }

    /// 0 is a handle with an index that is never reached; 900000 + id is the
    /// next version of id, which cannot have been issued while id is in use.
    pub fn handle(&self, id: i64) -> Entity {
        if id >= 900_000 {
            let e = self.handle(id - 900_000);
            return Entity::new(e.index, e.version.next().unwrap());
        }
        if id == 0 {
            return Entity::new(3_999_999_999, Version(NonZeroU32::new(7).unwrap()));
        }
        // Replayed histories may have gone another way.
        self.handles.get(id as usize - 1).copied().unwrap_or_else(|| self.handle(0))
    }

    fn cell(&self, raw: Raw) -> i64 {
        match raw {
            Raw::Ent(e) => self.known(e),
            Raw::Val(v) => v,
        }
    }

    fn rows(&self, rows: &[RawRow]) -> Value {
        Value::from(
            rows.iter()
                .map(|r| Value::from(r.iter().map(|c| self.cell(*c)).collect::<Vec<_>>()))
                .collect::<Vec<_>>(),
        )
    }

    fn set(&self, comps: &[u8]) -> SetFns {
        *self.t.sets.get(comps).unwrap_or_else(|| panic!("no component set {comps:?}"))
    }

    pub fn layout(&self, gs: &Value, dynamic: bool) -> GroupLayout {
        let mut layout = GroupLayout::default();
        for g in gs.as_array().unwrap() {
            self.add_group(&mut layout, &comps_of(g), dynamic);
        }
        layout
    }

    fn add_group(&self, layout: &mut GroupLayout, g: &[u8], dynamic: bool) {
        match self.t.groups.get(g) {
            Some((add, _)) if !dynamic => add(layout),
            _ => {
                let data: Vec<_> = g.iter().map(|c| (self.t.comps[c].data)()).collect();
                layout.add_group_dyn(&data);
            }
        }
    }

    fn build_register(&self, builder: &mut WorldBuilder, c: u8, dynamic: bool) {
        if dynamic {
            builder.register_dyn((self.t.comps[&c].data)());
        } else {
            (self.t.comps[&c].brow)(builder);
        }
    }

    fn build_group(&self, builder: &mut WorldBuilder, g: &[u8], dynamic: bool) {
        match self.t.groups.get(g) {
            Some((_, add)) if !dynamic => add(builder),
            _ => {
                let data: Vec<_> = g.iter().map(|c| (self.t.comps[c].data)()).collect();
                builder.add_group_dyn(&data);
            }
        }
    }

    /// A builder used step by step: which steps went through, and the world.
    fn scripted(&self, script: &Value, dynamic: bool) -> (Vec<i64>, World) {
        let mut builder = World::builder();
        let mut outs = vec![];
        for step in script.as_array().unwrap() {
            let done = catch_unwind(AssertUnwindSafe(|| match step[0].as_str().unwrap() {
                "reg" => self.build_register(&mut builder, step[1].as_u64().unwrap() as u8, dynamic),
                "layout" => {
                    builder.set_layout(self.layout(&step[1], dynamic));
                }
                "build" => drop(builder.build()),
                "clone" => builder = builder.clone(),
                _ => self.build_group(&mut builder, &comps_of(&step[1]), dynamic),
            }));
            outs.push(i64::from(done.is_ok()));
        }
        (outs, builder.build())
    }

    fn new_world(&self, cmd: &Value) -> World {
        let dynamic = cmd["dyn"].as_bool().unwrap_or(false);
        let rs = comps_of(&cmd["rs"]);
        let how = cmd["how"].as_str().unwrap();
        let pad = cmd["pad"].as_u64().unwrap_or(0) as usize;
        let mut world = match how {
            "new" => {
                let mut world = World::new(&self.layout(&cmd["gs"], dynamic));
                pads(pad).for_each(|c| drop(world.register_dyn(c)));
                world
            }
            "default" => {
                let mut world = World::default();
                pads(pad).for_each(|c| drop(world.register_dyn(c)));
                world.set_layout(&self.layout(&cmd["gs"], dynamic));
                world
            }
            _ => {
                let mut builder = World::builder();
                let early = how == "builder_reg_first";
                let register = |builder: &mut WorldBuilder| {
                    for c in &rs {
                        self.build_register(builder, *c, dynamic);
                    }
                };
                pads(pad).for_each(|c| drop(builder.register_dyn(c)));
                if early {
                    register(&mut builder);
                }
                if how == "builder" {
                    builder.set_layout(self.layout(&cmd["gs"], dynamic));
                } else {
                    for g in cmd["gs"].as_array().unwrap() {
                        self.build_group(&mut builder, &comps_of(g), dynamic);
                    }
                }
                if !early {
                    register(&mut builder);
                }
                return builder.build();
            }
        };
        for c in &rs {
            if dynamic {
                world.register_dyn((self.t.comps[c].data)());
            } else {
                (self.t.comps[c].register)(&mut world);
            }
        }
        world
    }

    fn obs(&mut self) -> Value {
        let reg = self.reg.clone();
        let res = catch_unwind(AssertUnwindSafe(|| {
            let world = self.world.as_ref()?;
            let ents: Vec<_> = world.entities().iter().map(|e| self.known(*e)).collect();
            let mut cs = vec![];
            for c in reg {
                let (ents, vals) = (self.t.comps[&c].list)(world);
                let ents: Vec<_> = ents.iter().map(|e| self.known(*e)).collect();
                cs.push(json!([c, ents, vals]));
            }
            Some(json!({ "ents": ents, "empty": world.is_empty(), "cs": cs }))
        }));
        res.unwrap_or(Some(json!({ "panic": true }))).unwrap_or(Value::Null)
    }

    fn note(&mut self, cmd: &Value) {
        if let Some(f) = &mut self.cmds {
            let mut line = serde_json::to_vec(cmd).unwrap();
            line.push(b'\n');
            f.write_all(&line).unwrap();
        }
    }

    /// Executes one command.  Returns whether it panicked.
    pub fn run(&mut self, cmd: &Value) -> bool {
        self.note(cmd);
        let ev = cmd["ev"].as_str().unwrap().to_string();
        if ev == "guards" {
            return self.guards(cmd);
        }
        let mut out = cmd.clone();
        let m = out.as_object_mut().unwrap();
        drop(take_drops());
        let mutates = match ev.as_str() {
            "qone" | "qall" => cmd["w"] == true || cmd["panic"] == true,
            "view" => cmd["x"] == true,
            "probe" | "isreg" | "layout" => false,
            _ => true,
        };
        // The destructor of one value may be told to panic.
        let bomb = cmd["bomb"].as_array().map(|b| (b[0].as_u64().unwrap() as u8, b[1].as_i64().unwrap()));
        arm(bomb);
        let res = catch_unwind(AssertUnwindSafe(|| self.act(&ev, cmd)));
        arm(None);
        let drops: Vec<Value> = take_drops().into_iter().map(|(c, v)| json!([c, v])).collect();
        let panicked = res.is_err();
        match res {
            Ok(Value::Object(fields)) => {
                m.extend(fields);
                m.entry("out").or_insert("ok".into());
            }
            Ok(_) => {
                m.insert("out".into(), "ok".into());
            }
            Err(e) => {
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                m.insert("out".into(), "panic".into());
                m.insert("msg".into(), msg.chars().take(120).collect::<String>().into());
            }
        }
        m.insert("drops".into(), drops.into());
        if mutates {
            self.muts += 1;
            if self.obs_every > 0 && self.muts % self.obs_every == 0 || ev == "obs" || bomb.is_some() {
                let obs = self.obs();
                if !obs.is_null() {
                    m.insert("obs".into(), obs);
                }
            }
        }
        self.emit(out);
        panicked
    }

    fn act(&mut self, ev: &str, cmd: &Value) -> Value {
        match ev {
            "new" if cmd["how"] == "script" => {
                let (outs, world) = self.scripted(&cmd["script"], cmd["dyn"].as_bool().unwrap_or(false));
                let mut groups: Vec<BTreeSet<u8>> = vec![];
                self.reg.clear();
                for (step, out) in cmd["script"].as_array().unwrap().iter().zip(&outs) {
                    match step[0].as_str().unwrap() {
                        "reg" => drop(self.reg.insert(step[1].as_u64().unwrap() as u8)),
                        "layout" => groups = step[1].as_array().unwrap().iter().map(|g| comps_of(g).into_iter().collect()).collect(),
                        "group" if *out == 1 => groups.push(comps_of(&step[1]).into_iter().collect()),
                        _ => (),
                    }
                }
                self.reg.extend(groups.into_iter().filter(|g| g.len() > 1).flatten());
                self.world = Some(world);
                self.ids.clear();
                self.handles.clear();
                json!({ "outs": outs })
            }
            "new" => {
                let world = self.new_world(cmd);
                self.reg = comps_of(&cmd["rs"]).into_iter().collect();
                for g in cmd["gs"].as_array().unwrap() {
                    let g: BTreeSet<u8> = comps_of(g).into_iter().collect();
                    if g.len() > 1 {
                        self.reg.extend(g);
                    }
                }
                self.world = Some(world);
                self.ids.clear();
                self.handles.clear();
                Value::Null
            }
            "dropworld" => {
                self.reg.clear();
                self.ids.clear();
                self.handles.clear();
                drop(self.world.take());
                Value::Null
            }
            "create" => {
                let (cs, vs) = pairs_of(&cmd["cs"]);
                let f = self.set(&cs);
                let e = (f.create)(self.world.as_mut().unwrap(), &vs);
                json!({ "h": self.issue(e), "i": e.index, "v": ver(&e) })
            }
            "extend" => {
                let items = cmd["items"].as_array().unwrap();
                let cs = comps_of(&cmd["c"]);
                let items: Vec<Vec<u32>> = items.iter().map(|i| pairs_of(i).1).collect();
                let f = self.set(&cs);
                let at = cmd["at"].as_u64().map_or(usize::MAX, |n| n as usize);
                let hint = match (cmd["loose"].as_bool(), cmd["exact"].as_bool()) {
                    (Some(true), _) => Hint::Bounds,
                    (_, Some(false)) => Hint::Nothing,
                    _ => Hint::Exact,
                };
                let world = self.world.as_mut().unwrap();
                let made = std::cell::Cell::new(0);
                let res = catch_unwind(AssertUnwindSafe(|| (f.extend)(world, &items, at, hint, &made)));
                match res {
                    Ok(es) => {
                        let is: Vec<_> = es.iter().map(|e| e.index).collect();
                        let vs: Vec<_> = es.iter().map(ver).collect();
                        let hs: Vec<_> = es.into_iter().map(|e| self.issue(e)).collect();
                        json!({ "hs": hs, "is": is, "vs": vs, "made": made.get() })
                    }
                    Err(_) => {
                        // The new entities are those the world lists and the
                        // harness has not seen.
                        let world = self.world.as_ref().unwrap();
                        let new: Vec<Entity> = world
                            .entities()
                            .iter()
                            .filter(|e| !self.ids.contains_key(e))
                            .copied()
                            .collect();
                        let is: Vec<_> = new.iter().map(|e| e.index).collect();
                        let vs: Vec<_> = new.iter().map(ver).collect();
                        let hs: Vec<_> = new.into_iter().map(|e| self.issue(e)).collect();
                        json!({ "hs": hs, "is": is, "vs": vs, "made": made.get(), "out": "panic" })
                    }
                }
            }
            "destroy" => {
                let e = self.handle(cmd["h"].as_i64().unwrap());
                json!({ "ret": self.world.as_mut().unwrap().destroy(e) })
            }
            "insert" => {
                let e = self.handle(cmd["h"].as_i64().unwrap());
                let (cs, vs) = pairs_of(&cmd["cs"]);
                let f = self.set(&cs);
                json!({ "ret": (f.insert)(self.world.as_mut().unwrap(), e, &vs) })
            }
            "remove" => {
                let e = self.handle(cmd["h"].as_i64().unwrap());
                let f = self.set(&comps_of(&cmd["c"]));
                json!({ "ret": (f.remove)(self.world.as_mut().unwrap(), e) })
            }
            "delete" => {
                let e = self.handle(cmd["h"].as_i64().unwrap());
                let f = self.set(&comps_of(&cmd["c"]));
                (f.delete)(self.world.as_mut().unwrap(), e);
                Value::Null
            }
            "catomic" => {
                let e = self.world.as_ref().unwrap().create_atomic();
                json!({ "h": self.issue(e), "i": e.index, "v": ver(&e) })
            }
            "conc" | "sched" => {
                let calls: Vec<usize> = match cmd["calls"].as_array() {
                    Some(calls) => calls.iter().map(|n| n.as_u64().unwrap() as usize).collect(),
                    None => vec![cmd["per"].as_u64().unwrap() as usize; cmd["threads"].as_u64().unwrap() as usize],
                };
                let world = self.world.as_ref().unwrap();
                let before = world.entities().to_vec();
                let unchanged = || before == world.entities();
                let mut seen = 0;
                let lists: Vec<Vec<Entity>> = if let Some(steps) = cmd["steps"].as_array() {
                    let sched = Sched::new(calls.len());
                    std::thread::scope(|s| {
                        let joins: Vec<_> = calls
                            .iter()
                            .enumerate()
                            .map(|(t, &n)| {
                                let sched = sched.clone();
                                s.spawn(move || sched.run(t, || (0..n).map(|_| world.create_atomic()).collect::<Vec<_>>()))
                            })
                            .collect();
                        // To the first point of each thread.
                        (0..calls.len()).for_each(|t| {
                            sched.grant(t);
                        });
                        for t in steps {
                            if !sched.grant(t.as_u64().unwrap() as usize) {
                                continue;
                            }
                            seen += u64::from(!unchanged());
                        }
                        sched.release();
                        joins.into_iter().map(|j| j.join().unwrap()).collect()
                    })
                } else {
                    let ready = AtomicUsize::new(0);
                    std::thread::scope(|s| {
                        let joins: Vec<_> = calls
                            .iter()
                            .map(|&n| {
                                let (ready, all) = (&ready, calls.len());
                                s.spawn(move || {
                                    ready.fetch_add(1, Ordering::SeqCst);
                                    let mut spins = 0;
                                    while ready.load(Ordering::SeqCst) < all {
                                        spins += 1;
                                        if spins > 20_000 {
                                            std::thread::yield_now();
                                        }
                                    }
                                    (0..n).map(|_| world.create_atomic()).collect::<Vec<_>>()
                                })
                            })
                            .collect();
                        joins.into_iter().map(|j| j.join().unwrap()).collect()
                    })
                };
                // Nothing becomes visible while the world is shared.
                seen += u64::from(!unchanged());
                seen += lists.iter().flatten().filter(|e| world.contains_entity(**e)).count() as u64;
                let mut hs = vec![];
                let mut is = vec![];
                let mut vs = vec![];
                for list in lists {
                    vs.push(Value::from(list.iter().map(ver).collect::<Vec<_>>()));
                    is.push(Value::from(list.iter().map(|e| e.index).collect::<Vec<_>>()));
                    hs.push(Value::from(list.into_iter().map(|e| self.issue(e)).collect::<Vec<_>>()));
                }
                json!({ "ev": "conc", "hs": hs, "is": is, "vs": vs, "seen": seen })
            }
            "churn" => {
                let (cs, vs) = pairs_of(&cmd["cs"]);
                let f = self.set(&cs);
                let atomic = cmd["how"] == "atomic";
                let world = self.world.as_mut().unwrap();
                // index -> runs of consecutive versions, in order of first use
                let mut order: Vec<u32> = vec![];
                let mut runs: HashMap<u32, Vec<[u32; 2]>> = HashMap::new();
                let mut done = 0u64;
                for _ in 0..cmd["n"].as_u64().unwrap() {
                    let e = if atomic {
                        let e = world.create_atomic();
                        world.maintain();
                        e
                    } else {
                        (f.create)(world, &vs)
                    };
                    done += u64::from(world.contains_entity(e));
                    done += u64::from(world.destroy(e));
                    let v = e.version.0.get();
                    let list = runs.entry(e.index).or_insert_with(|| {
                        order.push(e.index);
                        vec![]
                    });
                    match list.last_mut() {
                        Some(run) if run[1].checked_add(1) == Some(v) => run[1] = v,
                        _ => list.push([v, v]),
                    }
                }
                let runs: Vec<_> = order.iter().map(|i| json!([i, runs[i]])).collect();
                json!({ "runs": runs, "done": done })
            }
            "maintain" => {
                self.world.as_mut().unwrap().maintain();
                Value::Null
            }
            "clear" => {
                self.world.as_mut().unwrap().clear();
                Value::Null
            }
            "reset" => {
                self.ids.clear();
                self.handles.clear();
                self.world.as_mut().unwrap().reset();
                Value::Null
            }
            "setlayout" => {
                let layout = self.layout(&cmd["gs"], cmd["dyn"].as_bool().unwrap_or(false));
                self.world.as_mut().unwrap().set_layout(&layout);
                for g in cmd["gs"].as_array().unwrap() {
                    self.reg.extend(comps_of(g));
                }
                Value::Null
            }
            "register" => {
                let c = cmd["c"].as_u64().unwrap() as u8;
                let f = self.t.comps[&c];
                let world = self.world.as_mut().unwrap();
                pads(cmd["pad"].as_u64().unwrap_or(0) as usize).for_each(|c| drop(world.register_dyn(c)));
                let ret = if cmd["dyn"].as_bool().unwrap_or(false) {
                    world.register_dyn((f.data)())
                } else {
                    (f.register)(world)
                };
                self.reg.insert(c);
                json!({ "ret": ret })
            }
            "isreg" => {
                let world = self.world.as_ref().unwrap();
                let mut list: Vec<u8> = vec![];
                let mut dynlist: Vec<u8> = vec![];
                for (c, f) in &self.t.comps {
                    if (f.is_registered)(world) {
                        list.push(*c);
                    }
                    if world.is_registered_dyn((f.data)().type_id()) {
                        dynlist.push(*c);
                    }
                }
                // The groups as views tell them: the types that are grouped,
                // and the pairs whose group information goes together.
                let infos: Vec<_> = self.reg.iter().map(|c| (*c, (self.t.comps[c].ginfo)(world))).collect();
                let grouped: Vec<_> = infos.iter().filter(|(_, i)| i[0].is_some()).map(|(c, _)| *c).collect();
                let groupedx: Vec<_> = infos.iter().filter(|(_, i)| i[1].is_some()).map(|(c, _)| *c).collect();
                let mut pairs = vec![];
                // As for queries: views are added to an empty query, or
                // queries of one view to each other, and to empty ones.
                let mut views = vec![];
                let mut queries = vec![];
                let mut alone = vec![];
                let none = QueryGroupInfo::Empty;
                for (a, i) in &infos {
                    let i = ViewGroupInfo { info: i[0], len: 1 };
                    let one = none.add_view(&i);
                    let same = |q: Option<QueryGroupInfo>| q.is_some_and(|q| q.group_info().is_some() == i.info.is_some());
                    if same(one) && same(one.unwrap().add_query(&none)) && same(none.add_query(&one.unwrap())) {
                        alone.push(*a);
                    }
                    for (b, j) in &infos {
                        let j = ViewGroupInfo { info: j[1], len: 1 };
                        if let (Some(i), Some(j)) = (i.info, j.info) {
                            if i.add_group(j).is_some() {
                                pairs.push(json!([a, b]));
                            }
                        }
                        let Some(one) = one else { continue };
                        // A third time the first, which changes nothing.
                        let more = one.add_view(&j).and_then(|q| q.add_view(&i));
                        if more.is_some_and(|q| q.group_info().is_some()) {
                            views.push(json!([a, b]));
                        }
                        let more = none.add_view(&j).and_then(|q| q.add_query(&one)).and_then(|q| q.add_query(&none));
                        if more.is_some_and(|q| q.group_info().is_some()) {
                            queries.push(json!([b, a]));
                        }
                    }
                }
                let both = none.add_query(&none).is_some_and(|q| q.group_info().is_none());
                json!({ "famsv": views, "famsq": queries, "alone": alone, "both": both, "regs": list, "dynregs": dynlist, "grouped": grouped, "groupedx": groupedx, "fams": pairs })
            }
            "qall" => self.qall(cmd),
            "qone" => {
                let e = self.handle(cmd["h"].as_i64().unwrap());
                let entry = &self.t.cat[cmd["q"].as_u64().unwrap() as usize];
                let world = self.world.as_ref().unwrap();
                let q = entry.json();
                let panic = cmd["panic"].as_bool().unwrap_or(false);
                let res = catch_unwind(AssertUnwindSafe(|| {
                    (entry.one.unwrap())(
                        world,
                        cmd["order"].as_bool().unwrap_or(false),
                        e,
                        cmd["w"].as_bool().unwrap_or(false),
                        panic,
                    )
                }));
                let Ok(res) = res else {
                    return json!({ "q": q, "out": "panic" });
                };
                let wcontains = entry.contains.map_or(-1, |f| i64::from(f(world, e)));
                json!({
                    "q": q,
                    "contains": res.contains,
                    "wcontains": wcontains,
                    "got": self.rows(res.got.as_slice()),
                    "mapped": self.rows(res.mapped.as_slice()),
                })
            }
            "view" => {
                let c = cmd["c"].as_u64().unwrap() as u8;
                let req = ViewReq {
                    x: cmd["x"].as_bool().unwrap_or(false),
                    how: cmd["how"].as_str().unwrap_or("none").into(),
                    probes: cmd["ps"].as_array().unwrap().iter().map(|h| self.handle(h.as_i64().unwrap())).collect(),
                    wh: self.handle(cmd["wh"].as_i64().unwrap_or(0)),
                };
                let res = (self.t.comps[&c].view)(self.world.as_ref().unwrap(), &req);
                let ids: Vec<_> = res.ents.iter().map(|e| self.known(*e)).collect();
                json!({ "ids": ids, "vals": res.vals, "len": res.len, "empty": res.empty,
                    "probes": res.probes, "wret": res.wret })
            }
            "probe" => {
                let e = self.handle(cmd["h"].as_i64().unwrap());
                let world = self.world.as_ref().unwrap();
                let cs: Vec<Value> = self
                    .reg
                    .iter()
                    .map(|c| {
                        let f = self.t.comps[c];
                        json!([c, i64::from((f.contains)(world, e)), (f.get)(world, e)])
                    })
                    .collect();
                json!({ "alive": world.contains_entity(e), "cs": cs })
            }
            "obs" => Value::Null,
            "layout" => {
                let dynamic = cmd["dyn"].as_bool().unwrap_or(false);
                let mut layout = GroupLayout::default();
                let mut outs = vec![];
                for g in cmd["adds"].as_array().unwrap() {
                    let g = comps_of(g);
                    let ok = catch_unwind(AssertUnwindSafe(|| {
                        self.add_group(&mut layout, &g, dynamic);
                    }))
                    .is_ok();
                    outs.push(i64::from(ok));
                }
                // The layout as it was left, with everything accepted so far.
                if cmd["use"].as_bool().unwrap_or(false) {
                    let fresh = cmd["fresh"].as_bool().unwrap_or(false);
                    if fresh {
                        self.reg.clear();
                    }
                    for (g, out) in cmd["adds"].as_array().unwrap().iter().zip(&outs) {
                        let g: BTreeSet<u8> = comps_of(g).into_iter().collect();
                        if *out == 1 && g.len() > 1 {
                            self.reg.extend(g);
                        }
                    }
                    if fresh {
                        self.world = Some(World::new(&layout));
                        self.ids.clear();
                        self.handles.clear();
                    } else {
                        self.world.as_mut().unwrap().set_layout(&layout);
                    }
                }
                json!({ "outs": outs })
            }
            other => panic!("unknown command {other}"),
        }
    }

    fn qall(&mut self, cmd: &Value) -> Value {
        let entry = &self.t.cat[cmd["q"].as_u64().unwrap() as usize];
        let mode = cmd["mode"].as_str().unwrap();
        let ops: Vec<Op> = cmd["ops"].as_array().map_or(vec![], |ops| ops.iter().map(Op::new).collect());
        let req = AllReq {
            mode,
            w: cmd["w"].as_bool().unwrap_or(false),
            k: huge(cmd["k"].as_u64().unwrap_or(0) as usize),
            panic: cmd["panic"].as_bool().unwrap_or(false),
            ops: &ops,
        };
        let order = cmd["order"].as_bool().unwrap_or(false);
        let res = AllRes { info: std::sync::Mutex::new(Info { dense: -1, fused: -1, count: -1, ..Info::default() }), ..AllRes::default() };
        let world = self.world.as_ref().unwrap();
        let threads = cmd["threads"].as_u64().unwrap_or(1) as usize;
        let pool = (mode.contains("par") || mode.starts_with("ix")).then(|| {
            self.pools.entry(threads).or_insert_with(|| {
                rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap()
            })
        });
        let mut out = json!({ "q": entry.json() });
        let ok = catch_unwind(AssertUnwindSafe(|| match mode {
            "par" | "parfor" | "parcount" | "parnum" | "partake" | "parskip" | "parany" => pool.unwrap().install(|| (entry.par.unwrap())(world, order, &req, &res)),
            _ if mode.starts_with("ix") => {
                pool.unwrap().install(|| (entry.par.unwrap())(world, order, &req, &res));
            }
            "wparfor" => pool.unwrap().install(|| (entry.world.unwrap())(world, &req, &res)),
            "wforeach" => (entry.world.unwrap())(world, &req, &res),
            _ => (entry.seq)(world, order, &req, &res),
        }))
        .map_err(|e| {
            e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        });
        let mut rows = res.rows.into_inner().unwrap_or_else(|e| e.into_inner());
        if ok.is_err() {
            rows.truncate(if rows.len() > 50_000 { 10 } else { 50_000 });
        }
        let info = res.info.into_inner().unwrap_or_else(|e| e.into_inner());
        let m = out.as_object_mut().unwrap();
        m.insert("rows".into(), self.rows(&rows));
        m.insert("dense".into(), info.dense.into());
        m.insert("hints".into(), json!(info.hints));
        m.insert("exact".into(), json!(info.exact));
        m.insert("outs".into(), json!(info.outs));
        m.insert("fused".into(), info.fused.into());
        m.insert("count".into(), info.count.into());
        m.insert("sliced".into(), i64::from(info.cols.is_some()).into());
        m.insert("cols".into(), info.cols.map_or(json!([]), |cols| self.rows(&cols)));
        if let Err(msg) = ok {
            m.insert("out".into(), "panic".into());
            m.insert("msg".into(), msg.chars().take(120).collect::<String>().into());
        }
        out
    }

    /// Holds views and queries at the same time.
    fn guards(&mut self, cmd: &Value) -> bool {
        let world = self.world.take().unwrap();
        let mut slots: HashMap<i64, Box<dyn Held + '_>> = HashMap::new();
        let mut evs = vec![];
        for step in cmd["steps"].as_array().unwrap() {
            let mut ev = step.clone();
            let m = ev.as_object_mut().unwrap();
            let slot = step["slot"].as_i64().unwrap_or(0);
            // Calls that need nothing to be held or released.
            if step["ev"] == "catomic" {
                let e = world.create_atomic();
                evs.push(json!({ "ev": "catomic", "h": self.issue(e), "i": e.index, "v": ver(&e), "drops": [], "out": "ok" }));
                continue;
            }
            if step["ev"] == "probe" {
                let h = step["h"].as_i64().unwrap();
                evs.push(json!({ "ev": "probe", "h": h, "alive": world.contains_entity(self.handle(h)), "cs": [],
                    "drops": [], "out": "ok" }));
                continue;
            }
            if step["ev"] == "rel" {
                slots.remove(&slot);
                m.insert("out".into(), "ok".into());
                evs.push(ev);
                continue;
            }
            let kind = step["kind"].as_str().unwrap();
            let t = &self.t;
            let order = step["order"].as_bool().unwrap_or(false);
            let index = |k: &str| step[k].as_u64().map(|i| i as usize);
            // The query, by one of the two catalogues.
            let (desc, hold) = match (index("g"), index("q")) {
                (Some(g), _) => (t.guards[g].json(), Some(t.guards[g].hold)),
                (_, Some(q)) => (t.cat[q].json(), t.cat[q].hold),
                _ => (Value::Null, None),
            };
            let boom = || match (index("g"), index("q")) {
                (Some(g), _) => (t.guards[g].boom)(&world, order),
                (_, q) => {
                    let req = AllReq { mode: "foreach", w: false, k: 0, panic: true, ops: &[] };
                    (t.cat[q.unwrap()].seq)(&world, false, &req, &AllRes::default());
                }
            };
            let c = step["c"].as_u64().unwrap_or(99) as u8;
            let res = catch_unwind(AssertUnwindSafe(|| -> Option<Box<dyn Held + '_>> {
                // From another thread, and only for a moment.
                let elsewhere = |f: &(dyn Fn() + Sync)| {
                    let res = std::thread::scope(|s| s.spawn(|| catch_unwind(AssertUnwindSafe(f))).join().unwrap());
                    res.unwrap_or_else(|e| std::panic::resume_unwind(e));
                };
                match kind {
                    "qall" => Some(hold.unwrap().0(&world, order)),
                    "qone" => Some(hold.unwrap().1(&world, order)),
                    "tryqall" => {
                        let f = hold.unwrap();
                        let world = &world;
                        elsewhere(&move || drop(f.0(world, order)));
                        None
                    }
                    "tryview" | "tryviewmut" => {
                        let world = &world;
                        elsewhere(&move || drop(hold_view(world, c, &kind[3..])));
                        None
                    }
                    // A closure that panics in the middle of an iteration.
                    "iterpanic" => {
                        boom();
                        None
                    }
                    _ => Some(hold_view(&world, c, kind)),
                }
            }));
            if !desc.is_null() {
                m.insert("q".into(), desc);
            }
            match res {
                Ok(held) => {
                    if let Some(held) = held {
                        slots.insert(slot, held);
                    }
                    m.insert("out".into(), "ok".into());
                }
                Err(_) => {
                    m.insert("out".into(), "panic".into());
                }
            }
            evs.push(ev);
        }
        drop(slots);
        self.world = Some(world);
        for ev in evs {
            self.emit(ev);
        }
        self.emit(json!({ "ev": "relall", "out": "ok" }));
        false
    }

    pub fn live_handles(&self) -> usize {
        self.handles.len()
    }
}

fn hold_view<'a>(world: &'a World, c: u8, kind: &str) -> Box<dyn Held + 'a> {
    use crate::comp::*;
    fn typed<'a, T: Cp>(world: &'a World, kind: &str) -> Box<dyn Held + 'a> {
        match kind {
            "view" => Box::new(world.borrow::<T>()),
            "viewmut" => Box::new(world.borrow_mut::<T>()),
            "viewg" => Box::new(world.borrow_with_group_info::<T>()),
            "viewmutg" => Box::new(world.borrow_with_group_info_mut::<T>()),
            other => panic!("unknown view {other}"),
        }
    }
    match c {
        0 => typed::<A>(world, kind),
        1 => typed::<B>(world, kind),
        2 => typed::<C>(world, kind),
        3 => typed::<Z>(world, kind),
        4 => typed::<S>(world, kind),
        5 => typed::<E>(world, kind),
        _ => panic!("no view of {c}"),
    }
}
