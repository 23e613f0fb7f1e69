//! A small driver for interpreters that explore weak memory and preemption:
//! rounds of concurrent creations between exclusive operations, printed as
//! the events that `sv` records.
//!
//! light SEED ROUNDS

use std::fmt::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use sparsey::entity::Entity;
use sparsey::World;
use sv_harness::rng::Rng;

#[derive(Default)]
struct Ids(Vec<Entity>);

impl Ids {
    fn issue(&mut self, e: Entity) -> i64 {
        if self.0.contains(&e) {
            return -1;
        }
        self.0.push(e);
        self.0.len() as i64
    }

    fn obs(&self, world: &World) -> String {
        let ids: Vec<i64> =
            world.entities().iter().map(|e| self.0.iter().position(|x| x == e).map_or(999_999, |i| i as i64 + 1)).collect();
        format!("\"drops\":[],\"obs\":{{\"ents\":{ids:?},\"empty\":{},\"cs\":[]}}", world.is_empty())
    }
}

fn main() {
    let args: Vec<u64> = std::env::args().skip(1).map(|a| a.parse().unwrap()).collect();
    let mut r = Rng::new(args[0]);
    let mut world = World::default();
    let mut ids = Ids::default();
    let mut out = String::new();
    let mut known: Vec<Entity> = vec![];
    macro_rules! event {
        ($($fmt:tt)*) => {{
            let rest = format!($($fmt)*);
            writeln!(out, "{{{rest},\"out\":\"ok\",{}}}", ids.obs(&world)).unwrap();
        }};
    }
    event!("\"ev\":\"new\",\"gs\":[],\"rs\":[]");
    for round in 0..args[1] {
        if round % 4 == 3 {
            world.reset();
            ids = Ids::default();
            known.clear();
            event!("\"ev\":\"reset\"");
        }
        for _ in 0..r.below(4) {
            let e = world.create(());
            known.push(e);
            let h = ids.issue(e);
            event!("\"ev\":\"create\",\"cs\":[],\"h\":{h},\"i\":{},\"v\":{}", e.index, e.version.0);
        }
        for _ in 0..r.below(4) {
            if known.is_empty() {
                break;
            }
            let e = known.swap_remove(r.below(known.len()));
            let ret = world.destroy(e);
            event!("\"ev\":\"destroy\",\"h\":{},\"ret\":{ret}", ids.0.iter().position(|x| *x == e).unwrap() + 1);
        }
        let threads = r.range(2, 3);
        let per = r.range(1, 2);
        let ready = AtomicUsize::new(0);
        let lists: Vec<Vec<Entity>> = std::thread::scope(|s| {
            let (world, ready) = (&world, &ready);
            let call = move || {
                let mut list = Vec::with_capacity(per);
                ready.fetch_add(1, Ordering::Relaxed);
                while ready.load(Ordering::Relaxed) < threads {
                    std::thread::yield_now();
                }
                for _ in 0..per {
                    list.push(world.create_atomic());
                }
                list
            };
            let joins: Vec<_> = (0..threads).map(|_| s.spawn(call)).collect();
            joins.into_iter().map(|j| j.join().unwrap()).collect()
        });
        let seen = lists.iter().flatten().filter(|e| world.contains_entity(**e)).count();
        let is: Vec<Vec<u32>> = lists.iter().map(|l| l.iter().map(|e| e.index).collect()).collect();
        let vs: Vec<Vec<u32>> = lists.iter().map(|l| l.iter().map(|e| e.version.0.get()).collect()).collect();
        let hs: Vec<Vec<i64>> = lists.iter().map(|l| l.iter().map(|e| ids.issue(*e)).collect()).collect();
        event!("\"ev\":\"conc\",\"hs\":{hs:?},\"is\":{is:?},\"vs\":{vs:?},\"seen\":{seen}");
        known.extend(lists.into_iter().flatten());
        match r.below(6) {
            0..=2 => {
                world.maintain();
                event!("\"ev\":\"maintain\"");
            }
            3 => {
                world.clear();
                event!("\"ev\":\"clear\"");
            }
            _ => (),
        }
    }
    print!("{out}");
}
