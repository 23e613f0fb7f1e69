//! Uses up the versions of an index, and all indices, and prints what was
//! handed out as runs of handles: enough to restore every handle.
//!
//! limits versions|indices

use sparsey::entity::Entity;
use sparsey::World;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn num(n: u64) -> String {
    format!("[{},{}]", n >> 16, n & 0xFFFF)
}

/// Handles of one index with consecutive versions (`d` = 1, 0), or of
/// consecutive indices with the same version (`d` = 0, 1).
struct Run {
    how: &'static str,
    first: Entity,
    last: Entity,
    n: u64,
}

impl Run {
    fn follows(&self, e: Entity) -> Option<(u64, u64)> {
        let (i, v) = (u64::from(self.last.index), u64::from(self.last.version.0.get()));
        match (u64::from(e.index).checked_sub(i), u64::from(e.version.0.get()).checked_sub(v)) {
            (Some(0), Some(1)) => Some((0, 1)),
            (Some(1), Some(0)) => Some((1, 0)),
            _ => None,
        }
    }

    fn print(&self) {
        println!(
            "{{\"ev\":\"run\",\"how\":\"{}\",\"i\":{},\"i1\":{},\"v\":{},\"v1\":{},\"n\":{}}}",
            self.how,
            num(self.first.index.into()),
            num(self.last.index.into()),
            num(self.first.version.0.get().into()),
            num(self.last.version.0.get().into()),
            num(self.n),
        );
    }
}

#[derive(Default)]
struct Runs {
    cur: Option<(Run, (u64, u64))>,
    runs: u64,
}

impl Runs {
    #[inline]
    fn add(&mut self, how: &'static str, e: Entity) {
        if let Some((run, dir)) = &mut self.cur {
            if let Some(d) = run.follows(e) {
                if run.how == how && (run.n == 1 || d == *dir) {
                    run.last = e;
                    run.n += 1;
                    *dir = d;
                    return;
                }
            }
        }
        self.flush();
        self.runs += 1;
        self.cur = Some((Run { how, first: e, last: e, n: 1 }, (0, 0)));
    }

    fn flush(&mut self) {
        if let Some((run, _)) = self.cur.take() {
            run.print();
        }
    }
}

/// Takes handles until none are left; prints whether that panicked.
fn fails(runs: &mut Runs, how: &'static str, f: impl FnOnce() -> Entity) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(e) => runs.add(how, e),
        Err(_) => {
            runs.flush();
            println!("{{\"ev\":\"none\",\"how\":\"{how}\"}}");
        }
    }
}

fn versions() {
    let mut world = World::default();
    let mut runs = Runs::default();
    for _ in 0..3 {
        runs.add("create", world.create(()));
    }
    // Every version of one index, until another index is used.
    let all = 1u64 << 32;
    let mut kept = true;
    let mut n = 0;
    while n < all + 20 && runs.runs < 12 {
        let e = world.create(());
        runs.add("churn", e);
        kept &= world.destroy(e);
        n += 1;
    }
    runs.flush();
    println!("{{\"ev\":\"live\",\"n\":{},\"all\":{kept}}}", world.entities().len());
    // Some more, in every way.
    for _ in 0..3 {
        runs.add("atomic", world.create_atomic());
    }
    runs.flush();
    world.maintain();
    println!("{{\"ev\":\"maintain\"}}");
    let bulk: Vec<Entity> = world.extend([(), (), ()]).to_vec();
    for e in bulk {
        runs.add("create", e);
    }
    runs.flush();
    println!("{{\"ev\":\"live\",\"n\":{},\"all\":true}}", world.entities().len());
}

fn indices() {
    let mut world = World::default();
    let mut runs = Runs::default();
    let kept: Vec<Entity> = (0..3).map(|_| world.create(())).collect();
    kept.iter().for_each(|e| runs.add("create", *e));
    runs.flush();
    println!("{{\"ev\":\"destroyed\",\"done\":{}}}", world.destroy(kept[1]));
    // Every index there is.
    let all = 1u64 << 32;
    let mut n = 0;
    let res = catch_unwind(AssertUnwindSafe(|| {
        while n < all + 20 && runs.runs < 12 {
            let e = world.create_atomic();
            runs.add("atomic", e);
            n += 1;
        }
    }));
    runs.flush();
    if res.is_err() {
        println!("{{\"ev\":\"none\",\"how\":\"atomic\"}}");
    }
    for _ in 0..3 {
        fails(&mut runs, "atomic", || world.create_atomic());
    }
    // Only clearing keeps this from becoming 2^32 entities.
    world.clear();
    println!("{{\"ev\":\"clear\"}}");
    println!("{{\"ev\":\"live\",\"n\":{},\"all\":true}}", world.entities().len());
    for _ in 0..3 {
        fails(&mut runs, "create", || world.create(()));
        fails(&mut runs, "atomic", || world.create_atomic());
        fails(&mut runs, "create", || world.extend([()])[0]);
        runs.flush();
        world.maintain();
        println!("{{\"ev\":\"maintain\"}}");
    }
    println!("{{\"ev\":\"live\",\"n\":{},\"all\":true}}", world.entities().len());
    world.reset();
    println!("{{\"ev\":\"reset\"}}");
    for _ in 0..3 {
        runs.add("create", world.create(()));
    }
    for _ in 0..3 {
        runs.add("atomic", world.create_atomic());
    }
    runs.flush();
    world.maintain();
    println!("{{\"ev\":\"maintain\"}}");
    println!("{{\"ev\":\"live\",\"n\":{},\"all\":true}}", world.entities().len());
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("versions") => versions(),
        _ => indices(),
    }
}
