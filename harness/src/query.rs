//! Queries chosen at run time from a catalogue.

use crate::comp::Cp;
use rayon::iter::plumbing::{Producer, ProducerCallback};
use rayon::iter::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};
use serde_json::{json, Value};
use sparsey::entity::Entity;
use sparsey::query::{Iter, ParIter, Query, QueryAll, QueryOne, QueryPart};
use sparsey::World;
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Raw {
    Ent(Entity),
    Val(i64),
}

pub type RawRow = Vec<Raw>;

pub trait Part: QueryPart {
    const KIND: &'static str;
    const COMP: i64;
    fn cell(item: <Self as QueryPart>::Item<'_>, w: bool) -> Raw;
    fn column(slice: <Self as QueryPart>::Slice<'_>, w: bool) -> Option<Vec<Raw>>;
}

impl Part for Entity {
    const KIND: &'static str = "ent";
    const COMP: i64 = -1;
    fn cell(item: Entity, _: bool) -> Raw {
        Raw::Ent(item)
    }
    fn column(slice: &[Entity], _: bool) -> Option<Vec<Raw>> {
        Some(slice.iter().map(|e| Raw::Ent(*e)).collect())
    }
}

impl<T: Cp> Part for &'static T {
    const KIND: &'static str = "ref";
    const COMP: i64 = T::C as i64;
    fn cell(item: &T, _: bool) -> Raw {
        Raw::Val(item.val())
    }
    fn column(slice: &[T], _: bool) -> Option<Vec<Raw>> {
        Some(slice.iter().map(|v| Raw::Val(v.val())).collect())
    }
}

fn take<T: Cp>(item: &mut T, w: bool) -> Raw {
    let v = item.val();
    if w {
        item.bump();
    }
    Raw::Val(v)
}

impl<T: Cp> Part for &'static mut T {
    const KIND: &'static str = "mut";
    const COMP: i64 = T::C as i64;
    fn cell(item: &mut T, w: bool) -> Raw {
        take(item, w)
    }
    fn column(slice: &mut [T], w: bool) -> Option<Vec<Raw>> {
        Some(slice.iter_mut().map(|v| take(v, w)).collect())
    }
}

impl<T: Cp> Part for Option<&'static T> {
    const KIND: &'static str = "oref";
    const COMP: i64 = T::C as i64;
    fn cell(item: Option<&T>, _: bool) -> Raw {
        Raw::Val(item.map_or(-1, Cp::val))
    }
    fn column((): (), _: bool) -> Option<Vec<Raw>> {
        None
    }
}

impl<T: Cp> Part for Option<&'static mut T> {
    const KIND: &'static str = "omut";
    const COMP: i64 = T::C as i64;
    fn cell(item: Option<&mut T>, w: bool) -> Raw {
        item.map_or(Raw::Val(-1), |v| take(v, w))
    }
    fn column((): (), _: bool) -> Option<Vec<Raw>> {
        None
    }
}

pub trait Rows: Query + 'static {
    fn desc() -> Vec<(&'static str, i64)>;
    fn row(item: <Self as Query>::Item<'_>, w: bool) -> RawRow;
    fn columns(slice: <Self as Query>::Slice<'_>, w: bool) -> Vec<Vec<Raw>>;
}

impl Rows for () {
    fn desc() -> Vec<(&'static str, i64)> {
        vec![]
    }
    fn row((): (), _: bool) -> RawRow {
        vec![]
    }
    fn columns((): (), _: bool) -> Vec<Vec<Raw>> {
        vec![]
    }
}

impl<P: Part + 'static> Rows for P {
    fn desc() -> Vec<(&'static str, i64)> {
        vec![(P::KIND, P::COMP)]
    }
    fn row(item: <Self as Query>::Item<'_>, w: bool) -> RawRow {
        vec![P::cell(item, w)]
    }
    fn columns(slice: <Self as Query>::Slice<'_>, w: bool) -> Vec<Vec<Raw>> {
        P::column(slice, w).into_iter().collect()
    }
}

macro_rules! impl_rows {
    ($($P:ident $i:tt),*) => {
        impl<$($P: Part + 'static),*> Rows for ($($P,)*) {
            fn desc() -> Vec<(&'static str, i64)> {
                vec![$(($P::KIND, $P::COMP)),*]
            }
            fn row(item: <Self as Query>::Item<'_>, w: bool) -> RawRow {
                vec![$($P::cell(item.$i, w)),*]
            }
            fn columns(slice: <Self as Query>::Slice<'_>, w: bool) -> Vec<Vec<Raw>> {
                let mut cols = Vec::new();
                $(cols.extend($P::column(slice.$i, w));)*
                cols
            }
        }
    };
}

impl_rows!(P0 0);
impl_rows!(P0 0, P1 1);
impl_rows!(P0 0, P1 1, P2 2);
impl_rows!(P0 0, P1 1, P2 2, P3 3);
impl_rows!(P0 0, P1 1, P2 2, P3 3, P4 4);
impl_rows!(P0 0, P1 1, P2 2, P3 3, P4 4, P5 5);
impl_rows!(P0 0, P1 1, P2 2, P3 3, P4 4, P5 5, P6 6);
impl_rows!(P0 0, P1 1, P2 2, P3 3, P4 4, P5 5, P6 6, P7 7);
impl_rows!(P0 0, P1 1, P2 2, P3 3, P4 4, P5 5, P6 6, P7 7, P8 8);
impl_rows!(P0 0, P1 1, P2 2, P3 3, P4 4, P5 5, P6 6, P7 7, P8 8, P9 9);
impl_rows!(P0 0, P1 1, P2 2, P3 3, P4 4, P5 5, P6 6, P7 7, P8 8, P9 9, P10 10);
impl_rows!(P0 0, P1 1, P2 2, P3 3, P4 4, P5 5, P6 6, P7 7, P8 8, P9 9, P10 10, P11 11);
impl_rows!(P0 0, P1 1, P2 2, P3 3, P4 4, P5 5, P6 6, P7 7, P8 8, P9 9, P10 10, P11 11, P12 12);
impl_rows!(P0 0, P1 1, P2 2, P3 3, P4 4, P5 5, P6 6, P7 7, P8 8, P9 9, P10 10, P11 11, P12 12, P13 13);
impl_rows!(P0 0, P1 1, P2 2, P3 3, P4 4, P5 5, P6 6, P7 7, P8 8, P9 9, P10 10, P11 11, P12 12, P13 13, P14 14);
impl_rows!(P0 0, P1 1, P2 2, P3 3, P4 4, P5 5, P6 6, P7 7, P8 8, P9 9, P10 10, P11 11, P12 12, P13 13, P14 14, P15 15);

/// One way to run a query over all entities.
#[derive(Clone, Copy)]
pub struct AllReq<'a> {
    pub mode: &'a str,
    pub w: bool,
    /// Items to take one by one before folding the rest, or before panicking.
    pub k: usize,
    /// Panic in the closure or loop after `k` items.
    pub panic: bool,
    /// What to do with the iterator, step by step.
    pub ops: &'a [Op],
}

/// See spec/Consume.tla.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum What {
    Split,
    Front,
    Back,
    Take,
    Rest,
    Tser,
}

#[derive(Clone, Copy)]
pub struct Op {
    pub what: What,
    pub piece: usize,
    pub n: usize,
}

impl Op {
    pub fn new(op: &Value) -> Self {
        let num = |i: usize| op[i].as_u64().unwrap() as usize;
        let what = match op[0].as_str().unwrap() {
            "split" => What::Split,
            "front" => What::Front,
            "back" => What::Back,
            "take" => What::Take,
            "rest" => What::Rest,
            "tser" => What::Tser,
            other => panic!("unknown operation {other}"),
        };
        Self { what, piece: num(1) - 1, n: huge(num(2)) }
    }
}

/// Numbers in commands are as large as the specification can count; the
/// largest stand for the largest there are.
pub fn huge(n: usize) -> usize {
    if n >= HUGE {
        usize::MAX
    } else {
        n
    }
}

pub const HUGE: usize = 2_000_000_000;

/// The rows an operation yields, and the size hint of the piece afterwards.
pub type Yield = (usize, [i64; 2]);

#[derive(Default)]
pub struct AllRes {
    /// The rows seen so far; kept outside to survive a panic.
    pub rows: Mutex<Vec<RawRow>>,
    /// (items seen, dense, size hints, exact lengths, stays exhausted)
    pub info: Mutex<Info>,
}

#[derive(Default, Clone)]
pub struct Info {
    pub dense: i64,
    pub hints: Vec<[i64; 2]>,
    pub exact: Vec<i64>,
    pub fused: i64,
    /// Items counted without being looked at.
    pub count: i64,
    pub cols: Option<Vec<Vec<Raw>>>,
    pub outs: Vec<Yield>,
}

impl AllRes {
    #[inline(never)]
    fn push(&self, row: RawRow, req: &AllReq) {
        let mut rows = self.rows.lock().unwrap_or_else(|e| e.into_inner());
        rows.push(row);
        let boom = req.panic && rows.len() > req.k;
        assert!(rows.len() < 100_000, "the iteration does not end");
        drop(rows);
        assert!(!boom, "closure panics");
    }
    #[inline(never)]
    fn dense(&self, dense: bool, sparse: bool) {
        assert!(dense != sparse, "neither dense nor sparse");
        self.info.lock().unwrap().dense = i64::from(dense);
    }
    #[inline(never)]
    fn hint(&self, h: (usize, Option<usize>), exact: Option<usize>) {
        let mut info = self.info.lock().unwrap();
        info.hints.push([h.0 as i64, h.1.map_or(-1, |n| n as i64)]);
        info.exact.extend(exact.map(|n| n as i64));
    }
    #[inline(never)]
    fn exact(&self, n: Option<usize>) {
        self.info.lock().unwrap().exact.extend(n.map(|n| n as i64));
    }
    #[inline(never)]
    fn fused(&self, fused: bool) {
        self.info.lock().unwrap().fused = i64::from(fused);
    }
    #[inline(never)]
    fn cols(&self, cols: Option<Vec<Vec<Raw>>>) {
        self.info.lock().unwrap().cols = cols;
    }
    #[inline(never)]
    fn set(&self, rows: Vec<RawRow>) {
        *self.rows.lock().unwrap() = rows;
    }
    #[inline(never)]
    fn extend(&self, rows: Vec<RawRow>) {
        self.rows.lock().unwrap().extend(rows);
    }
    #[inline(never)]
    fn counted(&self, n: usize) {
        self.info.lock().unwrap().count = n as i64;
    }
    #[inline(never)]
    fn count(&self, n: usize) {
        assert!(n == self.rows.lock().unwrap().len(), "fold loses its accumulator");
    }
    #[inline(never)]
    fn yielded(&self, rows: Vec<RawRow>, h: (usize, Option<usize>)) {
        let n = rows.len();
        self.extend(rows);
        self.info.lock().unwrap().outs.push((n, [h.0 as i64, h.1.map_or(-1, |n| n as i64)]));
    }
    /// Rows with their positions in a parallel iteration.
    #[inline(never)]
    fn indexed(&self, mut rows: Vec<(usize, RawRow)>) {
        rows.reverse();
        assert!(rows.iter().enumerate().all(|(i, (j, _))| i == *j), "parallel positions out of order");
        self.set(rows.into_iter().map(|(_, row)| row).collect());
    }
}

fn all<G: Rows, I: Rows, E: Rows>(world: &World, order: bool) -> QueryAll<'_, G, I, E> {
    if order {
        world.query_all::<G>().exclude::<E>().include::<I>()
    } else {
        world.query_all::<G>().include::<I>().exclude::<E>()
    }
}

fn single<G: Rows, I: Rows, E: Rows>(world: &World, order: bool) -> QueryOne<'_, G, I, E> {
    if order {
        world.query_one::<G>().exclude::<E>().include::<I>()
    } else {
        world.query_one::<G>().include::<I>().exclude::<E>()
    }
}

/// Other ways to consume an iterator.
fn adapted(mode: &str) -> bool {
    ["nth", "skip", "take", "step", "last", "count", "find", "collect"].contains(&mode)
}

fn len<G: Rows, I: Rows, E: Rows>(iter: &Iter<'_, G, I, E>) -> Option<usize> {
    match iter {
        Iter::Dense(dense) => Some(dense.len()),
        Iter::Sparse(_) => None,
    }
}

fn seq<G: Rows, I: Rows, E: Rows>(world: &World, order: bool, req: &AllReq, res: &AllRes) {
    let mut query = all::<G, I, E>(world, order);
    match req.mode {
        "foreach" => query.for_each(|item| res.push(G::row(item, req.w), req)),
        "into" => {
            for item in &mut query {
                res.push(G::row(item, req.w), req);
            }
        }
        "slice" => {
            let iter = query.iter();
            res.dense(iter.is_dense(), iter.is_sparse());
            res.cols(query.slice().map(|s| G::columns(s, req.w)));
        }
        mode => {
            if mode == "twice" {
                // The second pass over the same query object sees the same.
                query.iter().for_each(drop);
            }
            let mut iter = query.iter();
            res.dense(iter.is_dense(), iter.is_sparse());
            if mode == "prog" {
                prog(iter, req, res);
                return;
            }
            if adapted(mode) {
                let row = |item| G::row(item, req.w);
                match mode {
                    "nth" => {
                        if let Some(item) = iter.nth(req.k) {
                            res.push(row(item), req);
                        }
                        res.hint(iter.size_hint(), len(&iter));
                        iter.for_each(|item| res.push(row(item), req));
                    }
                    "skip" => iter.skip(req.k).for_each(|item| res.push(row(item), req)),
                    "take" => res.set(iter.by_ref().take(req.k).map(row).collect()),
                    "step" => iter.step_by(req.k.saturating_add(1)).for_each(|item| res.push(row(item), req)),
                    "last" => res.set(iter.last().map(row).into_iter().collect()),
                    "count" => res.counted(iter.count()),
                    "find" => {
                        // Stops at the k-th item; the rest are still there.
                        let mut n = 0;
                        let found = iter.position(|item| {
                            res.push(row(item), req);
                            n += 1;
                            n > req.k
                        });
                        assert!(found.is_none_or(|i| i == req.k), "position is wrong");
                        res.hint(iter.size_hint(), len(&iter));
                        res.extend(iter.map(row).collect());
                    }
                    _ => res.set(iter.map(row).collect()),
                }
                return;
            }
            // Step all the way, some of the way, or not at all; then fold.
            let steps = match mode {
                "next" => usize::MAX,
                "fold" => 0,
                _ => req.k,
            };
            for _ in 0..steps {
                res.hint(iter.size_hint(), len(&iter));
                let Some(item) = iter.next() else { break };
                res.push(G::row(item, req.w), req);
            }
            if mode == "next" {
                res.fused(iter.next().is_none() && iter.next().is_none());
            } else {
                let steps = res.rows.lock().unwrap().len();
                let n = iter.fold(steps, |n, item| {
                    res.push(G::row(item, req.w), req);
                    n + 1
                });
                res.count(n);
            }
        }
    }
}

fn prog<G: Rows, I: Rows, E: Rows>(iter: Iter<'_, G, I, E>, req: &AllReq, res: &AllRes) {
    let mut iter = Some(iter);
    for op in req.ops {
        let mut rows = vec![];
        let mut row = |item| rows.push(G::row(item, req.w));
        match op.what {
            What::Front if op.n == 0 => iter.iter_mut().filter_map(Iterator::next).for_each(&mut row),
            What::Front => iter.iter_mut().filter_map(|i| i.nth(op.n)).for_each(&mut row),
            What::Take => iter.iter_mut().for_each(|i| i.take(op.n).for_each(&mut row)),
            _ => iter.take().into_iter().for_each(|i| i.for_each(&mut row)),
        }
        res.yielded(rows, iter.as_ref().map_or((0, Some(0)), Iterator::size_hint));
    }
}

/// Splits and consumes the parts of an indexed parallel iterator.
struct Parts<'a>(&'a [Op], &'a AllRes);

enum Part_<P: Producer> {
    Whole(P),
    Iter(P::IntoIter),
}

impl ProducerCallback<RawRow> for Parts<'_> {
    type Output = ();
    fn callback<P: Producer<Item = RawRow>>(self, producer: P) {
        let mut parts = vec![Some(Part_::Whole(producer))];
        for op in self.0 {
            if op.what == What::Split {
                let Some(Part_::Whole(p)) = parts[op.piece].take() else { panic!("split of an iterator") };
                let (a, b) = p.split_at(op.n);
                parts[op.piece] = Some(Part_::Whole(a));
                parts.insert(op.piece + 1, Some(Part_::Whole(b)));
                self.1.yielded(vec![], (0, None));
                continue;
            }
            let mut iter = match parts[op.piece].take().unwrap() {
                Part_::Whole(p) => p.into_iter(),
                Part_::Iter(i) => i,
            };
            let rows = match op.what {
                What::Front if op.n == 0 => iter.next().into_iter().collect(),
                What::Front => iter.nth(op.n).into_iter().collect(),
                What::Back if op.n == 0 => iter.next_back().into_iter().collect(),
                What::Back => iter.nth_back(op.n).into_iter().collect(),
                What::Take => iter.by_ref().take(op.n).collect(),
                What::Rest => iter.by_ref().fold(vec![], |mut v, r| {
                    v.push(r);
                    v
                }),
                _ => iter.by_ref().rev().collect(),
            };
            let hint = (iter.len(), iter.size_hint().1);
            parts[op.piece] = Some(Part_::Iter(iter));
            self.1.yielded(rows, hint);
        }
    }
}

fn par<G: Rows, I: Rows, E: Rows>(world: &World, order: bool, req: &AllReq, res: &AllRes) {
    let mut query = all::<G, I, E>(world, order);
    if req.mode == "parfor" {
        query.par_for_each(|item| res.push(G::row(item, req.w), req));
        return;
    }
    let iter = query.par_iter();
    res.dense(iter.is_dense(), iter.is_sparse());
    let row = |item| G::row(item, req.w);
    if req.mode == "par" {
        res.set(iter.map(row).collect());
        return;
    }
    match req.mode {
        "partake" => return res.set(iter.map(row).take_any(req.k).collect()),
        "parskip" => return res.set(iter.map(row).skip_any(req.k).collect()),
        "parany" => return res.set(iter.map(row).find_any(|_| true).into_iter().collect()),
        _ => (),
    }
    if req.mode == "parnum" {
        res.counted(iter.count());
        return;
    }
    if let Some(how) = req.mode.strip_prefix("ix") {
        // The adaptors of indexed iterators; all items of those that are not.
        match iter {
            ParIter::Dense(dense) => {
                let n = dense.len();
                res.exact(Some(n));
                // More than there are, but not so many that rayon overflows.
                let many = req.k.min(1_000_000);
                let k = req.k.min(n);
                match how {
                    "plan" => dense.map(row).with_producer(Parts(req.ops, res)),
                    "skip" => res.set(dense.skip(req.k).map(row).collect()),
                    "take" => res.set(dense.take(req.k).map(row).collect()),
                    "step" => res.set(dense.step_by(many + 1).map(row).collect()),
                    "zip" => {
                        let rows: Vec<_> = dense.zip((0..n).into_par_iter()).map(|(item, i)| (i, row(item))).collect();
                        res.indexed(rows.into_iter().rev().collect());
                    }
                    "chunks" => {
                        let chunks: Vec<Vec<RawRow>> =
                            dense.chunks(many + 1).map(|c| c.into_iter().map(row).collect()).collect();
                        assert!(chunks.iter().rev().skip(1).all(|c| c.len() == many + 1), "short chunk");
                        res.set(chunks.into_iter().flatten().collect());
                    }
                    "into" => {
                        let mut rows = Vec::new();
                        dense.map(row).collect_into_vec(&mut rows);
                        res.set(rows);
                    }
                    _ => {
                        // Split where it is asked to.
                        let rows: Vec<_> = dense.map(row).with_min_len(k.max(1)).rev().collect();
                        res.set(rows);
                    }
                }
            }
            ParIter::Sparse(sparse) => {
                let rows = sparse.map(row).fold(Vec::new, |mut v: Vec<RawRow>, r| {
                    v.push(r);
                    v
                });
                res.set(rows.flatten().collect());
            }
        }
        return;
    }
    // Lengths announced to rayon have to be exact.
    let announced = iter.opt_len();
    match iter {
        ParIter::Dense(dense) => {
            res.exact(Some(dense.len()));
            // Indexed: `rev` and `enumerate` use the producer.
            res.indexed(
                dense.enumerate().rev().with_max_len(2).map(|(i, item)| (i, G::row(item, req.w))).collect(),
            );
        }
        ParIter::Sparse(sparse) => sparse.for_each(|item| res.push(G::row(item, req.w), req)),
    }
    res.exact(announced);
}

fn world_all<G: Rows>(world: &World, req: &AllReq, res: &AllRes) {
    match req.mode {
        "wforeach" => world.for_each::<G>(|item| res.push(G::row(item, req.w), req)),
        "wparfor" => world.par_for_each::<G>(|item| res.push(G::row(item, req.w), req)),
        mode => panic!("unknown mode {mode}"),
    }
}

#[derive(Default)]
pub struct OneRes {
    pub contains: i64,
    pub wcontains: i64,
    pub got: Option<RawRow>,
    pub mapped: Option<RawRow>,
}

fn one<G: Rows, I: Rows, E: Rows>(world: &World, order: bool, e: Entity, w: bool, panic: bool) -> OneRes {
    let mut res = OneRes { wcontains: -1, ..OneRes::default() };
    let mut query = single::<G, I, E>(world, order);
    res.contains = i64::from(query.contains(e));
    res.got = query.get(e).map(|item| G::row(item, false));
    res.mapped = query.map(e, |item| {
        assert!(!panic, "closure panics");
        G::row(item, w)
    });
    res
}

pub trait Held {}
impl<T> Held for T {}

fn hold_all<G: Rows, I: Rows, E: Rows>(world: &World, order: bool) -> Box<dyn Held + '_> {
    Box::new(all::<G, I, E>(world, order))
}

fn hold_one<G: Rows, I: Rows, E: Rows>(world: &World, order: bool) -> Box<dyn Held + '_> {
    Box::new(single::<G, I, E>(world, order))
}

pub type Desc = Vec<(&'static str, i64)>;
type AllFn = fn(&World, bool, &AllReq, &AllRes);
pub type HoldFn = for<'a> fn(&'a World, bool) -> Box<dyn Held + 'a>;

pub struct Entry {
    pub get: Desc,
    pub inc: Desc,
    pub exc: Desc,
    pub seq: AllFn,
    pub par: Option<AllFn>,
    pub world: Option<fn(&World, &AllReq, &AllRes)>,
    pub contains: Option<fn(&World, Entity) -> bool>,
    pub one: Option<fn(&World, bool, Entity, bool, bool) -> OneRes>,
    pub hold: Option<(HoldFn, HoldFn)>,
}

impl Entry {
    pub fn json(&self) -> Value {
        json!({ "get": self.get, "inc": self.inc, "exc": self.exc })
    }
    pub fn comps(&self) -> Vec<i64> {
        self.get.iter().chain(&self.inc).chain(&self.exc).map(|p| p.1).filter(|c| *c >= 0).collect()
    }
    pub fn writes(&self) -> bool {
        self.get.iter().any(|p| p.0 == "mut" || p.0 == "omut")
    }
}

/// A query that is only held, or whose closure panics.
pub struct Guard {
    pub get: Desc,
    pub inc: Desc,
    pub exc: Desc,
    pub hold: (HoldFn, HoldFn),
    pub boom: fn(&World, bool),
}

impl Guard {
    pub fn json(&self) -> Value {
        json!({ "get": self.get, "inc": self.inc, "exc": self.exc })
    }
}

pub fn guard<G: Rows, I: Rows, E: Rows>() -> Guard {
    Guard {
        get: G::desc(),
        inc: I::desc(),
        exc: E::desc(),
        hold: (hold_all::<G, I, E>, hold_one::<G, I, E>),
        boom: |world, order| all::<G, I, E>(world, order).for_each(|_| panic!("closure")),
    }
}

/// Sequential iteration only.
pub fn lite<G: Rows, I: Rows, E: Rows>() -> Entry {
    Entry {
        get: G::desc(),
        inc: I::desc(),
        exc: E::desc(),
        seq: seq::<G, I, E>,
        par: None,
        world: None,
        contains: None,
        one: None,
        hold: None,
    }
}

pub fn entry<G: Rows, I: Rows, E: Rows>() -> Entry {
    Entry {
        one: Some(one::<G, I, E>),
        hold: Some((hold_all::<G, I, E>, hold_one::<G, I, E>)),
        ..lite::<G, I, E>()
    }
}

/// Everything but the parallel iterators.
pub fn plain<G: Rows>() -> Entry {
    Entry {
        world: Some(world_all::<G>),
        contains: Some(|world, e| world.contains::<G>(e)),
        ..entry::<G, (), ()>()
    }
}

pub fn parallel<G: Rows, I: Rows, E: Rows>(mut entry: Entry) -> Entry {
    entry.par = Some(par::<G, I, E>);
    entry
}
