//! Component sets chosen at run time.

use crate::comp::Cp;
use sparsey::component::{ComponentData, ComponentSet, GroupDescriptor, GroupInfo, GroupLayout};
use sparsey::entity::Entity;
use sparsey::world::WorldBuilder;
use sparsey::World;
use std::collections::HashMap;

pub trait SetT: ComponentSet + Sized {
    fn ids() -> Vec<u8>;
    fn mk(vs: &[u32]) -> Self;
    fn back(removed: <Self as ComponentSet>::Remove) -> Vec<i64>;
}

macro_rules! impl_set {
    ($($T:ident $i:tt),*) => {
        impl<$($T: Cp),*> SetT for ($($T,)*) {
            fn ids() -> Vec<u8> { vec![$($T::C),*] }
            #[allow(unused_variables)]
            fn mk(vs: &[u32]) -> Self { ($($T::mk(vs[$i]),)*) }
            #[allow(unused_variables)]
            fn back(r: <Self as ComponentSet>::Remove) -> Vec<i64> {
                vec![$(r.$i.map_or(-1, |v| v.handback())),*]
            }
        }
    };
}

impl_set!(T0 0);
impl_set!(T0 0, T1 1);
impl_set!(T0 0, T1 1, T2 2);
impl_set!(T0 0, T1 1, T2 2, T3 3);
impl_set!(T0 0, T1 1, T2 2, T3 3, T4 4);
impl_set!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5);
impl_set!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6);
impl_set!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7);
impl_set!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8);
impl_set!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9);
impl_set!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10);
impl_set!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11);
impl_set!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12);
impl_set!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13);
impl_set!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14);
impl_set!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15);

impl SetT for () {
    fn ids() -> Vec<u8> {
        vec![]
    }
    fn mk(_: &[u32]) -> Self {}
    fn back((): ()) -> Vec<i64> {
        vec![]
    }
}

/// Yields component sets and panics at item `at`; hints at nothing, like an
/// iterator whose length is unknown, at the exact number of items, or at some
/// bounds.
struct Items<'a, C> {
    items: &'a [Vec<u32>],
    next: usize,
    at: usize,
    hint: Hint,
    made: &'a std::cell::Cell<usize>,
    _c: std::marker::PhantomData<C>,
}

impl<C: SetT> Iterator for Items<'_, C> {
    type Item = C;
    fn next(&mut self) -> Option<C> {
        assert!(self.next != self.at, "iterator panics");
        let vs = self.items.get(self.next)?;
        self.next += 1;
        self.made.set(self.next);
        Some(C::mk(vs))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len() - self.next;
        match self.hint {
            Hint::Nothing => (0, None),
            Hint::Exact => (n, Some(n)),
            Hint::Bounds => (n / 2, Some(2 * n + 3)),
        }
    }
}

#[derive(Clone, Copy)]
pub enum Hint {
    Nothing,
    Exact,
    Bounds,
}

#[derive(Clone, Copy)]
pub struct SetFns {
    pub create: fn(&mut World, &[u32]) -> Entity,
    pub extend: fn(&mut World, &[Vec<u32>], usize, Hint, &std::cell::Cell<usize>) -> Vec<Entity>,
    pub insert: fn(&mut World, Entity, &[u32]) -> bool,
    pub remove: fn(&mut World, Entity) -> Vec<i64>,
    pub delete: fn(&mut World, Entity),
}

pub fn fns<C: SetT>() -> (Vec<u8>, SetFns) {
    (
        C::ids(),
        SetFns {
            create: |w, vs| w.create(C::mk(vs)),
            extend: |w, items, at, hint, made| {
                w.extend(Items::<C> { items, next: 0, at, hint, made, _c: std::marker::PhantomData })
                    .to_vec()
            },
            insert: |w, e, vs| w.insert(e, C::mk(vs)),
            remove: |w, e| C::back(w.remove::<C>(e)),
            delete: |w, e| w.delete::<C>(e),
        },
    )
}

/// What can be done with one component type.
#[derive(Clone, Copy)]
pub struct CompFns {
    pub data: fn() -> ComponentData,
    pub register: fn(&mut World) -> bool,
    pub is_registered: fn(&World) -> bool,
    /// Group information, from a shared and an exclusive view.
    pub ginfo: fn(&World) -> [Option<GroupInfo>; 2],
    pub brow: fn(&mut WorldBuilder),
    /// entities and values
    pub list: fn(&World) -> (Vec<Entity>, Vec<i64>),
    pub view: fn(&World, &crate::exec::ViewReq) -> crate::exec::ViewRes,
    pub contains: fn(&World, Entity) -> bool,
    pub get: fn(&World, Entity) -> i64,
}

pub type GroupFns = (fn(&mut GroupLayout), fn(&mut WorldBuilder));

pub fn group<G: GroupDescriptor>(ids: Vec<u8>) -> (Vec<u8>, GroupFns) {
    (
        ids,
        (
            |layout| layout.add_group::<G>(),
            |builder| {
                builder.add_group::<G>();
            },
        ),
    )
}

pub struct Tables {
    pub sets: HashMap<Vec<u8>, SetFns>,
    pub comps: HashMap<u8, CompFns>,
    pub cat: Vec<crate::query::Entry>,
    pub guards: Vec<crate::query::Guard>,
    /// Groups that can be added through their static type.
    pub groups: HashMap<Vec<u8>, GroupFns>,
}
