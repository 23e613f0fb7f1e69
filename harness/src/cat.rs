// Generated by tools/gencat.py.
use crate::comp::*;
use crate::exec::comp_fns;
use crate::query::{entry, guard, parallel, plain, Entry, Guard};
use crate::sets::{fns, group, CompFns, GroupFns, SetFns};
use sparsey::entity::Entity;

pub fn comps() -> Vec<(u8, CompFns)> {
    vec![comp_fns::<A>(), comp_fns::<B>(), comp_fns::<C>(), comp_fns::<Z>(), comp_fns::<S>(), comp_fns::<E>()]
}

pub fn sets() -> Vec<(Vec<u8>, SetFns)> {
    vec![
        fns::<()>(),
        fns::<(A,)>(),
        fns::<(B,)>(),
        fns::<(C,)>(),
        fns::<(Z,)>(),
        fns::<(S,)>(),
        fns::<(E,)>(),
        fns::<(A,B,)>(),
        fns::<(A,C,)>(),
        fns::<(A,Z,)>(),
        fns::<(A,S,)>(),
        fns::<(A,E,)>(),
        fns::<(B,C,)>(),
        fns::<(B,Z,)>(),
        fns::<(B,S,)>(),
        fns::<(B,E,)>(),
        fns::<(C,Z,)>(),
        fns::<(C,S,)>(),
        fns::<(C,E,)>(),
        fns::<(Z,S,)>(),
        fns::<(Z,E,)>(),
        fns::<(S,E,)>(),
        fns::<(A,B,C,)>(),
        fns::<(A,B,Z,)>(),
        fns::<(A,B,S,)>(),
        fns::<(A,B,E,)>(),
        fns::<(A,C,Z,)>(),
        fns::<(A,C,S,)>(),
        fns::<(A,C,E,)>(),
        fns::<(A,Z,S,)>(),
        fns::<(A,Z,E,)>(),
        fns::<(A,S,E,)>(),
        fns::<(B,C,Z,)>(),
        fns::<(B,C,S,)>(),
        fns::<(B,C,E,)>(),
        fns::<(B,Z,S,)>(),
        fns::<(B,Z,E,)>(),
        fns::<(B,S,E,)>(),
        fns::<(C,Z,S,)>(),
        fns::<(C,Z,E,)>(),
        fns::<(C,S,E,)>(),
        fns::<(Z,S,E,)>(),
        fns::<(A,B,C,Z,)>(),
        fns::<(A,B,C,S,)>(),
        fns::<(A,B,C,E,)>(),
        fns::<(A,B,Z,S,)>(),
        fns::<(A,B,Z,E,)>(),
        fns::<(A,B,S,E,)>(),
        fns::<(A,C,Z,S,)>(),
        fns::<(A,C,Z,E,)>(),
        fns::<(A,C,S,E,)>(),
        fns::<(A,Z,S,E,)>(),
        fns::<(B,C,Z,S,)>(),
        fns::<(B,C,Z,E,)>(),
        fns::<(B,C,S,E,)>(),
        fns::<(B,Z,S,E,)>(),
        fns::<(C,Z,S,E,)>(),
        fns::<(A,B,C,Z,S,)>(),
        fns::<(A,B,C,Z,E,)>(),
        fns::<(A,B,C,S,E,)>(),
        fns::<(A,B,Z,S,E,)>(),
        fns::<(A,C,Z,S,E,)>(),
        fns::<(B,C,Z,S,E,)>(),
        fns::<(A,B,C,Z,S,E,)>(),
        fns::<(B,A,)>(),
        fns::<(C,A,)>(),
        fns::<(C,B,)>(),
        fns::<(Z,A,)>(),
        fns::<(Z,B,)>(),
        fns::<(Z,C,)>(),
        fns::<(S,A,)>(),
        fns::<(S,B,)>(),
        fns::<(S,C,)>(),
        fns::<(S,Z,)>(),
        fns::<(E,A,)>(),
        fns::<(E,B,)>(),
        fns::<(E,C,)>(),
        fns::<(E,Z,)>(),
        fns::<(E,S,)>(),
        fns::<(Z,A,S,)>(),
        fns::<(A,S,C,)>(),
        fns::<(S,C,Z,)>(),
        fns::<(Z,B,C,)>(),
        fns::<(S,Z,C,)>(),
        fns::<(S,E,B,)>(),
        fns::<(E,C,A,)>(),
        fns::<(C,B,E,)>(),
        fns::<(B,S,C,)>(),
        fns::<(C,A,B,)>(),
        fns::<(Z,E,S,)>(),
        fns::<(Z,A,B,)>(),
        fns::<(B,E,C,)>(),
        fns::<(B,E,A,)>(),
        fns::<(Z,S,A,C,)>(),
        fns::<(S,E,A,C,)>(),
        fns::<(E,S,Z,B,)>(),
        fns::<(A,Z,C,S,)>(),
        fns::<(Z,A,B,C,)>(),
        fns::<(S,E,B,A,)>(),
        fns::<(E,C,S,B,)>(),
        fns::<(Z,B,E,A,)>(),
        fns::<(Z,B,C,A,E,)>(),
        fns::<(Z,C,S,E,A,)>(),
        fns::<(E,Z,C,A,B,)>(),
        fns::<(A,Z,C,E,B,)>(),
        fns::<(S,C,Z,B,A,E,)>(),
        fns::<(A,Z,S,B,E,C,)>(),
        fns::<(E,S,B,Z,A,C,)>(),
        fns::<(C,Z,A,S,E,B,)>(),
        fns::<(A,A,)>(),
        fns::<(C,C,)>(),
        fns::<(Z,Z,)>(),
        fns::<(S,S,S,)>(),
        fns::<(A,B,A,)>(),
        fns::<(C,S,C,)>(),
        fns::<(E,A,A,)>(),
        fns::<(B,Z,Z,)>(),
        fns::<(A,B,C,B,A,)>(),
        fns::<(A,S,S,A,)>(),
    ]
}

pub fn guards() -> Vec<Guard> {
    vec![
        guard::<(&'static A,), (), ()>(),
        guard::<(), (&'static A,), ()>(),
        guard::<(), (), (&'static A,)>(),
        guard::<(Entity, Option<&'static A>,), (), ()>(),
        guard::<(&'static mut A,), (), ()>(),
        guard::<(), (&'static mut A,), ()>(),
        guard::<(), (), (&'static mut A,)>(),
        guard::<(Entity, Option<&'static mut A>,), (), ()>(),
        guard::<(&'static C,), (), ()>(),
        guard::<(), (&'static C,), ()>(),
        guard::<(), (), (&'static C,)>(),
        guard::<(Entity, Option<&'static C>,), (), ()>(),
        guard::<(&'static mut C,), (), ()>(),
        guard::<(), (&'static mut C,), ()>(),
        guard::<(), (), (&'static mut C,)>(),
        guard::<(Entity, Option<&'static mut C>,), (), ()>(),
        guard::<(&'static A, &'static A,), (), ()>(),
        guard::<(&'static A,), (), (&'static A,)>(),
        guard::<(), (&'static A,), (&'static A,)>(),
        guard::<(&'static A,), (&'static mut A,), ()>(),
        guard::<(), (&'static A, &'static mut A,), ()>(),
        guard::<(), (), (&'static A, &'static mut A,)>(),
        guard::<(Option<&'static A>, &'static mut A,), (), ()>(),
        guard::<(&'static A,), (), (&'static C,)>(),
        guard::<(), (&'static A,), (&'static C,)>(),
        guard::<(&'static A, &'static C,), (), ()>(),
        guard::<(), (&'static A, &'static mut C,), ()>(),
        guard::<(), (), (&'static A, &'static mut C,)>(),
        guard::<(&'static A,), (&'static mut C,), ()>(),
        guard::<(Option<&'static A>, &'static mut C,), (), ()>(),
        guard::<(&'static mut A,), (&'static A,), ()>(),
        guard::<(), (&'static mut A, &'static A,), ()>(),
        guard::<(), (), (&'static mut A, &'static A,)>(),
        guard::<(Option<&'static mut A>, &'static A,), (), ()>(),
        guard::<(&'static mut A,), (), (&'static mut A,)>(),
        guard::<(), (&'static mut A,), (&'static mut A,)>(),
        guard::<(&'static mut A, &'static mut A,), (), ()>(),
        guard::<(), (&'static mut A, &'static C,), ()>(),
        guard::<(), (), (&'static mut A, &'static C,)>(),
        guard::<(&'static mut A,), (&'static C,), ()>(),
        guard::<(Option<&'static mut A>, &'static C,), (), ()>(),
        guard::<(), (&'static mut A,), (&'static mut C,)>(),
        guard::<(&'static mut A, &'static mut C,), (), ()>(),
        guard::<(&'static mut A,), (), (&'static mut C,)>(),
        guard::<(&'static C,), (), (&'static A,)>(),
        guard::<(), (&'static C,), (&'static A,)>(),
        guard::<(&'static C, &'static A,), (), ()>(),
        guard::<(), (&'static C, &'static mut A,), ()>(),
        guard::<(), (), (&'static C, &'static mut A,)>(),
        guard::<(&'static C,), (&'static mut A,), ()>(),
        guard::<(Option<&'static C>, &'static mut A,), (), ()>(),
        guard::<(), (&'static C,), (&'static C,)>(),
        guard::<(&'static C, &'static C,), (), ()>(),
        guard::<(&'static C,), (), (&'static C,)>(),
        guard::<(), (), (&'static C, &'static mut C,)>(),
        guard::<(&'static C,), (&'static mut C,), ()>(),
        guard::<(), (&'static C, &'static mut C,), ()>(),
        guard::<(Option<&'static C>, &'static mut C,), (), ()>(),
        guard::<(), (&'static mut C, &'static A,), ()>(),
        guard::<(), (), (&'static mut C, &'static A,)>(),
        guard::<(&'static mut C,), (&'static A,), ()>(),
        guard::<(Option<&'static mut C>, &'static A,), (), ()>(),
        guard::<(), (&'static mut C,), (&'static mut A,)>(),
        guard::<(&'static mut C, &'static mut A,), (), ()>(),
        guard::<(&'static mut C,), (), (&'static mut A,)>(),
        guard::<(), (), (&'static mut C, &'static C,)>(),
        guard::<(&'static mut C,), (&'static C,), ()>(),
        guard::<(), (&'static mut C, &'static C,), ()>(),
        guard::<(Option<&'static mut C>, &'static C,), (), ()>(),
        guard::<(&'static mut C, &'static mut C,), (), ()>(),
        guard::<(&'static mut C,), (), (&'static mut C,)>(),
        guard::<(), (&'static mut C,), (&'static mut C,)>(),
    ]
}

pub fn groups() -> Vec<(Vec<u8>, GroupFns)> {
    vec![
        group::<(A,B,)>(vec![0, 1]),
        group::<(A,C,)>(vec![0, 2]),
        group::<(A,Z,)>(vec![0, 3]),
        group::<(A,S,)>(vec![0, 4]),
        group::<(A,E,)>(vec![0, 5]),
        group::<(B,C,)>(vec![1, 2]),
        group::<(B,Z,)>(vec![1, 3]),
        group::<(B,S,)>(vec![1, 4]),
        group::<(B,E,)>(vec![1, 5]),
        group::<(C,Z,)>(vec![2, 3]),
        group::<(C,S,)>(vec![2, 4]),
        group::<(C,E,)>(vec![2, 5]),
        group::<(Z,S,)>(vec![3, 4]),
        group::<(Z,E,)>(vec![3, 5]),
        group::<(S,E,)>(vec![4, 5]),
        group::<(A,B,C,)>(vec![0, 1, 2]),
        group::<(A,B,Z,)>(vec![0, 1, 3]),
        group::<(A,B,S,)>(vec![0, 1, 4]),
        group::<(A,B,E,)>(vec![0, 1, 5]),
        group::<(A,C,Z,)>(vec![0, 2, 3]),
        group::<(A,C,S,)>(vec![0, 2, 4]),
        group::<(A,C,E,)>(vec![0, 2, 5]),
        group::<(A,Z,S,)>(vec![0, 3, 4]),
        group::<(A,Z,E,)>(vec![0, 3, 5]),
        group::<(A,S,E,)>(vec![0, 4, 5]),
        group::<(B,C,Z,)>(vec![1, 2, 3]),
        group::<(B,C,S,)>(vec![1, 2, 4]),
        group::<(B,C,E,)>(vec![1, 2, 5]),
        group::<(B,Z,S,)>(vec![1, 3, 4]),
        group::<(B,Z,E,)>(vec![1, 3, 5]),
        group::<(B,S,E,)>(vec![1, 4, 5]),
        group::<(C,Z,S,)>(vec![2, 3, 4]),
        group::<(C,Z,E,)>(vec![2, 3, 5]),
        group::<(C,S,E,)>(vec![2, 4, 5]),
        group::<(Z,S,E,)>(vec![3, 4, 5]),
        group::<(A,B,C,Z,)>(vec![0, 1, 2, 3]),
        group::<(A,B,C,S,)>(vec![0, 1, 2, 4]),
        group::<(A,B,C,E,)>(vec![0, 1, 2, 5]),
        group::<(A,B,Z,S,)>(vec![0, 1, 3, 4]),
        group::<(A,B,Z,E,)>(vec![0, 1, 3, 5]),
        group::<(A,B,S,E,)>(vec![0, 1, 4, 5]),
        group::<(A,C,Z,S,)>(vec![0, 2, 3, 4]),
        group::<(A,C,Z,E,)>(vec![0, 2, 3, 5]),
        group::<(A,C,S,E,)>(vec![0, 2, 4, 5]),
        group::<(A,Z,S,E,)>(vec![0, 3, 4, 5]),
        group::<(B,C,Z,S,)>(vec![1, 2, 3, 4]),
        group::<(B,C,Z,E,)>(vec![1, 2, 3, 5]),
        group::<(B,C,S,E,)>(vec![1, 2, 4, 5]),
        group::<(B,Z,S,E,)>(vec![1, 3, 4, 5]),
        group::<(C,Z,S,E,)>(vec![2, 3, 4, 5]),
        group::<(A,B,C,Z,S,)>(vec![0, 1, 2, 3, 4]),
        group::<(A,B,C,Z,E,)>(vec![0, 1, 2, 3, 5]),
        group::<(A,B,C,S,E,)>(vec![0, 1, 2, 4, 5]),
        group::<(A,B,Z,S,E,)>(vec![0, 1, 3, 4, 5]),
        group::<(A,C,Z,S,E,)>(vec![0, 2, 3, 4, 5]),
        group::<(B,C,Z,S,E,)>(vec![1, 2, 3, 4, 5]),
        group::<(A,B,C,Z,S,E,)>(vec![0, 1, 2, 3, 4, 5]),
        group::<(B,A,)>(vec![1, 0]),
        group::<(C,A,)>(vec![2, 0]),
        group::<(C,B,)>(vec![2, 1]),
        group::<(Z,A,)>(vec![3, 0]),
        group::<(Z,B,)>(vec![3, 1]),
        group::<(Z,C,)>(vec![3, 2]),
        group::<(S,A,)>(vec![4, 0]),
        group::<(S,B,)>(vec![4, 1]),
        group::<(S,C,)>(vec![4, 2]),
        group::<(S,Z,)>(vec![4, 3]),
        group::<(E,A,)>(vec![5, 0]),
        group::<(E,B,)>(vec![5, 1]),
        group::<(E,C,)>(vec![5, 2]),
        group::<(E,Z,)>(vec![5, 3]),
        group::<(E,S,)>(vec![5, 4]),
        group::<(B,A,C,Z,)>(vec![1, 0, 2, 3]),
        group::<(S,Z,A,B,)>(vec![4, 3, 0, 1]),
        group::<(C,A,E,B,)>(vec![2, 0, 5, 1]),
        group::<(E,S,C,A,)>(vec![5, 4, 2, 0]),
        group::<(Z,A,S,E,)>(vec![3, 0, 4, 5]),
        group::<(Z,S,B,E,)>(vec![3, 4, 1, 5]),
        group::<(C,Z,B,E,)>(vec![2, 3, 1, 5]),
        group::<(C,A,B,Z,)>(vec![2, 0, 1, 3]),
        group::<(C,A,E,S,)>(vec![2, 0, 5, 4]),
        group::<(Z,C,A,S,)>(vec![3, 2, 0, 4]),
    ]
}

pub fn catalogue() -> Vec<Entry> {
    vec![
        parallel::<Entity, (), ()>(plain::<Entity>()),
        plain::<&'static A>(),
        plain::<&'static mut A>(),
        plain::<&'static B>(),
        plain::<&'static mut B>(),
        plain::<&'static C>(),
        plain::<&'static mut C>(),
        plain::<&'static Z>(),
        parallel::<&'static mut Z, (), ()>(plain::<&'static mut Z>()),
        plain::<&'static S>(),
        plain::<&'static mut S>(),
        plain::<&'static E>(),
        plain::<&'static mut E>(),
        plain::<Option<&'static A>>(),
        plain::<Option<&'static mut S>>(),
        plain::<(Entity,)>(),
        parallel::<(Entity, Option<&'static C>,), (), ()>(plain::<(Entity, Option<&'static C>,)>()),
        plain::<(Option<&'static B>, Option<&'static mut Z>,)>(),
        plain::<(Entity, &'static A,)>(),
        plain::<(Entity, &'static mut A,)>(),
        plain::<(Entity, &'static B,)>(),
        plain::<(Entity, &'static mut B,)>(),
        plain::<(Entity, &'static C,)>(),
        plain::<(Entity, &'static mut C,)>(),
        parallel::<(Entity, &'static Z,), (), ()>(plain::<(Entity, &'static Z,)>()),
        plain::<(Entity, &'static mut Z,)>(),
        plain::<(Entity, &'static S,)>(),
        plain::<(Entity, &'static mut S,)>(),
        plain::<(Entity, &'static E,)>(),
        plain::<(Entity, &'static mut E,)>(),
        plain::<(&'static C, &'static mut A, Entity,)>(),
        plain::<(&'static mut S, Entity, &'static mut Z,)>(),
        parallel::<(Entity, &'static S, &'static C,), (), ()>(plain::<(Entity, &'static S, &'static C,)>()),
        plain::<(&'static mut A, Entity, &'static Z,)>(),
        plain::<(Entity, &'static A, &'static S,)>(),
        plain::<(&'static Z, &'static C, Entity,)>(),
        plain::<(&'static mut E, &'static Z, Entity,)>(),
        plain::<(&'static Z, &'static mut B, Entity,)>(),
        plain::<(&'static E, Entity, &'static mut A,)>(),
        plain::<(Entity, &'static mut E, &'static mut S,)>(),
        parallel::<(&'static A, Entity, &'static B,), (), ()>(plain::<(&'static A, Entity, &'static B,)>()),
        plain::<(&'static mut B, &'static C, Entity,)>(),
        plain::<(&'static S, Entity, &'static B,)>(),
        plain::<(&'static C, &'static E, Entity,)>(),
        plain::<(&'static mut E, &'static mut B, Entity,)>(),
        plain::<(&'static B, Entity, &'static C, &'static A,)>(),
        plain::<(&'static mut Z, &'static mut S, Entity, &'static mut A,)>(),
        plain::<(&'static mut S, Entity, &'static C, &'static B,)>(),
        parallel::<(&'static S, &'static mut E, &'static A, Entity,), (), ()>(plain::<(&'static S, &'static mut E, &'static A, Entity,)>()),
        plain::<(Entity, &'static Z, &'static S, &'static E,)>(),
        plain::<(&'static mut B, &'static mut Z, &'static mut E, Entity,)>(),
        plain::<(Entity, &'static mut A, &'static mut S, &'static C,)>(),
        plain::<(&'static mut A, Entity, &'static mut B, &'static mut S,)>(),
        plain::<(Entity, &'static S, &'static C, &'static mut Z,)>(),
        plain::<(&'static mut B, &'static mut A, Entity, &'static E,)>(),
        plain::<(&'static C, &'static E, Entity, &'static Z,)>(),
        parallel::<(&'static C, &'static mut E, Entity, &'static A,), (), ()>(plain::<(&'static C, &'static mut E, Entity, &'static A,)>()),
        plain::<(&'static A, Entity, &'static mut E, &'static mut Z,)>(),
        plain::<(&'static E, &'static S, &'static mut B, Entity,)>(),
        plain::<(&'static Z, &'static C, &'static mut B, Entity,)>(),
        plain::<(&'static mut A, &'static Z, Entity, &'static mut B,)>(),
        plain::<(Entity, &'static mut E, &'static mut C, &'static B,)>(),
        plain::<(&'static mut C, &'static A, &'static Z, Entity,)>(),
        plain::<(&'static mut C, &'static S, &'static E, Entity,)>(),
        parallel::<(&'static S, &'static mut Z, &'static B, Entity,), (), ()>(plain::<(&'static S, &'static mut Z, &'static B, Entity,)>()),
        plain::<(&'static B, &'static mut S, &'static mut C, &'static Z, Entity,)>(),
        plain::<(&'static mut C, &'static A, &'static B, Entity, &'static E,)>(),
        plain::<(&'static A, &'static Z, &'static S, Entity, &'static mut C,)>(),
        plain::<(&'static mut E, &'static mut S, &'static A, Entity, &'static B,)>(),
        plain::<(Entity, &'static mut B, &'static Z, &'static E, &'static A,)>(),
        plain::<(&'static mut A, &'static S, &'static B, Entity, &'static mut Z,)>(),
        plain::<(&'static mut A, &'static E, &'static Z, Entity, &'static mut S,)>(),
        parallel::<(Entity, &'static mut E, &'static mut Z, &'static A, &'static C,), (), ()>(plain::<(Entity, &'static mut E, &'static mut Z, &'static A, &'static C,)>()),
        plain::<(&'static B, &'static C, &'static mut Z, Entity, &'static mut A,)>(),
        plain::<(&'static mut A, &'static E, &'static mut B, &'static Z, Entity, &'static C,)>(),
        plain::<(&'static mut E, Entity, &'static mut B, &'static Z, &'static S, &'static mut C,)>(),
        plain::<(&'static mut Z, &'static mut A, &'static B, &'static mut E, &'static S, Entity,)>(),
        plain::<(&'static S, Entity, &'static B, &'static A, &'static C, &'static Z,)>(),
        plain::<(Entity, &'static mut B, &'static Z, &'static A, &'static E, &'static S, &'static mut C,)>(),
        plain::<(&'static E, &'static mut B,)>(),
        parallel::<(&'static mut S, &'static E,), (), ()>(plain::<(&'static mut S, &'static E,)>()),
        plain::<(&'static mut Z, &'static mut C,)>(),
        plain::<(&'static mut A, &'static S,)>(),
        plain::<(&'static mut C, &'static S,)>(),
        plain::<(Entity, Option<&'static E>, &'static B, Option<&'static mut A>,)>(),
        plain::<(Entity, &'static A, &'static mut C, Option<&'static B>,)>(),
        plain::<(Entity, &'static B, Option<&'static mut Z>, &'static S,)>(),
        plain::<(Entity, Option<&'static S>, Option<&'static A>, &'static B,)>(),
        parallel::<(Entity, Option<&'static C>, Option<&'static A>, &'static mut E,), (), ()>(plain::<(Entity, Option<&'static C>, Option<&'static A>, &'static mut E,)>()),
        plain::<(Entity, &'static C, Option<&'static S>,)>(),
        plain::<(Entity, Option<&'static E>, &'static mut B, &'static mut C,)>(),
        plain::<(Entity, &'static S, Option<&'static mut A>,)>(),
        plain::<(Entity, Option<&'static mut E>, &'static Z, &'static mut S, Option<&'static C>,)>(),
        plain::<(Entity, &'static S, &'static E, Option<&'static A>,)>(),
        plain::<(Entity, &'static Z, Option<&'static S>, &'static mut A,)>(),
        plain::<(Entity, Option<&'static mut B>, &'static mut E,)>(),
        parallel::<(Entity, Option<&'static E>, &'static A, Option<&'static Z>,), (), ()>(plain::<(Entity, Option<&'static E>, &'static A, Option<&'static Z>,)>()),
        plain::<(Entity, Option<&'static mut B>, Option<&'static mut Z>, &'static mut A,)>(),
        plain::<(Entity, Option<&'static C>, Option<&'static A>, &'static S,)>(),
        plain::<(Entity, Option<&'static mut B>, Option<&'static S>, &'static mut Z,)>(),
        entry::<(Entity, &'static mut A, &'static S,), &'static B, ()>(),
        entry::<(Entity, &'static B,), &'static A, ()>(),
        entry::<(Entity, &'static A,), (&'static S,), ()>(),
        entry::<(Entity, &'static mut S,), (&'static A, &'static E,), ()>(),
        parallel::<(Entity, &'static mut B,), (&'static A,), ()>(entry::<(Entity, &'static mut B,), (&'static A,), ()>()),
        entry::<(Entity, &'static B, &'static C,), (&'static A, &'static Z,), ()>(),
        entry::<(Entity, &'static C, &'static mut A,), (&'static S, &'static Z,), ()>(),
        entry::<(Entity, &'static A,), (&'static Z, &'static B,), ()>(),
        entry::<(Entity, &'static Z,), (&'static E, &'static C,), ()>(),
        entry::<(Entity, &'static E, &'static mut Z,), &'static S, ()>(),
        entry::<(Entity, &'static A, &'static C,), &'static Z, ()>(),
        entry::<(Entity, &'static B,), (&'static S, &'static C,), ()>(),
        parallel::<(Entity, &'static Z,), (&'static B,), ()>(entry::<(Entity, &'static Z,), (&'static B,), ()>()),
        entry::<(Entity, &'static B, &'static S,), &'static Z, ()>(),
        entry::<Entity, (&'static S,), ()>(),
        entry::<Entity, (&'static C, &'static E, &'static A,), ()>(),
        entry::<(Entity,), (&'static C, &'static A,), ()>(),
        entry::<(Entity,), (&'static E, &'static A,), ()>(),
        entry::<(Entity,), (&'static A, &'static B,), ()>(),
        entry::<(Entity,), (&'static B, &'static C,), ()>(),
        parallel::<Entity, (&'static S, &'static B,), ()>(entry::<Entity, (&'static S, &'static B,), ()>()),
        entry::<(Entity,), (&'static S, &'static C, &'static A,), ()>(),
        entry::<(Entity, Option<&'static mut C>,), (&'static B, &'static A,), ()>(),
        entry::<(Entity, Option<&'static mut Z>,), (&'static A, &'static B,), ()>(),
        entry::<(Entity, Option<&'static mut B>,), (&'static A, &'static C,), ()>(),
        entry::<(), &'static A, ()>(),
        entry::<(), (&'static B, &'static C,), ()>(),
        entry::<(Entity, &'static mut A,), (), &'static C>(),
        parallel::<(Entity, &'static mut B,), (), &'static E>(entry::<(Entity, &'static mut B,), (), &'static E>()),
        entry::<(Entity, &'static C,), (), &'static S>(),
        entry::<(Entity, &'static Z,), (), &'static A>(),
        entry::<(Entity, &'static mut S,), (), &'static E>(),
        entry::<(Entity, &'static E,), (), &'static B>(),
        entry::<(Entity, &'static Z,), (), (&'static A, &'static S,)>(),
        entry::<(Entity, &'static mut A,), (), (&'static C, &'static B,)>(),
        entry::<(Entity, &'static mut A,), (), (&'static Z, &'static E,)>(),
        parallel::<(Entity, &'static mut C,), (), (&'static Z, &'static B,)>(entry::<(Entity, &'static mut C,), (), (&'static Z, &'static B,)>()),
        entry::<(Entity, &'static E,), (), (&'static A, &'static B,)>(),
        entry::<(Entity, &'static A, &'static mut B,), (), (&'static S,)>(),
        entry::<(Entity, &'static B, &'static mut A,), (), &'static C>(),
        entry::<(Entity, &'static C, &'static A,), (), &'static Z>(),
        entry::<(Entity, &'static mut A, &'static C,), (), (&'static B,)>(),
        entry::<(Entity, &'static A, &'static Z,), (), &'static C>(),
        entry::<(Entity, &'static A, &'static Z,), (), &'static E>(),
        parallel::<(Entity, &'static S, &'static A,), (), (&'static B,)>(entry::<(Entity, &'static S, &'static A,), (), (&'static B,)>()),
        entry::<(Entity, &'static S, &'static A,), (), &'static C>(),
        entry::<(Entity, &'static A, &'static mut E,), (), &'static B>(),
        entry::<(Entity, &'static E, &'static A,), (), &'static Z>(),
        entry::<(Entity, &'static C, &'static B,), (), (&'static Z,)>(),
        entry::<(Entity, &'static mut C, &'static B,), (), &'static E>(),
        entry::<(Entity, &'static mut B, &'static mut Z,), (), &'static C>(),
        entry::<(Entity, &'static B, &'static mut Z,), (), &'static A>(),
        parallel::<(Entity, &'static B, &'static mut S,), (), &'static E>(entry::<(Entity, &'static B, &'static mut S,), (), &'static E>()),
        entry::<(Entity, &'static mut B, &'static S,), (), (&'static C,)>(),
        entry::<(Entity, &'static E, &'static B,), (), (&'static A,)>(),
        entry::<(Entity, &'static B, &'static mut E,), (), &'static C>(),
        entry::<(Entity, &'static C, &'static Z,), (), (&'static A,)>(),
        entry::<(Entity, &'static mut C, &'static Z,), (), &'static S>(),
        entry::<(Entity, &'static S, &'static C,), (), (&'static A,)>(),
        entry::<(Entity, &'static mut C, &'static S,), (), &'static E>(),
        parallel::<(Entity, &'static C, &'static mut E,), (), &'static S>(entry::<(Entity, &'static C, &'static mut E,), (), &'static S>()),
        entry::<(Entity, &'static mut C, &'static E,), (), &'static B>(),
        entry::<(Entity, &'static S, &'static Z,), (), (&'static E,)>(),
        entry::<(Entity, &'static mut S, &'static Z,), (), &'static B>(),
        entry::<(Entity, &'static mut E, &'static Z,), (), (&'static A,)>(),
        entry::<(Entity, &'static mut E, &'static mut Z,), (), (&'static B,)>(),
        entry::<(Entity, &'static S, &'static mut E,), (), (&'static C,)>(),
        entry::<(Entity, &'static E, &'static S,), (), (&'static A,)>(),
        parallel::<(Entity, &'static S, &'static B,), (), (&'static Z, &'static E,)>(entry::<(Entity, &'static S, &'static B,), (), (&'static Z, &'static E,)>()),
        entry::<(Entity, &'static mut A, &'static mut E,), (), (&'static B, &'static Z,)>(),
        entry::<(Entity, &'static S, &'static E,), (), (&'static B, &'static Z,)>(),
        entry::<(Entity, &'static mut E, &'static S,), (), (&'static A, &'static C,)>(),
        entry::<(Entity, &'static B, &'static Z,), (), (&'static C, &'static E,)>(),
        entry::<(Entity, &'static mut B, &'static S,), (), (&'static A, &'static E,)>(),
        entry::<(Entity, &'static S, &'static A,), (), (&'static Z, &'static E,)>(),
        entry::<(Entity, &'static B, &'static mut E,), (), (&'static A, &'static C,)>(),
        parallel::<(Entity, &'static C, &'static mut Z,), (), (&'static A, &'static B,)>(entry::<(Entity, &'static C, &'static mut Z,), (), (&'static A, &'static B,)>()),
        entry::<(Entity, &'static E, &'static B,), (), (&'static S, &'static Z,)>(),
        entry::<(Entity, &'static C, &'static A,), (), (&'static E, &'static Z,)>(),
        entry::<(Entity, &'static Z, &'static E,), (), (&'static C, &'static A,)>(),
        entry::<(Entity, &'static mut Z, &'static B, &'static mut A,), (), (&'static C, &'static S,)>(),
        entry::<(Entity, &'static E, &'static Z, &'static C,), (), (&'static S, &'static B,)>(),
        entry::<(Entity, &'static B, &'static Z, &'static mut A,), (), (&'static E, &'static C, &'static S,)>(),
        entry::<(Entity, &'static B, &'static mut S, &'static mut Z,), (), (&'static E, &'static A,)>(),
        parallel::<(Entity, &'static mut A, &'static mut E, &'static mut Z,), (), (&'static C,)>(entry::<(Entity, &'static mut A, &'static mut E, &'static mut Z,), (), (&'static C,)>()),
        entry::<(Entity, &'static S, &'static E, &'static mut C,), (), (&'static A,)>(),
        entry::<(Entity, Option<&'static mut A>, &'static mut Z, &'static mut S,), (), (&'static C,)>(),
        entry::<(Entity, Option<&'static C>, &'static mut E, &'static mut A,), (), (&'static B,)>(),
        entry::<(Entity, Option<&'static mut Z>, &'static A, &'static B,), (), (&'static E,)>(),
        entry::<(Entity, Option<&'static B>, &'static mut C, &'static mut E,), (), (&'static Z,)>(),
        entry::<(Entity, Option<&'static Z>, &'static C, &'static B,), (), (&'static S,)>(),
        entry::<(Entity, &'static mut A,), (&'static C,), (&'static B, &'static E,)>(),
        parallel::<(Entity, &'static mut Z,), (&'static A,), (&'static S,)>(entry::<(Entity, &'static mut Z,), (&'static A,), (&'static S,)>()),
        entry::<(Entity, &'static S, &'static C,), (&'static Z, &'static B,), (&'static E,)>(),
        entry::<(Entity, &'static A, &'static S,), (&'static C,), (&'static E,)>(),
        entry::<(Entity, &'static mut S,), (&'static Z,), (&'static A,)>(),
        entry::<(Entity, &'static mut E,), (&'static A,), (&'static Z,)>(),
        entry::<(Entity,), (&'static B,), (&'static A, &'static E,)>(),
        entry::<(Entity,), (&'static C, &'static Z,), (&'static E, &'static B,)>(),
        entry::<(Entity, &'static A,), (&'static B,), (&'static C,)>(),
        parallel::<(Entity, &'static Z,), (&'static A,), (&'static E, &'static S,)>(entry::<(Entity, &'static Z,), (&'static A,), (&'static E, &'static S,)>()),
        entry::<(Entity, &'static mut S, &'static E,), (&'static B,), (&'static Z,)>(),
        entry::<(Entity, &'static mut A,), (&'static S,), (&'static E,)>(),
        entry::<(Entity,), (&'static Z,), (&'static B, &'static S,)>(),
        entry::<(Entity, &'static Z,), (&'static B,), (&'static S, &'static A,)>(),
        entry::<(Entity, &'static A,), (&'static C,), (&'static S,)>(),
        entry::<(Entity,), (&'static C, &'static B,), (&'static S,)>(),
        entry::<(Entity, &'static E,), (&'static S,), (&'static C, &'static A,)>(),
        parallel::<(Entity, &'static S,), (&'static C, &'static A,), (&'static B,)>(entry::<(Entity, &'static S,), (&'static C, &'static A,), (&'static B,)>()),
        entry::<(Entity, &'static B,), (&'static A,), (&'static S,)>(),
        entry::<(Entity, &'static mut E,), (&'static S,), (&'static A,)>(),
        entry::<(Entity, &'static S,), (&'static A, &'static C,), (&'static Z, &'static E,)>(),
        entry::<(Entity,), (&'static S,), (&'static C, &'static Z,)>(),
        entry::<(Entity, &'static A,), (), Option<&'static B>>(),
        entry::<(Entity, &'static B, &'static C,), (), Option<&'static Z>>(),
        entry::<(Entity, &'static S,), (), Entity>(),
        parallel::<(Entity, &'static A, &'static B,), (), (&'static C, Option<&'static Z>,)>(entry::<(Entity, &'static A, &'static B,), (), (&'static C, Option<&'static Z>,)>()),
        entry::<(Entity, &'static C,), Option<&'static Z>, ()>(),
        entry::<(Entity, &'static E,), Entity, &'static A>(),
        entry::<(Entity, &'static A,), (Option<&'static B>, &'static C,), &'static Z>(),
        entry::<Entity, Option<&'static A>, ()>(),
        entry::<Entity, (), &'static A>(),
        entry::<(Entity, Option<&'static A>,), (), (&'static B, &'static S,)>(),
        plain::<(Entity, &'static A, &'static A,)>(),
        parallel::<(Entity, &'static B,), &'static B, ()>(entry::<(Entity, &'static B,), &'static B, ()>()),
        entry::<(Entity, &'static A, &'static B,), (&'static B,), ()>(),
        entry::<(Entity, &'static C,), (), &'static C>(),
        plain::<(Entity, &'static A, Option<&'static A>,)>(),
        entry::<(Entity, &'static A, &'static B,), (), (&'static B,)>(),
        entry::<(Entity, &'static S,), (), (&'static E, &'static E,)>(),
        plain::<(Entity, &'static A, &'static C, &'static A,)>(),
        entry::<(Entity, &'static B, &'static Z,), (), (&'static S, &'static S,)>(),
        parallel::<(&'static A, &'static mut A,), (), ()>(plain::<(&'static A, &'static mut A,)>()),
        plain::<(&'static B, &'static mut B,)>(),
        plain::<(&'static Z, &'static mut Z,)>(),
        plain::<(&'static mut C, &'static mut C,)>(),
        entry::<(Entity, &'static mut S,), &'static S, ()>(),
        entry::<(Entity, &'static mut E,), (), &'static E>(),
        entry::<(Entity, &'static A,), &'static mut A, ()>(),
        entry::<(Entity, &'static B,), (), &'static mut B>(),
        parallel::<(Option<&'static mut A>, Option<&'static A>,), (), ()>(plain::<(Option<&'static mut A>, Option<&'static A>,)>()),
        entry::<(Entity, &'static C,), &'static Z, &'static mut Z>(),
        entry::<(Entity, &'static A,), &'static mut B, ()>(),
        entry::<(Entity, &'static A, &'static C,), (), &'static mut S>(),
        entry::<(Entity, &'static mut E, &'static mut S, &'static mut Z,), (&'static A, &'static B, &'static C,), ()>(),
        entry::<(Entity, &'static A, &'static B, &'static C,), (), (&'static Z, &'static S, &'static E,)>(),
        entry::<(Entity, &'static mut A, &'static B, &'static C, &'static Z,), (), (&'static S,)>(),
        entry::<(Entity, &'static mut A, &'static B, &'static C, &'static Z, &'static mut S,), (), (&'static E,)>(),
    ]
}
