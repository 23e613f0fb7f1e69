------------------------------- MODULE World -------------------------------
(***************************************************************************)
(* The sparsey World as its users see it: entities, queued entities,       *)
(* components, registrations, groups, and who owns which component value.  *)
(*                                                                         *)
(* Every public operation is one action (the library is sequential: a      *)
(* &mut World operation is atomic; the concurrent part, create_atomic on a *)
(* shared reference, is modelled at compare-exchange grain in EntityAlloc, *)
(* and appears here as its linearization).  `res` is the observable result *)
(* of the last action: whether it panicked, what it returned, and which    *)
(* component values were dropped by it.                                    *)
(*                                                                         *)
(* Handles are opaque: the specification says only that a creation returns *)
(* a handle that was never issued before, not which one.  Index reuse      *)
(* (property C03) is specified on top, by `free` and `top`.                *)
(***************************************************************************)
EXTENDS Query, Integers, TLC

CONSTANTS
    Comp,       \* component types
    Yes, No,    \* boolean results (any two distinct values)
    Zst,        \* the zero-sized ones among them: their only value is 0
    Retired(_)  \* whether the index of a handle is given up when the handle
                \* is destroyed, its versions having run out

VARIABLES
    live,    \* handles in the world
    queued,  \* handles created atomically and not yet maintained
    issued,  \* every handle issued since the last reset
    reg,     \* registered component types
    groups,  \* the groups of the current layout, sets of component types
    store,   \* component type -> (handle -> value)
    free,    \* indices freed by destroy and not reused since, oldest first
    top,     \* all indices ever issued since the last reset are below it
    idx,     \* handle -> index, for handles alive or queued
    res      \* observable outcome of the last action

wvars == <<live, queued, issued, reg, groups, store, free, top, idx>>
vars  == <<wvars, res>>

Empty == [h \in {} |-> 0]
EmptyStore == [c \in Comp |-> Empty]

------------------------------------------------------------------------------
(* Component sets are sequences of pairs <<component, value>>.  Where one   *)
(* names a component type more than once, the last value counts.            *)
CompsIn(cs) == {cs[i][1] : i \in 1..Len(cs)}
LastOf(cs, i) == \A j \in (i + 1)..Len(cs) : cs[j][1] # cs[i][1]
ValueOf(cs, c) == cs[CHOOSE i \in 1..Len(cs) : cs[i][1] = c /\ LastOf(cs, i)][2]
Registered(cs) == CompsIn(cs) \subseteq reg

(* f @@ g, which is slow where both are large.                              *)
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
Without(f, H) == [h \in DOMAIN f \ H |-> f[h]]
Put(s, h, cs) == [c \in Comp |->
                    IF c \in CompsIn(cs) THEN (h :> ValueOf(cs, c)) @@ s[c] ELSE s[c]]
Take(s, H, C) == [c \in Comp |-> IF c \in C THEN Without(s[c], H) ELSE s[c]]

(* Dropped values are triples <<component, handle, value>>; values that     *)
(* were passed in and never entered the world, or only to be overwritten at *)
(* once, have their position, as a negative number, for a handle.           *)
Held(s, H, C) == UNION {{<<c, h, s[c][h]>> : h \in H \cap DOMAIN s[c]} : c \in C}
Passed(cs) == {<<cs[i][1], -i, cs[i][2]>> : i \in 1..Len(cs)}
Superseded(cs) == {<<cs[i][1], -i, cs[i][2]>> : i \in {j \in 1..Len(cs) : ~LastOf(cs, j)}}
SupersededIn(items) ==
    UNION {{<<t[1], t[2] - 100 * k, t[3]>> : t \in Superseded(items[k])}
           : k \in {j \in 1..Len(items) : Cardinality(CompsIn(items[j])) < Len(items[j])}}

Ok(ret, drops) == [out |-> "ok", ret |-> ret, drops |-> drops]
Panic(drops)   == [out |-> "panic", ret |-> <<>>, drops |-> drops]

Bump(c, v) == IF c \in Zst THEN v ELSE v + 100000

------------------------------------------------------------------------------
(* Index bookkeeping: a creation takes the oldest freed index, if any.      *)
(* The least number that is not below t and above all of I.                 *)
Above(t, I) == LET m == {i \in I : i >= t}
                   x == t + Cardinality(m) - 1
               IN  IF m = {} THEN t
                   ELSE IF x \in m /\ \A y \in m : y <= x THEN x + 1
                   ELSE 1 + CHOOSE z \in m : \A y \in m : y <= z
NextFree == IF free # <<>> THEN Head(free) ELSE top
UseIndex(h, i) ==
    /\ IF free # <<>> /\ \E k \in 1..Len(free) : free[k] = i
       THEN free' = SelectSeq(free, LAMBDA x : x # i) /\ top' = top
       ELSE free' = free /\ top' = IF i >= top THEN i + 1 ELSE top
    /\ idx' = (h :> i) @@ idx

------------------------------------------------------------------------------
WorldInit(gs, rs) ==
    /\ live = {} /\ queued = {} /\ issued = {}
    /\ groups = gs
    /\ reg = rs \cup UNION gs
    /\ store = EmptyStore
    /\ free = <<>> /\ top = 0 /\ idx = Empty
    /\ res = Ok(<<>>, {})

(* create: h is the handle returned, i its index.                           *)
Create(h, i, cs) ==
    /\ Registered(cs)
    /\ h \notin issued
    /\ live' = live \cup {h}
    /\ issued' = issued \cup {h}
    /\ store' = Put(store, h, cs)
    /\ UseIndex(h, i)
    /\ res' = Ok(<<h>>, Superseded(cs))
    /\ UNCHANGED <<queued, reg, groups>>

(* Where x is in a sequence of distinct numbers, which are mostly           *)
(* consecutive ones.                                                        *)
Where(s, x) == LET k == x - s[1] + 1 IN
               IF k \in 1..Len(s) /\ s[k] = x THEN k ELSE CHOOSE j \in 1..Len(s) : s[j] = x

(* extend: hs[k] is the handle of the k-th item.  With fails = TRUE the     *)
(* iterator panics after the items: the entities made so far are complete.  *)
Extend(hs, is, items, fails) ==
    LET H == {hs[k] : k \in 1..Len(hs)}
        With(c) == {hs[k] : k \in {j \in 1..Len(hs) : c \in CompsIn(items[j])}}
    IN
    /\ Len(hs) = Len(items)
    /\ Cardinality(H) = Len(hs)
    /\ H \cap issued = {}
    /\ {k \in 1..Len(items) : ~Registered(items[k])} = {}
    /\ live' = live \cup H
    /\ issued' = issued \cup H
    /\ store' = [c \in Comp |-> Over([h \in With(c) |-> ValueOf(items[Where(hs, h)], c)], store[c])]
    /\ LET used == {is[k] : k \in 1..Len(is)} IN
        /\ free' = SelectSeq(free, LAMBDA x : x \notin used)
        /\ top' = Above(top, used)
        /\ idx' = Over([h \in H |-> is[Where(hs, h)]], idx)
    /\ LET drops == SupersededIn(items) IN res' = IF fails THEN Panic(drops) ELSE Ok(hs, drops)
    /\ UNCHANGED <<queued, reg, groups>>

(* Any operation that names an unregistered component type.                 *)
Unregistered(C, cs) ==
    /\ ~(C \subseteq reg)
    /\ res' = Panic(Passed(cs))
    /\ UNCHANGED wvars

CreateAtomic(h, i) ==
    /\ h \notin issued
    /\ queued' = queued \cup {h}
    /\ issued' = issued \cup {h}
    /\ UseIndex(h, i)
    /\ res' = Ok(<<h>>, {})
    /\ UNCHANGED <<live, reg, groups, store>>

(* Several create_atomic calls, from any number of threads, in any order.   *)
CreateAtomicMany(H, f) ==
    /\ H \cap issued = {}
    /\ queued' = queued \cup H
    /\ issued' = issued \cup H
    /\ free' = SelectSeq(free, LAMBDA x : \A h \in H : f[h] # x)
    /\ top' = Above(top, {f[h] : h \in H})
    /\ idx' = Over(f, idx)
    /\ res' = Ok(<<>>, {})
    /\ UNCHANGED <<live, reg, groups, store>>

(* Creation fails when nothing is left, and only then.                      *)
Exhausted(limit) ==
    /\ free = <<>> /\ top >= limit
    /\ res' = Panic({})
    /\ UNCHANGED wvars

Maintain ==
    /\ live' = live \cup queued
    /\ queued' = {}
    /\ res' = Ok(<<>>, {})
    /\ UNCHANGED <<issued, reg, groups, store, free, top, idx>>

Destroy(h) ==
    IF h \in live THEN
        /\ live' = live \ {h}
        /\ store' = Take(store, {h}, Comp)
        /\ free' = IF Retired(h) THEN free ELSE Append(free, idx[h])
        /\ idx' = Without(idx, {h})
        /\ res' = Ok(Yes, Held(store, {h}, Comp))
        /\ UNCHANGED <<queued, issued, reg, groups, top>>
    ELSE
        /\ res' = Ok(No, {})
        /\ UNCHANGED wvars

(* insert checks the entity first: with a dead handle, nothing is looked up.*)
Insert(h, cs) ==
    IF h \notin live THEN
        /\ res' = Ok(No, Passed(cs))
        /\ UNCHANGED wvars
    ELSE
        /\ Registered(cs)
        /\ store' = Put(store, h, cs)
        /\ res' = Ok(Yes, Held(store, {h}, CompsIn(cs)) \cup Superseded(cs))
        /\ UNCHANGED <<live, queued, issued, reg, groups, free, top, idx>>

(* remove hands the values back, in the order of the component set; -1      *)
(* stands for none, as where a type is named again.                         *)
Remove(h, C) ==
    /\ {C[i] : i \in 1..Len(C)} \subseteq reg
    /\ LET Cs == {C[i] : i \in 1..Len(C)} IN
        /\ store' = Take(store, {h}, Cs)
        /\ res' = Ok([i \in 1..Len(C) |->
                        IF h \in DOMAIN store[C[i]] /\ \A j \in 1..(i-1) : C[j] # C[i]
                        THEN store[C[i]][h] ELSE -1], {})
    /\ UNCHANGED <<live, queued, issued, reg, groups, free, top, idx>>

Delete(h, C) ==
    /\ C \subseteq reg
    /\ store' = Take(store, {h}, C)
    /\ res' = Ok(<<>>, Held(store, {h}, C))
    /\ UNCHANGED <<live, queued, issued, reg, groups, free, top, idx>>

(* clear: indices in use are given up, handles are never issued again.      *)
Clear ==
    /\ live' = {} /\ queued' = {}
    /\ store' = EmptyStore
    /\ idx' = Empty
    /\ res' = Ok(<<>>, Held(store, live, Comp))
    /\ UNCHANGED <<issued, reg, groups, free, top>>

Reset ==
    /\ live' = {} /\ queued' = {} /\ issued' = {}
    /\ store' = EmptyStore
    /\ idx' = Empty /\ free' = <<>> /\ top' = 0
    /\ res' = Ok(<<>>, Held(store, live, Comp))
    /\ UNCHANGED <<reg, groups>>

SetLayout(gs) ==
    /\ groups' = gs
    /\ reg' = reg \cup UNION gs
    /\ res' = Ok(<<>>, {})
    /\ UNCHANGED <<live, queued, issued, store, free, top, idx>>

Register(c) ==
    /\ reg' = reg \cup {c}
    /\ res' = Ok(IF c \notin reg THEN Yes ELSE No, {})
    /\ UNCHANGED <<live, queued, issued, groups, store, free, top, idx>>

(* Dropping the world drops what it still owns.  The next world is new.     *)
DropWorld ==
    /\ res' = Ok(<<>>, Held(store, live, Comp))
    /\ live' = {} /\ queued' = {} /\ issued' = {} /\ reg' = {} /\ groups' = {}
    /\ store' = EmptyStore /\ free' = <<>> /\ top' = 0 /\ idx' = Empty

New(gs, rs) ==
    /\ live' = {} /\ queued' = {} /\ issued' = {}
    /\ groups' = gs /\ reg' = rs \cup UNION gs
    /\ store' = EmptyStore /\ free' = <<>> /\ top' = 0 /\ idx' = Empty
    /\ res' = Ok(<<>>, {})

------------------------------------------------------------------------------
(* Queries.  With w = TRUE the caller bumps every component it was handed   *)
(* out exclusively.                                                         *)
QueryOk(q) == CompsOf(AllParts(q)) \subseteq reg /\ ~SelfConflict(q)

Written(s, q, H) ==
    [c \in Comp |->
        IF c \in ExclComps(q.get)
        THEN [h \in DOMAIN s[c] |-> IF h \in H THEN Bump(c, s[c][h]) ELSE s[c][h]]
        ELSE s[c]]

QueryAll(q, w) ==
    IF ~QueryOk(q) THEN res' = Panic({}) /\ UNCHANGED wvars
    ELSE LET H == AllMatches(store, q) IN
        /\ store' = IF w THEN Written(store, q, H) ELSE store
        /\ res' = Ok(H, {})
        /\ UNCHANGED <<live, queued, issued, reg, groups, free, top, idx>>

(* Deliberate deviation, kept as it is: a single-entity query that requires *)
(* nothing also matches handles that are not in the world.                  *)
QueryOne(q, h, w) ==
    IF ~QueryOk(q) THEN res' = Panic({}) /\ UNCHANGED wvars
    ELSE
        /\ store' = IF w /\ Matches(store, q, h) THEN Written(store, q, {h}) ELSE store
        /\ res' = Ok(IF Matches(store, q, h) THEN Yes ELSE No, {})
        /\ UNCHANGED <<live, queued, issued, reg, groups, free, top, idx>>

(* Writing through an exclusive view.                                       *)
WriteAll(c) ==
    /\ c \in reg
    /\ store' = [store EXCEPT ![c] = [h \in DOMAIN store[c] |-> Bump(c, store[c][h])]]
    /\ res' = Ok(<<>>, {})
    /\ UNCHANGED <<live, queued, issued, reg, groups, free, top, idx>>
WriteOne(c, h) ==
    /\ c \in reg
    /\ IF h \in DOMAIN store[c]
       THEN store' = [store EXCEPT ![c][h] = Bump(c, @)] /\ res' = Ok(store[c][h], {})
       ELSE store' = store /\ res' = Ok(-1, {})
    /\ UNCHANGED <<live, queued, issued, reg, groups, free, top, idx>>

------------------------------------------------------------------------------
(* Properties of the specification itself.                                  *)
TypeOK ==
    /\ live \subseteq issued /\ queued \subseteq issued
    /\ reg \subseteq Comp /\ DOMAIN store = Comp
(* C01, C04: in the world or queued, never both.                            *)
Disjoint == live \cap queued = {}
(* C06, C07: only live entities have components, of registered types.       *)
Owners == \A c \in Comp : DOMAIN store[c] \subseteq live /\ (c \notin reg => DOMAIN store[c] = {})
(* C17, C22: groups are nested families over registered types.              *)
GroupsRegistered == \A g \in groups : g \subseteq reg /\ Cardinality(g) >= 2
(* C02, C03: two handles alive or queued never share an index; freed        *)
(* indices are not in use; everything is below top.                         *)
Indices ==
    /\ DOMAIN idx = live \cup queued
    /\ \A h, k \in DOMAIN idx : idx[h] = idx[k] => h = k
    /\ \A k \in 1..Len(free) : free[k] < top /\ \A h \in DOMAIN idx : idx[h] # free[k]
    /\ \A h \in DOMAIN idx : idx[h] < top
=============================================================================
