------------------------------ MODULE WorldMC ------------------------------
(***************************************************************************)
(* World itself, explored: every public operation with every argument, on  *)
(* few entities and component types, registered or not, with every layout  *)
(* that can be set at any time, and with a destructor that panics.         *)
(*                                                                         *)
(* Values are left out here (all are 0, as if every type were zero-sized); *)
(* the walks that replay the transitions put values in.  Handles are       *)
(* numbers in the order in which they are issued, and indices are those    *)
(* that the reuse rule names.                                              *)
(***************************************************************************)
EXTENDS World

CONSTANTS
    MaxIssued,  \* handles issued between two resets
    Layouts,    \* the layouts that can be set: sets of groups
    MaxBulk,    \* items of an extend
    Extras      \* which operations are tried besides the plain ones: a
                \* subset of {"extend", "bombs", "queue", "relayout"}

VARIABLES op

mvars == <<vars, op>>

NeverRetired(h) == FALSE
Pair == {{}, {{0, 1}}}
Flat == {{}}
Nested == {{}, {{0, 1}}, {{0, 1}, {0, 1, 2}}, {{1, 2}}}

n == Cardinality(issued)
RECURSIVE Seq0(_)
Seq0(C) == IF C = {} THEN <<>>
           ELSE LET c == CHOOSE c \in C : \A d \in C : c <= d IN <<<<c, 0>>>> \o Seq0(C \ {c})
RECURSIVE Comps(_)
Comps(C) == IF C = {} THEN <<>>
            ELSE LET c == CHOOSE c \in C : \A d \in C : c <= d IN <<c>> \o Comps(C \ {c})

Handles == issued \cup {n + 1}   \* the last one was never issued

(* The indices of the next k creations.                                     *)
Nexts(k) == [i \in 1..k |-> IF i <= Len(free) THEN free[i] ELSE top + (i - Len(free)) - 1]
New_(k) == [i \in 1..k |-> n + i]

(* A destructor that panics: that of one of the values dropped.             *)
Drops == {<<t[1], t[2]>> : t \in res'.drops}

------------------------------------------------------------------------------
Creates ==
    /\ n < MaxIssued
    /\ \E C \in SUBSET Comp :
        /\ IF C \subseteq reg THEN Create(n + 1, NextFree, Seq0(C)) ELSE Unregistered(C, Seq0(C))
        /\ op' = <<"create", n + 1, C>>
Extends ==
    /\ "extend" \in Extras
    /\ \E C \in SUBSET Comp, k \in 0..MaxBulk, fails \in BOOLEAN :
        /\ n + k <= MaxIssued
        /\ LET items == [i \in 1..k |-> Seq0(C)] IN
           \* The unregistered types are noticed before the iterator is asked.
           IF C \subseteq reg THEN Extend(New_(k), Nexts(k), items, fails)
           ELSE res' = Panic({}) /\ UNCHANGED wvars
        /\ op' = <<"extend", k, C, fails>>
Atomic ==
    /\ "queue" \in Extras
    /\ \/ n < MaxIssued /\ CreateAtomic(n + 1, NextFree) /\ op' = <<"catomic", n + 1>>
       \/ Maintain /\ op' = <<"maintain">>
Inserts ==
    \E h \in Handles, C \in SUBSET Comp :
        /\ IF h \in live /\ ~(C \subseteq reg) THEN Unregistered(C, Seq0(C)) ELSE Insert(h, Seq0(C))
        /\ op' = <<"insert", h, C>>
Removes ==
    \E h \in Handles, C \in SUBSET Comp :
        /\ C # {}
        /\ IF C \subseteq reg THEN Remove(h, Comps(C)) ELSE h \in live /\ Unregistered(C, <<>>)
        /\ op' = <<"remove", h, C>>
Deletes ==
    \E h \in Handles, C \in SUBSET Comp :
        /\ C # {}
        /\ IF C \subseteq reg THEN Delete(h, C) ELSE h \in live /\ Unregistered(C, <<>>)
        /\ op' = <<"delete", h, C>>
Destroys == \E h \in Handles : Destroy(h) /\ op' = <<"destroy", h>>
Clears == \/ Clear /\ op' = <<"clear">>
          \/ Reset /\ op' = <<"reset">>
Layouts_ ==
    /\ "relayout" \in Extras
    /\ \E gs \in Layouts : SetLayout(gs) /\ op' = <<"setlayout", gs>>
Registers == \E c \in Comp : Register(c) /\ op' = <<"register", c>>

(* The same, and the destructor of one of the values dropped panics.        *)
Bombs ==
    /\ "bombs" \in Extras
    /\ \/ \E h \in live, C \in SUBSET Comp :
            /\ C # {} /\ C \subseteq reg
            /\ \/ Insert(h, Seq0(C)) /\ \E d \in Drops : op' = <<"insert", h, C, d>>
               \/ Delete(h, C) /\ \E d \in Drops : op' = <<"delete", h, C, d>>
       \/ \E h \in Handles \ live, C \in SUBSET Comp :
            Insert(h, Seq0(C)) /\ \E d \in Drops : op' = <<"insert", h, C, d>>
       \/ \E h \in live : Destroy(h) /\ \E d \in Drops : op' = <<"destroy", h, d>>
       \/ Clear /\ \E d \in Drops : op' = <<"clear", d>>
       \/ Reset /\ \E d \in Drops : op' = <<"reset", d>>

MInit == WorldInit({}, {}) /\ op = <<"new">>
MNext == Creates \/ Extends \/ Atomic \/ Inserts \/ Removes \/ Deletes \/ Destroys \/ Clears \/ Layouts_
         \/ Registers \/ Bombs
MSpec == MInit /\ [][MNext]_mvars

View == wvars

------------------------------------------------------------------------------
Inv == TypeOK /\ Disjoint /\ Owners /\ GroupsRegistered /\ Indices

Content == <<live, queued, issued, reg, groups, store, free, top, idx>>
OpIs(K) == op'[1] \in K
Named == op'[2]
(* C01: who is in the world changes as stated only.                         *)
Membership ==
    [][/\ live \ live' # {} => OpIs({"destroy", "clear", "reset"})
       /\ live' \ live # {} => OpIs({"create", "extend", "maintain"})
       /\ live' \ live \subseteq (issued' \ issued) \cup queued
       /\ OpIs({"destroy"}) => live \ live' \subseteq {Named}]_mvars
(* C02.                                                                     *)
NeverAgain == [][~OpIs({"reset"}) => issued \subseteq issued']_mvars
(* C04.                                                                     *)
Queue == [][/\ queued \ queued' # {} => OpIs({"maintain", "clear", "reset"})
            /\ OpIs({"maintain"}) => live' = live \cup queued /\ store' = store]_mvars
(* C06: what an operation does not name stays.                              *)
NothingElse ==
    [][\A c \in Comp, h \in issued :
         (h \in DOMAIN store[c]) # (h \in DOMAIN store'[c]) =>
            \/ OpIs({"clear", "reset"})
            \/ OpIs({"destroy"}) /\ h = Named
            \/ OpIs({"insert", "remove", "delete"}) /\ h = Named /\ c \in op'[3]]_mvars
(* C07.                                                                     *)
NoEffect == [][OpIs({"insert", "remove", "delete", "destroy"}) /\ Named \notin live => Content' = Content]_mvars
(* C08: what is neither held nor handed back was dropped.                   *)
Conserved ==
    [][LET in(s) == {<<c, h>> \in Comp \X issued : h \in DOMAIN s[c]}
           gone == in(store) \ in(store')
           out == IF OpIs({"remove"}) THEN {x \in gone : x[2] = Named} ELSE {}
       IN /\ gone \ out \subseteq {<<t[1], t[2]>> : t \in res'.drops}
          /\ \A t \in res'.drops : t[2] > 0 => <<t[1], t[2]>> \in in(store)]_mvars
(* C16, C22.                                                                *)
Relayout == [][OpIs({"setlayout"}) =>
                 /\ <<live, queued, issued, store, free, top, idx>>' = <<live, queued, issued, store, free, top, idx>>
                 /\ groups' = Named /\ reg' = reg \cup UNION Named]_mvars
Registered_ == [][/\ reg \subseteq reg'
                  /\ reg # reg' => OpIs({"register", "setlayout"})
                  /\ groups # groups' => OpIs({"setlayout"})]_mvars
(* C19: a call that panics by itself leaves everything as it is.            *)
Unchanged_ == [][res'.out = "panic" /\ ~(OpIs({"extend"}) /\ op'[3] \subseteq reg) => Content' = Content]_mvars
(* C20.                                                                     *)
Emptied == [][OpIs({"clear", "reset"}) =>
                /\ live' = {} /\ queued' = {} /\ \A c \in Comp : DOMAIN store'[c] = {}
                /\ reg' = reg /\ groups' = groups
                /\ OpIs({"clear"}) => issued' = issued /\ top' = top]_mvars
(* C21: a bulk creation is that many creations.                             *)
RECURSIVE After(_, _, _, _)
After(s, k, m, C) == IF k = 0 THEN s ELSE After(Put(s, m, Seq0(C)), k - 1, m + 1, C)
Bulk == [][OpIs({"extend"}) /\ op'[3] \subseteq reg =>
             /\ store' = After(store, op'[2], n + 1, op'[3])
             /\ live' = live \cup {n + i : i \in 1..op'[2]}]_mvars
=============================================================================
