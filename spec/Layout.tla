------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The builder of group layouts, shaped like src/component/group_layout.rs:*)
(* families of nested groups, each kept as one list of component types of  *)
(* which the groups are the prefixes of the family's arities.              *)
(*                                                                         *)
(* The property (C17) is that a group is accepted exactly when it forms    *)
(* nested families with the groups accepted before, and that the families  *)
(* then are exactly the accepted groups.                                   *)
(*                                                                         *)
(* Defect # "" switches in one realistic mistake.  "order" and "merged"    *)
(* are defects the library had.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
    Comp,      \* component types, numbers in the order of their type ids
    MaxArity,  \* component types of a group
    MaxGroups, \* groups of a layout
    Defect

VARIABLES
    fams,      \* the code: a sequence of [cs, ar]
    groups,    \* the groups accepted so far
    op         \* the last call: <<group, accepted>>

vars == <<fams, groups, op>>

SetOf(s) == {s[i] : i \in 1..Len(s)}
Part(f, i, j) == {f.cs[k] : k \in (i + 1)..j}
Prev(f, i) == IF i = 1 THEN 0 ELSE f.ar[i - 1]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Sorted(S \ {x})
Insert(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
(* The elements of s in g first, in their order (a stable sort).            *)
Front(s, g) == SelectSeq(s, LAMBDA x : x \in g) \o SelectSeq(s, LAMBDA x : x \notin g)

(* The arities in order: where a smaller group is not part of the new one,  *)
(* or a larger one does not contain it, they are incompatible.              *)
Fail == [r |-> "panic"]
RECURSIVE Scan(_, _, _)
Scan(f, g, i) ==
    LET n == Cardinality(g) IN
    IF i > Len(f.ar)
    THEN [r |-> "yes", f |-> [cs |-> f.cs \o Sorted(g \ SetOf(f.cs)), ar |-> Append(f.ar, n)]]
    ELSE LET a == f.ar[i]
             new == Part(f, Prev(f, i), a)
         IN
         IF a < n THEN
            IF ~(IF Defect = "order" THEN g \subseteq Part(f, 0, a) ELSE new \subseteq g)
            THEN Fail ELSE Scan(f, g, i + 1)
         ELSE IF a = n THEN
            IF ~(new \subseteq g) THEN Fail
            ELSE [r |-> "yes", f |-> IF Defect = "again" THEN [f EXCEPT !.ar = Insert(@, i, n)] ELSE f]
         ELSE
            IF ~(g \subseteq (IF Defect = "whole" THEN SetOf(f.cs) ELSE Part(f, 0, a))) THEN Fail
            ELSE [r |-> "yes",
                  f |-> [cs |-> IF Defect = "unsorted" THEN f.cs
                                ELSE Front(SubSeq(f.cs, 1, a), g) \o SubSeq(f.cs, a + 1, Len(f.cs)),
                         ar |-> Insert(f.ar, i, n)]]

TryAdd(f, g) ==
    IF (IF Defect = "first" THEN f.cs[1] \notin g ELSE SetOf(f.cs) \cap g = {})
    THEN [r |-> "no", f |-> f]
    ELSE Scan(f, g, 1)

Added(fs, g) ==
    IF Cardinality(g) <= 1 THEN [ok |-> TRUE, fs |-> fs]
    ELSE IF Cardinality(g) > MaxArity THEN [ok |-> FALSE, fs |-> fs]
    ELSE LET t == [i \in 1..Len(fs) |-> TryAdd(fs[i], g)]
             n == Cardinality({i \in 1..Len(fs) : t[i].r = "yes"})
             \* A panic leaves what was done so far to the copy behind.
             after == [i \in 1..Len(fs) |-> IF t[i].r = "yes" THEN t[i].f ELSE fs[i]]
             kept == IF Defect = "merged" THEN after ELSE fs
         IN
         IF \E i \in 1..Len(fs) : t[i].r = "panic" THEN [ok |-> FALSE, fs |-> kept]
         ELSE IF n = 0 THEN [ok |-> TRUE, fs |-> Append(fs, [cs |-> Sorted(g), ar |-> <<Cardinality(g)>>])]
         ELSE IF n = 1 \/ Defect = "several" THEN [ok |-> TRUE, fs |-> after]
         ELSE [ok |-> FALSE, fs |-> kept]

RECURSIVE Count(_)
Count(fs) == IF fs = <<>> THEN 0 ELSE Len(Head(fs).ar) + Count(Tail(fs))

(* The families after the call, and whether it returned: the number of      *)
(* groups is looked at last.                                                *)
Add(fs, g) ==
    LET r == Added(fs, g) IN
    IF Defect # "unlimited" /\ r.ok /\ Count(r.fs) > MaxGroups THEN [ok |-> FALSE, fs |-> fs] ELSE r

------------------------------------------------------------------------------
(* The rule.                                                                *)
Nested(a, b) == a \subseteq b \/ b \subseteq a
Apart(a, b) == a \cap b = {}
Compatible(gs, g) ==
    /\ (g \in gs \/ Cardinality(gs) < MaxGroups)
    /\ \A a \in gs : Nested(a, g) \/ Apart(a, g)
    /\ \A a, b \in gs \cup {g} : \A c \in gs \cup {g} : a \subseteq c /\ b \subseteq c => Nested(a, b)

Init == fams = <<>> /\ groups = {} /\ op = <<>>

Next ==
    \E g \in SUBSET Comp :
        LET r == Add(fams, g) IN
        /\ fams' = r.fs
        /\ groups' = IF r.ok /\ Cardinality(g) > 1 THEN groups \cup {g} ELSE groups
        /\ op' = <<g, r.ok>>

Spec == Init /\ [][Next]_vars
View == <<fams, groups>>

------------------------------------------------------------------------------
Decided == [][LET g == op'[1] IN
              op'[2] <=> (Cardinality(g) <= 1 \/ (Cardinality(g) <= MaxArity /\ Compatible(groups, g)))]_vars
(* The prefixes are the groups, and nothing else.                           *)
Declared ==
    /\ UNION {{Part(fams[i], 0, fams[i].ar[j]) : j \in 1..Len(fams[i].ar)} : i \in 1..Len(fams)} = groups
(* What the storage relies on.                                              *)
WellFormed ==
    \A i \in 1..Len(fams) :
        LET f == fams[i] IN
        /\ Len(f.cs) = Cardinality(SetOf(f.cs))
        /\ f.ar[Len(f.ar)] = Len(f.cs)
        /\ f.ar[1] >= 2
        /\ \A j \in 1..(Len(f.ar) - 1) : f.ar[j] < f.ar[j + 1]
        /\ \A k \in 1..Len(fams) : k # i => SetOf(f.cs) \cap SetOf(fams[k].cs) = {}
=============================================================================
