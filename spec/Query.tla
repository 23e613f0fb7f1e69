------------------------------- MODULE Query -------------------------------
(***************************************************************************)
(* What a sparsey query means.                                             *)
(*                                                                         *)
(* A query part is a pair <<kind, component>>.  Kinds:                     *)
(*   "ent"   Entity                (yields the handle, constrains nothing) *)
(*   "ref"   &T        "mut"  &mut T        (required)                     *)
(*   "oref"  Option<&T>  "omut"  Option<&mut T>  (optional)                *)
(* A query is a record [get, inc, exc] of sequences of parts.              *)
(*                                                                         *)
(* `store` is a function component -> (handle -> value), partial in the    *)
(* second argument: DOMAIN store[c] is the set of entities that have c.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Required(p) == p[1] = "ref" \/ p[1] = "mut"
Exclusive(p) == p[1] = "mut" \/ p[1] = "omut"
HasComp(p) == p[1] # "ent"

ReqParts(ps)  == SelectSeq(ps, Required)
ReqComps(ps)  == {ps[i][2] : i \in {j \in 1..Len(ps) : Required(ps[j])}}
CompsOf(ps)   == {ps[i][2] : i \in {j \in 1..Len(ps) : HasComp(ps[j])}}
ExclComps(ps) == {ps[i][2] : i \in {j \in 1..Len(ps) : Exclusive(ps[j])}}
AllParts(q)   == q.get \o q.inc \o q.exc
Trivial(ps)   == \E i \in 1..Len(ps) : ~Required(ps[i])

(* A query that takes exclusive access to a component type it names twice  *)
(* conflicts with itself.                                                  *)
SelfConflict(q) ==
    LET ps == AllParts(q) IN
    \E i, j \in 1..Len(ps) :
        /\ i # j
        /\ HasComp(ps[i]) /\ HasComp(ps[j])
        /\ ps[i][2] = ps[j][2]
        /\ Exclusive(ps[i])

(* Filters.  A part that matches every entity ("ent", "oref", "omut") can  *)
(* be satisfied by everything and can be absent from nothing.              *)
MatchesAll(store, ps, h)  == \A c \in ReqComps(ps) : h \in DOMAIN store[c]
MatchesNone(store, ps, h) == ~Trivial(ps) /\ \A c \in ReqComps(ps) : h \notin DOMAIN store[c]

Matches(store, q, h) ==
    /\ MatchesNone(store, q.exc, h)
    /\ MatchesAll(store, q.inc, h)
    /\ MatchesAll(store, q.get, h)

(* Deliberate deviation of the library, kept as it is: a query over all    *)
(* entities that requires no component has nothing to iterate and yields   *)
(* nothing, although every entity satisfies it.                            *)
Iterable(q) == ReqComps(q.get) \cup ReqComps(q.inc) # {}

(* The entities a query over all entities yields.  Candidates are taken    *)
(* from one required component, which is enough as all are required.       *)
AllMatches(store, q) ==
    IF ~Iterable(q) THEN {}
    ELSE LET c == CHOOSE c \in ReqComps(q.get) \cup ReqComps(q.inc) : TRUE
         IN  {h \in DOMAIN store[c] : Matches(store, q, h)}

(* One item.  -1 stands for an absent optional component.                  *)
Cell(store, p, h) ==
    IF p[1] = "ent" THEN h
    ELSE IF h \in DOMAIN store[p[2]] THEN store[p[2]][h] ELSE -1
Row(store, ps, h) == [i \in 1..Len(ps) |-> Cell(store, ps[i], h)]

(* Slices have no columns for optional parts.                              *)
Sliced(p) == p[1] = "ent" \/ Required(p)
SliceRow(store, ps, h) == Row(store, SelectSeq(ps, Sliced), h)

(* Queries that are guaranteed to be dense, given the set of groups.       *)
MustBeDense(groups, q) ==
    LET ps == ReqParts(q.get \o q.inc)
        P  == ReqComps(q.get \o q.inc)
    IN  \/ q.exc = <<>> /\ (Len(ps) = 1 \/ P \in groups)
        \/ /\ Len(q.exc) = 1 /\ Required(q.exc[1])
           /\ P \in groups
           /\ P \cup {q.exc[1][2]} \in groups
           /\ q.exc[1][2] \notin P
=============================================================================
