------------------------------- MODULE Limits -------------------------------
(***************************************************************************)
(* What World says about handles, at the real limits: histories in which   *)
(* the four thousand million versions of an index, or all indices, are     *)
(* used up.  EntityAlloc explores the same exhaustively with small limits. *)
(*                                                                         *)
(* Such a history is recorded as runs: handles of one index with           *)
(* consecutive versions, or of consecutive indices with one version.       *)
(* Numbers are pairs, the upper and the lower sixteen bits.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT TraceFile

VARIABLES
    l,
    used,    \* the runs issued since the last reset
    live,    \* number of entities in the world
    queued,  \* number of queued entities
    gone     \* a creation has failed since the last reset

vars == <<l, used, live, queued, gone>>

Log == ndJsonDeserialize(TraceFile)
N == Len(Log)

Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Add(a, b) == LET s == a[2] + b[2] IN <<a[1] + b[1] + s \div 65536, s % 65536>>
Zero == <<0, 0>>
One == <<0, 1>>
Dec(a) == IF a[2] > 0 THEN <<a[1], a[2] - 1>> ELSE <<a[1] - 1, 65535>>

Reject(info) == PrintT(<<"REJECT", l, "fresh", info>>) /\ FALSE
Chk(c, info) == IF c THEN TRUE ELSE Reject(info)

Apart(r, s) == ~(/\ Le(r.i, s.i1) /\ Le(s.i, r.i1) /\ Le(r.v, s.v1) /\ Le(s.v, r.v1))

(* Handles that were issued before are not issued again.                    *)
Run(e) ==
    /\ Chk(\A r \in used : Apart(r, e), <<"issued before", used>>)
    \* With a later version than any before.
    /\ Chk(\A r \in used : Le(r.i, e.i1) /\ Le(e.i, r.i1) => Le(r.v1, e.v), <<"earlier version", used>>)
    /\ used' = used \cup {[i |-> e.i, i1 |-> e.i1, v |-> e.v, v1 |-> e.v1]}
    /\ live' = IF e.how = "create" THEN Add(live, e.n) ELSE live
    /\ queued' = IF e.how = "atomic" THEN Add(queued, e.n) ELSE queued
    /\ gone' = gone

Step ==
    /\ l <= N /\ l' = l + 1
    /\ LET e == Log[l] IN
        CASE e.ev = "run" -> Run(e)
          [] e.ev = "none" ->
                \* Nothing is left for a long time only.
                /\ Chk(\E r \in used : Le(<<65535, 0>>, r.i1), "creation fails")
                /\ gone' = TRUE /\ UNCHANGED <<used, live, queued>>
          [] e.ev = "maintain" -> live' = Add(live, queued) /\ queued' = Zero /\ UNCHANGED <<used, gone>>
          [] e.ev = "destroyed" ->
                /\ Chk(e.done, "destroy")
                /\ live' = Dec(live) /\ UNCHANGED <<used, queued, gone>>
          [] e.ev = "clear" -> live' = Zero /\ queued' = Zero /\ UNCHANGED <<used, gone>>
          [] e.ev = "reset" -> live' = Zero /\ queued' = Zero /\ used' = {} /\ gone' = FALSE
          [] e.ev = "live" ->
                /\ Chk(e.all /\ <<e.n \div 65536, e.n % 65536>> = live, <<"entities", live>>)
                /\ UNCHANGED <<used, live, queued, gone>>

Init == l = 1 /\ used = {} /\ live = Zero /\ queued = Zero /\ gone = FALSE
Spec == Init /\ [][Step]_vars
Report == PrintT(<<"DONE", TLCGet("stats").diameter - 1, N>>)
=============================================================================
