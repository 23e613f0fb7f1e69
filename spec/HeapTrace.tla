----------------------------- MODULE HeapTrace ------------------------------
(***************************************************************************)
(* Decides whether what a world asked of the allocator, as recorded call   *)
(* by call, keeps the invariants of Heap: a block is given back once, as   *)
(* it was asked for (Matched); none is out when the world is gone          *)
(* (Returned); and while it is there, blocks are in proportion to the      *)
(* largest population there has been, see there (Bounded).                 *)
(*                                                                         *)
(* A record is a call, with the requests made during it in their order:    *)
(* <<"a", block, size, align>>, <<"f", block, size, align>> and            *)
(* <<"r", block, size, align, new block, new size>>.  Block 0 is memory    *)
(* that was not asked for in any call.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    TraceFile,
    Fixed,      \* bytes for a world without entities
    Each        \* bytes for each entity

VARIABLES
    l,
    out,        \* blocks that are out: [block -> <<size, align>>]
    alive,      \* entities, queued ones too
    peak, past, most    \* as in Heap

Log == ndJsonDeserialize(TraceFile)
N == Len(Log)

Reject(aspect, info) == PrintT(<<"REJECT", l, aspect, info>>) /\ FALSE
Chk(c, aspect, info) == IF c THEN TRUE ELSE Reject(aspect, info)

Fits(o, r) == r[2] \in DOMAIN o /\ o[r[2]] = <<r[3], r[4]>>
Less(o, b) == [x \in DOMAIN o \ {b} |-> o[x]]

(* The blocks that are out after the first k requests, or <<r>> where       *)
(* request r is not allowed.                                                *)
RECURSIVE After(_, _, _)
After(o, h, k) ==
    IF k > Len(h) THEN [ok |-> TRUE, out |-> o]
    ELSE LET r == h[k] IN
        IF r[1] = "a" THEN
            IF r[3] > 0 /\ r[2] \notin DOMAIN o THEN After((r[2] :> <<r[3], r[4]>>) @@ o, h, k + 1)
            ELSE [ok |-> FALSE, r |-> r]
        ELSE IF ~Fits(o, r) THEN [ok |-> FALSE, r |-> r]
        ELSE IF r[1] = "f" THEN After(Less(o, r[2]), h, k + 1)
        ELSE IF r[6] > 0 THEN After((r[5] :> <<r[6], r[4]>>) @@ Less(o, r[2]), h, k + 1)
        ELSE [ok |-> FALSE, r |-> r]

RECURSIVE Bytes(_, _)
Bytes(o, S) == IF S = {} THEN 0 ELSE LET b == CHOOSE x \in S : TRUE IN o[b][1] + Bytes(o, S \ {b})

Step ==
    /\ l <= N /\ l' = l + 1
    /\ LET e == Log[l]
           a == After(out, e.heap, 1)
       IN
        /\ Chk(a.ok, "matched", IF a.ok THEN <<>> ELSE a.r)
        /\ out' = a.out
        /\ alive' = (IF e.ev \in {"create", "extend", "queue"} THEN alive + e.n
                     ELSE IF e.ev = "destroy" THEN alive - e.n
                     ELSE IF e.ev \in {"clear", "reset", "drop"} THEN 0
                     ELSE alive)
        /\ peak' = (IF e.ev \in {"clear", "reset", "drop"} THEN 0 ELSE IF alive' > peak THEN alive' ELSE peak)
        /\ past' = (IF e.ev = "clear" THEN past + peak ELSE IF e.ev \in {"reset", "drop"} THEN 0 ELSE past)
        /\ most' = (IF e.ev = "drop" THEN 0 ELSE IF past' + peak' > most THEN past' + peak' ELSE most)
        /\ Chk(e.ev = "drop" => out' = <<>>, "returned", out')
        /\ Chk(Bytes(out', DOMAIN out') <= Fixed + Each * most', "bounded",
               <<most', Cardinality(DOMAIN out'), Bytes(out', DOMAIN out')>>)

Init == l = 1 /\ out = <<>> /\ alive = 0 /\ peak = 0 /\ past = 0 /\ most = 0
Spec == Init /\ [][Step]_<<l, out, alive, peak, past, most>>
Report == PrintT(<<"DONE", TLCGet("stats").diameter - 1, N>>)
=============================================================================
