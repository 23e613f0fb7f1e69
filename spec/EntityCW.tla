------------------------------ MODULE EntityCW ------------------------------
(* Prints every transition of EntityAlloc, the steps of its threads         *)
(* included, as JSON: schedules to replay in the code.  Loads return the    *)
(* current value, and a compare-exchange fails when its `prev` is outdated, *)
(* which is what a schedule can bring about.                                *)
EXTENDS EntityAlloc, Json, TLCExt

(* Threads only begin what can succeed: the indices of the library do not   *)
(* run out.                                                                 *)
Room == Cardinality({t \in Threads : pc[t] # "idle"}) < Len(free) + (MaxIndex - top)
NextCW ==
    \/ \E t \in Threads :
        \/ Room /\ Begin(t)
        \/ LoadNext(t)
        \/ CasRecycled(t) /\ (pc'[t] = "cas_r" => rsm # prev[t])
        \/ CasNext(t) /\ (pc'[t] = "cas_n" => next # prev[t])
    \/ Create \/ Maintain \/ Clear \/ Reset
    \/ \E h \in issued : Destroy(h)
SpecCW == Init /\ [][NextCW]_vars

(* `prev` only matters to a compare-exchange.                               *)
Local == [t \in Threads |-> IF pc[t] \in {"cas_r", "cas_n"} THEN prev[t] ELSE 0]
View == <<next, lastm, recycled, rsm, pending, ents, pc, Local, live, queued, issued, free, top>>
Key == <<TLCFP(View)>>
Moved == {t \in Threads : pc'[t] # pc[t] \/ prev'[t] # prev[t]}
Emit ==
    PrintT("T " \o ToJson(<<Key,
        IF Moved = {} THEN op'
        ELSE LET t == CHOOSE t \in Threads : t \in Moved IN
             <<"step", t, IF pc'[t] = "idle" THEN "done"
                          ELSE IF pc[t] = "cas_r" /\ pc'[t] = "load_n" THEN "local" ELSE "go">>,
        IF res'.out = "panic" THEN <<"panic">> ELSE res'.ret, Key'>>))
=============================================================================
