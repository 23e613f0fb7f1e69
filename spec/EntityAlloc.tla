---------------------------- MODULE EntityAlloc ----------------------------
(***************************************************************************)
(* The entity allocator and the entity set, shaped like                    *)
(* src/entity/entity_allocator.rs and entity_storage.rs, at the grain of   *)
(* single atomic operations.                                               *)
(*                                                                         *)
(* Threads share the world and queue creations with create_atomic: a load  *)
(* and a compare-exchange loop on `rsm`, then one on `next`.  All atomics  *)
(* are relaxed, so a load may return any value the counter had since the   *)
(* shared phase began, in an order each thread sees as increasing.  The    *)
(* exclusive operations need &mut World, so they run when no thread is     *)
(* inside create_atomic.                                                   *)
(*                                                                         *)
(* The main property is refinement: every step is a step of World, for     *)
(* the handles, indices and versions it issues (C01 to C05, C20).          *)
(*                                                                         *)
(* Defect # "" switches in one realistic mistake, to show that the         *)
(* properties can fail; "resurrect" is the defect the library had.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
    Threads,
    MaxIndex,  \* number of indices (2^32 in the library)
    Yes, No,
    MaxVer,    \* last version (2^32 - 1 in the library)
    Stale,     \* whether loads may return outdated values
    Defect

VARIABLES
    next,      \* next_index_to_allocate
    lastm,     \* last_maintained_index
    recycled,  \* recycled, front first; allocation takes from the back
    rsm,       \* recycled_since_maintain
    pending,   \* queued
    ents,      \* the entity sparse set, as the set of its handles
    pc,        \* thread -> where it is in allocate_atomic
    prev,      \* thread -> its local `prev`
    \* What callers know.
    live, queued, issued, free, top, res,
    op         \* the kind of the last operation to have completed

code == <<next, lastm, recycled, rsm, pending, ents, pc, prev>>
ghost == <<op, live, queued, issued, free, top, res>>
vars == <<code, ghost>>

Handles == (0..(MaxIndex-1)) \X (1..MaxVer)
First(i) == <<i, 1>>
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Set(s) == {s[k] : k \in 1..Len(s)}
LastVersionOf(h) == h[2] = MaxVer

Ok(ret) == [out |-> "ok", ret |-> ret, drops |-> {}]
Fail == [out |-> "panic", ret |-> <<>>, drops |-> {}]

Init ==
    /\ next = 0 /\ lastm = 0 /\ recycled = <<>> /\ rsm = 0 /\ pending = <<>> /\ ents = {}
    /\ pc = [t \in Threads |-> "idle"] /\ prev = [t \in Threads |-> 0]
    /\ live = {} /\ queued = {} /\ issued = {} /\ free = <<>> /\ top = 0 /\ res = Ok(<<>>) /\ op = <<"init">>

------------------------------------------------------------------------------
(* What callers see of a creation: see World.                               *)
Takes(h) ==
    /\ issued' = issued \cup {h}
    /\ IF \E k \in 1..Len(free) : free[k] = h[1]
       THEN free' = SelectSeq(free, LAMBDA x : x # h[1]) /\ top' = top
       ELSE free' = free /\ top' = IF h[1] >= top THEN h[1] + 1 ELSE top
    /\ res' = Ok(<<h>>)

------------------------------------------------------------------------------
(* create_atomic on a shared world.                                         *)
Loads(lo, hi) == IF Stale THEN lo..hi ELSE {hi}
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Begin(t) ==
    /\ pc[t] = "idle"
    /\ Goto(t, "cas_r")
    /\ \E v \in Loads(0, rsm) : prev' = [prev EXCEPT ![t] = v]
    /\ UNCHANGED <<next, lastm, recycled, rsm, pending, ents, ghost>>

CasRecycled(t) ==
    /\ pc[t] = "cas_r"
    /\ UNCHANGED <<next, lastm, recycled, pending, ents, live>>
    /\ IF prev[t] < Len(recycled)
       THEN \/ \* success
               /\ Defect = "race" \/ rsm = prev[t]
               /\ rsm' = prev[t] + 1
               /\ LET h == recycled[Len(recycled) - prev[t]] IN
                    queued' = queued \cup {h} /\ Takes(h)
               /\ op' = <<"create_atomic">>
               /\ Goto(t, "idle") /\ UNCHANGED prev
            \/ \* failure, possibly spurious, with a possibly outdated value
               /\ \E v \in Loads(prev[t], rsm) : prev' = [prev EXCEPT ![t] = v]
               /\ UNCHANGED <<rsm, queued, issued, free, top, res, op, pc>>
       ELSE /\ Goto(t, "load_n") /\ UNCHANGED <<prev, rsm, queued, issued, free, top, res, op>>

LoadNext(t) ==
    /\ pc[t] = "load_n"
    /\ \E v \in Loads(lastm, next) : prev' = [prev EXCEPT ![t] = v]
    /\ Goto(t, "cas_n")
    /\ UNCHANGED <<next, lastm, recycled, rsm, pending, ents, ghost>>

CasNext(t) ==
    /\ pc[t] = "cas_n"
    /\ UNCHANGED <<lastm, recycled, rsm, pending, ents, live>>
    /\ IF prev[t] < MaxIndex
       THEN \/ /\ Defect = "race_next" \/ next = prev[t]
               /\ next' = prev[t] + 1
               /\ queued' = queued \cup {First(prev[t])}
               /\ Takes(First(prev[t]))
               /\ op' = <<"create_atomic">>
               /\ Goto(t, "idle") /\ UNCHANGED prev
            \/ /\ \E v \in Loads(prev[t], next) : prev' = [prev EXCEPT ![t] = v]
               /\ UNCHANGED <<next, queued, issued, free, top, res, op, pc>>
       ELSE /\ res' = Fail /\ op' = <<"create_atomic">>
            /\ Goto(t, "idle")
            /\ UNCHANGED <<next, prev, queued, issued, free, top>>

------------------------------------------------------------------------------
(* Exclusive operations.                                                    *)
Exclusive == \A t \in Threads : pc[t] = "idle"

(* What drain_atomic yields, and what it leaves.                            *)
Drained == SubSeq(recycled, Len(recycled) - rsm + 1, Len(recycled))
           \o [k \in 1..(next - lastm) |-> First(lastm + k - 1)]
Left == SubSeq(recycled, 1, Len(recycled) - rsm)

Create ==
    /\ Exclusive /\ op' = <<"create">>
    /\ LET r == IF Defect = "resurrect" THEN recycled ELSE Left
           wasted == IF Defect = "resurrect" THEN rsm ELSE 0 IN
       IF Defect = "resurrect" /\ rsm > 0 /\ Len(recycled) > 0
       THEN \* The library used to skip what is handed out, but keep it for maintain.
            /\ LET h == IF rsm < Len(recycled) THEN recycled[Len(recycled) - rsm] ELSE First(next) IN
                 /\ rsm' = IF rsm < Len(recycled) THEN rsm + 1 ELSE rsm
                 /\ next' = IF rsm < Len(recycled) THEN next ELSE next + 1
                 /\ rsm < Len(recycled) \/ next < MaxIndex
                 /\ ents' = ents \cup {h} /\ live' = live \cup {h} /\ Takes(h)
            /\ UNCHANGED <<lastm, recycled, pending, queued>>
       ELSE
        /\ pending' = pending \o Drained
        /\ rsm' = 0
        /\ IF r # <<>>
           THEN LET h == IF Defect = "lifo" THEN r[1] ELSE r[Len(r)] IN
                /\ recycled' = IF Defect = "lifo" THEN Tail(r) ELSE SubSeq(r, 1, Len(r) - 1)
                /\ lastm' = next /\ UNCHANGED next
                /\ ents' = ents \cup {h} /\ live' = live \cup {h} /\ Takes(h)
           ELSE /\ recycled' = r
                /\ IF next < MaxIndex
                   THEN /\ next' = next + 1 /\ lastm' = next + 1
                        /\ ents' = ents \cup {First(next)} /\ live' = live \cup {First(next)}
                        /\ Takes(First(next))
                   ELSE /\ UNCHANGED <<next, ents, live, issued, free, top>>
                        /\ lastm' = next
                        /\ res' = Fail
        /\ UNCHANGED queued
    /\ UNCHANGED <<pc, prev>>

Maintain ==
    /\ Exclusive /\ op' = <<"maintain">>
    /\ ents' = ents \cup Set(pending) \cup Set(Drained)
    /\ pending' = IF Defect = "keep_pending" THEN pending ELSE <<>>
    /\ rsm' = 0 /\ recycled' = Left /\ lastm' = next
    /\ live' = live \cup queued /\ queued' = {} /\ res' = Ok(<<>>)
    /\ UNCHANGED <<next, pc, prev, issued, free, top>>

Destroy(h) ==
    /\ Exclusive /\ op' = <<"destroy", h>>
    /\ IF h \in ents
       THEN /\ ents' = ents \ {h}
            /\ recycled' = IF h[2] < MaxVer
                           THEN <<<<h[1], IF Defect = "same_version" THEN h[2] ELSE h[2] + 1>>>> \o recycled
                           ELSE IF Defect = "wrap" THEN <<First(h[1])>> \o recycled
                           ELSE recycled
       ELSE UNCHANGED <<ents, recycled>>
    /\ IF h \in live
       THEN /\ live' = live \ {h}
            /\ free' = IF LastVersionOf(h) THEN free ELSE Append(free, h[1])
            /\ res' = Ok(IF h \in ents THEN Yes ELSE No)
       ELSE /\ UNCHANGED <<live, free>> /\ res' = Ok(IF h \in ents THEN Yes ELSE No)
    /\ UNCHANGED <<next, lastm, rsm, pending, pc, prev, queued, issued, top>>

Clear ==
    /\ Exclusive /\ op' = <<"clear">>
    /\ IF Defect = "clear_keeps"
       THEN UNCHANGED <<pending, rsm, recycled, lastm>>
       ELSE pending' = <<>> /\ rsm' = 0 /\ recycled' = Left /\ lastm' = next
    /\ ents' = {}
    /\ live' = {} /\ queued' = {} /\ res' = Ok(<<>>)
    /\ UNCHANGED <<next, pc, prev, issued, free, top>>

Reset ==
    /\ Exclusive /\ op' = <<"reset">>
    /\ next' = 0 /\ lastm' = 0 /\ rsm' = 0 /\ pending' = <<>> /\ ents' = {}
    /\ recycled' = IF Defect = "reset_keeps" THEN recycled ELSE <<>>
    /\ live' = {} /\ queued' = {} /\ issued' = {} /\ free' = <<>> /\ top' = 0 /\ res' = Ok(<<>>)
    /\ UNCHANGED <<pc, prev>>

(* create_atomic without interference, as one step.                         *)
CreateAtomic ==
    /\ op' = <<"create_atomic">>
    /\ UNCHANGED <<lastm, recycled, pending, ents, pc, prev, live>>
    /\ IF rsm < Len(recycled)
       THEN LET h == recycled[Len(recycled) - rsm] IN
            rsm' = rsm + 1 /\ queued' = queued \cup {h} /\ Takes(h) /\ UNCHANGED next
       ELSE IF next < MaxIndex
       THEN next' = next + 1 /\ queued' = queued \cup {First(next)} /\ Takes(First(next)) /\ UNCHANGED rsm
       ELSE res' = Fail /\ UNCHANGED <<next, rsm, queued, issued, free, top>>

NextSeq ==
    \/ Create \/ CreateAtomic \/ Maintain \/ Clear \/ Reset
    \/ \E h \in issued : Destroy(h)
SpecSeq == Init /\ [][NextSeq]_vars

Next ==
    \/ \E t \in Threads : Begin(t) \/ CasRecycled(t) \/ LoadNext(t) \/ CasNext(t)
    \/ Create \/ Maintain \/ Clear \/ Reset
    \/ \E h \in Handles : Destroy(h)

Spec == Init /\ [][Next]_vars
(* A thread inside create_atomic keeps running; a compare-exchange that      *)
(* could succeed again and again eventually does; a retry eventually sees   *)
(* the current value.                                                       *)
Step(t) == CasRecycled(t) \/ LoadNext(t) \/ CasNext(t)
Current(t) == prev[t] = IF pc[t] = "cas_r" THEN rsm ELSE next
FairSpec ==
    /\ Spec
    /\ \A t \in Threads :
        /\ WF_vars(Step(t))
        /\ SF_vars(Step(t) /\ pc'[t] # pc[t])
        /\ SF_vars(Step(t) /\ pc'[t] = pc[t] /\ ~Current(t) /\ Current(t)')

------------------------------------------------------------------------------
(* Refinement of World.                                                     *)
NoComp == {}
Idx == [h \in live \cup queued |-> h[1]]
W == INSTANCE World WITH
        Comp <- NoComp, Zst <- NoComp, Retired <- LastVersionOf,
        reg <- {}, groups <- {}, store <- [c \in {} |-> <<>>],
        idx <- Idx

(* The version of a reused index is later than all before it.               *)
Later(h) == \A k \in issued : k[1] = h[1] => k[2] < h[2]

WorldNext ==
    CASE op'[1] \in {"create", "create_atomic"} ->
            \/ \E h \in Handles :
                /\ h[1] = W!NextFree /\ Later(h)
                /\ IF op'[1] = "create" THEN W!Create(h, h[1], <<>>) ELSE W!CreateAtomic(h, h[1])
            \/ W!Exhausted(MaxIndex)
      [] op'[1] = "destroy" -> W!Destroy(op'[2])
      [] op'[1] = "maintain" -> W!Maintain
      [] op'[1] = "clear" -> W!Clear
      [] op'[1] = "reset" -> W!Reset
      [] OTHER -> FALSE

Refines == [][WorldNext]_ghost

(* The code's own state agrees with what callers know.                      *)
InWorld == ents = live
Recycled == /\ Exclusive => {h[1] : h \in Set(Left)} = Set(free)
            /\ \A k \in 1..Len(Left) : Left[k][1] = Rev(free)[k]
Queue == queued = Set(pending) \cup Set(Drained)
Counters == /\ rsm <= Len(recycled) /\ lastm <= next /\ next <= MaxIndex /\ top = next
Abstract == W!TypeOK /\ W!Disjoint /\ W!Indices

(* Index space (C03): without clears and retirements, never more indices    *)
(* than the most entities alive or queued at one time; here as: a new index *)
(* is only taken when every index is in use.                                *)
Tight == \A i \in 0..(top - 1) :
            (\E h \in live \cup queued : h[1] = i) \/ i \in Set(free)
            \/ \E h \in issued : h[1] = i  \* given up by clear, or retired

(* Every call returns.                                                      *)
Returns == \A t \in Threads : pc[t] # "idle" ~> pc[t] = "idle"
=============================================================================
