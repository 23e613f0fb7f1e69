-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* The memory a world holds.                                               *)
(*                                                                         *)
(* Shaped like the code: the entities, the indices to reuse and every      *)
(* component type have a buffer, which grows by doubling and is moved when *)
(* it grows.  What users see is `heap`, the blocks that are out.           *)
(*                                                                         *)
(* Entities are counted by what they have.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
    Type,       \* component types
    Layouts,    \* group layouts, as sets of sets of types
    Max,        \* entities at once, queued ones too
    Defect      \* a mistake to switch in, or ""

Owner == Type \cup {"entities", "free"}
Sets == SUBSET Type

VARIABLES
    phase,      \* "none", "live" or "over"
    count,      \* [Sets -> Nat]: entities that have just these types
    queued,     \* entities that are created at the next maintain
    ids,        \* indices handed out so far
    free,       \* indices to reuse
    layout,     \* the group layout
    known,      \* types that are registered
    cap,        \* [Owner -> Nat]: sizes of the buffers
    heap,       \* [Owner -> Seq(Nat)]: blocks that are out
    bad,        \* something was freed that was not out
    peak,       \* most entities at once, since the last clear
    past,       \* the same of earlier times, which ended with a clear
    most,       \* the largest sum of both so far
    op          \* the operation

vars == <<phase, count, queued, ids, free, layout, known, cap, heap, bad, peak, past, most, op>>
View == <<phase, count, queued, ids, free, layout, known, cap, heap, bad, peak, past, most>>

RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET s == CHOOSE t \in S : TRUE IN f[s] + Total(f, S \ {s})
Alive(c) == Total(c, Sets)
Has(c, t) == Total(c, {s \in Sets : t \in s})

(* ---- buffers ------------------------------------------------------------ *)
RECURSIVE Double(_, _)
Double(c, need) == IF c >= need THEN c ELSE Double(IF c = 0 THEN 1 ELSE 2 * c, need)

Without(s, x) ==
    LET k == CHOOSE j \in DOMAIN s : s[j] = x IN SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Out(s, x) == \E j \in DOMAIN s : s[j] = x

(* How much every owner needs.                                              *)
Need(o, c, f) ==
    IF o = "entities" THEN Alive(c)
    ELSE IF o = "free" THEN f
    ELSE Has(c, o)

(* Grows what is too small for a population.                                *)
Grow(c, f) ==
    LET new == [o \in Owner |-> Double(cap[o], Need(o, c, f))]
        grown == {o \in Owner : new[o] # cap[o]}
        \* Freed with another size than it was asked for.
        size(o) == IF Defect = "free_new_size" THEN new[o] ELSE cap[o]
    IN
    /\ cap' = new
    /\ heap' = [o \in Owner |->
                  IF o \notin grown THEN heap[o]
                  ELSE Append(IF cap[o] = 0 \/ Defect = "grow_keeps_old" \/ ~Out(heap[o], size(o)) THEN heap[o]
                              ELSE Without(heap[o], size(o)), new[o])]
    /\ bad' = (bad \/ \E o \in grown : cap[o] # 0 /\ ~Out(heap[o], size(o)))

(* The buffers of some owners are given back.                               *)
Release(os) ==
    /\ cap' = [o \in Owner |-> IF o \in os THEN 0 ELSE cap[o]]
    /\ heap' = [o \in Owner |-> IF o \in os /\ Out(heap[o], cap[o]) THEN Without(heap[o], cap[o]) ELSE heap[o]]
    /\ bad' = (bad \/ \E o \in os : (IF Defect = "free_empty" THEN TRUE ELSE cap[o] # 0) /\ ~Out(heap[o], cap[o]))

Max2(x, y) == IF x > y THEN x ELSE y

(* n indices are handed out.                                                *)
Hand(n) ==
    LET old == IF Defect = "never_reused" THEN 0 ELSE IF free < n THEN free ELSE n IN
    /\ free' = free - old
    /\ ids' = ids + n - old

Noted(c, q) ==
    /\ peak' = Max2(peak, Alive(c) + q)
    /\ past' = past
    /\ most' = Max2(most, past' + peak')

Populated(c) ==
    /\ count' = c
    /\ Noted(c, queued')
    /\ Grow(c, free')

(* ---- operations --------------------------------------------------------- *)
Empty == [s \in Sets |-> 0]

New(g) ==
    /\ phase = "none"
    /\ phase' = "live" /\ layout' = g /\ known' = UNION g
    /\ UNCHANGED <<count, queued, ids, free, cap, heap, bad, peak, past, most>>
    /\ op' = <<"new", g>>

Live == phase = "live" /\ phase' = phase

Extend(s, n) ==
    /\ Live /\ s \subseteq known
    /\ Alive(count) + queued + n <= Max
    /\ Hand(n)
    /\ UNCHANGED <<queued, layout, known>>
    /\ Populated([count EXCEPT ![s] = @ + n])
    /\ op' = <<"extend", n, s>>

Queue(n) ==
    /\ Live
    /\ Alive(count) + queued + n <= Max
    /\ Hand(n)
    /\ queued' = queued + n
    /\ Noted(count, queued')
    /\ UNCHANGED <<count, layout, known, cap, heap, bad>>
    /\ op' = <<"queue", n>>

Maintain ==
    /\ Live /\ queued > 0
    /\ queued' = 0
    /\ UNCHANGED <<ids, free, layout, known>>
    /\ Populated([count EXCEPT ![{}] = @ + queued])
    /\ op' = <<"maintain">>

Destroy(s) ==
    /\ Live /\ count[s] > 0
    /\ free' = free + 1
    /\ UNCHANGED <<queued, ids, layout, known>>
    /\ Populated([count EXCEPT ![s] = @ - 1])
    /\ op' = <<"destroy", s>>

Move(s, r) ==
    /\ Live /\ count[s] > 0 /\ s # r /\ r \subseteq known
    /\ s \subseteq r \/ r \subseteq s
    /\ UNCHANGED <<queued, ids, free, layout, known>>
    /\ Populated([count EXCEPT ![s] = @ - 1, ![r] = @ + 1])
    /\ op' = IF s \subseteq r THEN <<"insert", s, r \ s>> ELSE <<"remove", s, s \ r>>

Emptied ==
    /\ Live
    /\ queued' = 0 /\ count' = Empty
    /\ UNCHANGED <<layout, known, cap, heap, bad>>
    /\ peak' = 0 /\ most' = most

(* The indices of the entities that are cleared are not used again.         *)
Clear ==
    /\ Emptied
    /\ past' = past + peak
    /\ UNCHANGED <<ids, free>>
    /\ op' = <<"clear">>

Reset ==
    /\ Emptied
    /\ past' = 0
    /\ ids' = 0 /\ free' = 0
    /\ op' = <<"reset">>

(* The storages are moved; types that are in no group stay known.           *)
SetLayout(g) ==
    /\ Live /\ layout # g
    /\ layout' = g /\ known' = known \cup UNION g
    /\ UNCHANGED <<count, queued, ids, free, peak, past, most>>
    /\ IF Defect = "layout_forgets"
       THEN cap' = [o \in Owner |-> IF o \in UNION layout \ UNION g THEN 0 ELSE cap[o]] /\ UNCHANGED <<heap, bad>>
       ELSE UNCHANGED <<cap, heap, bad>>
    /\ op' = <<"layout", g>>

Register(t) ==
    /\ Live /\ t \notin known
    /\ known' = known \cup {t}
    /\ UNCHANGED <<count, queued, ids, free, layout, cap, heap, bad, peak, past, most>>
    /\ op' = <<"register", t>>

Drop ==
    /\ phase = "live" /\ phase' = "over"
    /\ count' = Empty /\ queued' = 0 /\ known' = {} /\ layout' = {}
    /\ Release(IF Defect = "drop_keeps" THEN Owner \ UNION layout ELSE Owner)
    /\ UNCHANGED <<ids, free, peak, past, most>>
    /\ op' = <<"drop">>

Init ==
    /\ phase = "none" /\ count = Empty /\ queued = 0 /\ ids = 0 /\ layout = {} /\ known = {}
    /\ cap = [o \in Owner |-> 0] /\ heap = [o \in Owner |-> <<>>] /\ bad = FALSE
    /\ free = 0 /\ peak = 0 /\ past = 0 /\ most = 0
    /\ op = <<"init">>

Next ==
    \/ \E g \in Layouts : New(g) \/ SetLayout(g)
    \/ \E s \in Sets : \/ \E n \in 1..Max : Extend(s, n)
                       \/ Destroy(s)
                       \/ \E r \in Sets : Move(s, r)
    \/ \E n \in 1..Max : Queue(n)
    \/ \E t \in Type : Register(t)
    \/ Maintain \/ Clear \/ Reset \/ Drop

Spec == Init /\ [][Next]_vars
Small == ids <= Max + 2 /\ past <= Max

(* ---- what has to hold --------------------------------------------------- *)
Matched == ~bad
Returned == phase = "over" => \A o \in Owner : heap[o] = <<>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
(* Memory is in proportion to the largest population, where populations     *)
(* before and after a clear count both, until the next reset.               *)
Bounded == ids <= past + peak /\ \A o \in Owner : Sum(heap[o]) <= 2 * most
(* Every buffer is large enough.                                            *)
Fits == phase = "live" => \A t \in Type : Has(count, t) <= Sum(heap[t])
=============================================================================
