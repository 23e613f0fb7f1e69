------------------------------- MODULE Sparse -------------------------------
(***************************************************************************)
(* The public sparse vector, which maps entities to dense indices.         *)
(*                                                                         *)
(* What users see is `map`: at most one entity of every index, with the    *)
(* number that was stored for it.  `slots` is shaped like the code: a      *)
(* vector that grows to the next power of two.  There are several vectors, *)
(* as one can be cloned.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
    Vec,        \* the vectors
    Index,      \* indices of entities
    Ver,        \* versions
    Val,        \* dense indices stored
    Defect      \* a mistake to switch in, or ""

VARIABLES
    slots,      \* [Vec -> Seq of <<>> (empty) or <<version, dense>>]
    op          \* the operation and its result

vars == <<slots, op>>
View == slots

(* ---- what users see ----------------------------------------------------- *)
Lookup(s, i) == IF i < Len(s) THEN s[i + 1] ELSE <<>>
Map(s) == {<<i, s[i + 1][1], s[i + 1][2]>> : i \in {j \in 0..(Len(s) - 1) : s[j + 1] # <<>>}}

(* ---- the code ----------------------------------------------------------- *)
RECURSIVE Pow(_, _)
Pow(n, p) == IF p >= n THEN p ELSE Pow(n, 2 * p)
(* The smallest power of two that is not smaller.                           *)
NextPow(n) == Pow(n, 1)

Grown(s, i) ==
    IF i < Len(s) THEN s
    ELSE s \o [k \in 1..((IF Defect = "short" THEN NextPow(i) - 1 ELSE NextPow(i)) - Len(s) + 1) |-> <<>>]

Fits(s, i, v) ==
    IF Defect = "any_version" THEN Lookup(s, i) # <<>> ELSE Lookup(s, i) # <<>> /\ Lookup(s, i)[1] = v

Set(x, i, v, d) ==
    LET s == Grown(slots[x], i) IN
    /\ slots' = [slots EXCEPT ![x] = [s EXCEPT ![i + 1] = <<v, d>>]]
    /\ op' = [ev |-> "set", x |-> x, i |-> i, v |-> v, d |-> d, ret |-> Lookup(slots[x], i)]

(* Looking at a slot through the same function allocates.                   *)
Peek(x, i) ==
    /\ slots' = [slots EXCEPT ![x] = Grown(@, i)]
    /\ op' = [ev |-> "peek", x |-> x, i |-> i, ret |-> Lookup(slots[x], i)]

Take(x, i) ==
    LET s == Grown(slots[x], i) IN
    /\ slots' = [slots EXCEPT ![x] = [s EXCEPT ![i + 1] = <<>>]]
    /\ op' = [ev |-> "take", x |-> x, i |-> i, ret |-> Lookup(slots[x], i)]

Remove(x, i, v) ==
    LET hit == Fits(slots[x], i, v) IN
    /\ slots' = IF hit THEN [slots EXCEPT ![x][i + 1] = <<>>] ELSE slots
    /\ op' = [ev |-> "remove", x |-> x, i |-> i, v |-> v,
              ret |-> IF hit THEN <<Lookup(slots[x], i)[2]>> ELSE <<>>]

RemoveSparse(x, i) ==
    /\ slots' = IF i < Len(slots[x]) THEN [slots EXCEPT ![x][i + 1] = <<>>] ELSE slots
    /\ op' = [ev |-> "removesparse", x |-> x, i |-> i, ret |-> Lookup(slots[x], i)]

(* Both must be there.                                                      *)
Swap(x, i, j) ==
    LET a == Lookup(slots[x], i)
        b == Lookup(slots[x], j) IN
    /\ i # j /\ a # <<>> /\ b # <<>>
    /\ slots' = [slots EXCEPT ![x][i + 1] = IF Defect = "swap_versions" THEN b ELSE <<a[1], b[2]>>,
                              ![x][j + 1] = IF Defect = "swap_versions" THEN a ELSE <<b[1], a[2]>>]
    /\ op' = [ev |-> "swap", x |-> x, i |-> i, j |-> j]

Clear(x) ==
    /\ slots' = [slots EXCEPT ![x] = IF Defect = "clear_keeps" THEN @ ELSE <<>>]
    /\ op' = [ev |-> "clear", x |-> x]

Clone(x, y) ==
    /\ x # y
    /\ slots' = [slots EXCEPT ![y] = slots[x]]
    /\ op' = [ev |-> "clone", x |-> x, y |-> y]

Init == slots = [x \in Vec |-> <<>>] /\ op = [ev |-> "init"]

Next ==
    \E x \in Vec :
        \/ \E i \in Index : Peek(x, i) \/ Take(x, i) \/ RemoveSparse(x, i)
        \/ \E i \in Index, v \in Ver : Remove(x, i, v) \/ \E d \in Val : Set(x, i, v, d)
        \/ \E i \in Index, j \in Index : Swap(x, i, j)
        \/ Clear(x)
        \/ \E y \in Vec : Clone(x, y)

Spec == Init /\ [][Next]_vars

(* ---- what has to hold --------------------------------------------------- *)
One == \A x \in Vec : \A a, b \in Map(slots[x]) : a[1] = b[1] => a = b

(* Every operation does to the map what it says, and nothing else.          *)
Of(m, i) == {t \in m : t[1] = i}
Row(m, i) == IF Of(m, i) = {} THEN <<>> ELSE LET t == CHOOSE u \in Of(m, i) : TRUE IN <<t[2], t[3]>>
Effect(e, m, m1) ==
    CASE e.ev = "set" -> m1 = (m \ Of(m, e.i)) \cup {<<e.i, e.v, e.d>>} /\ e.ret = Row(m, e.i)
      [] e.ev = "peek" -> m1 = m /\ e.ret = Row(m, e.i)
      [] e.ev \in {"take", "removesparse"} -> m1 = m \ Of(m, e.i) /\ e.ret = Row(m, e.i)
      [] e.ev = "remove" ->
            LET t == {u \in m : u[1] = e.i /\ u[2] = e.v} IN
            /\ m1 = m \ t
            /\ e.ret = IF t = {} THEN <<>> ELSE <<Row(m, e.i)[2]>>
      [] e.ev = "swap" ->
            LET a == Row(m, e.i)
                b == Row(m, e.j) IN
            m1 = (m \ (Of(m, e.i) \cup Of(m, e.j))) \cup {<<e.i, a[1], b[2]>>, <<e.j, b[1], a[2]>>}
      [] e.ev = "clear" -> m1 = {}

Effects ==
    [][IF op'.ev = "clone"
       THEN /\ Map(slots'[op'.y]) = Map(slots[op'.x])
            /\ \A z \in Vec \ {op'.y} : slots'[z] = slots[z]
       ELSE \* A slot that was asked for is there.
            /\ op'.ev \in {"set", "peek", "take"} => op'.i < Len(slots'[op'.x])
            /\ Effect(op', Map(slots[op'.x]), Map(slots'[op'.x]))
            /\ \A z \in Vec \ {op'.x} : slots'[z] = slots[z]]_vars
=============================================================================
