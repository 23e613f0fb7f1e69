-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Handles, versions and component descriptors as keys of collections.     *)
(*                                                                         *)
(* What users see is `map`: a key is what it is made of, no more, and a    *)
(* collection has at most one entry for it.  Shaped like the code are the  *)
(* order and the equality of keys: `sorted` is a sequence that is searched *)
(* by halving, as ordered collections do, and `table` has buckets of keys  *)
(* with the same hash.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
    Index,      \* indices of handles, numbers
    Ver,        \* versions
    Val,        \* values stored
    Modulus,    \* numbers end here, for the defect "wrap"
    Defect      \* a mistake to switch in, or ""

VARIABLES
    map,        \* entries: a set of <<key, value>>
    sorted,     \* a sequence of entries
    table,      \* [hash -> sequence of entries]
    op          \* the operation and its result

vars == <<map, sorted, table, op>>
View == <<map, sorted, table>>

Key == Index \X Ver

(* ---- what users see ----------------------------------------------------- *)
Of(m, k) == {u \in m : u[1] = k}
Found(m, k) == LET s == Of(m, k) IN IF s = {} THEN <<>> ELSE <<(CHOOSE u \in s : TRUE)[2]>>
After(e, m) ==
    CASE e.ev = "put" -> (m \ Of(m, e.k)) \cup {<<e.k, e.v>>}
      [] e.ev = "take" -> m \ Of(m, e.k)
      [] OTHER -> m
(* A strict order of all of them, given as the relation `lt`.               *)
StrictOrder(S, lt(_, _)) ==
    /\ \A a, b \in S : a # b <=> (lt(a, b) \/ lt(b, a))
    /\ \A a, b \in S : ~(lt(a, b) /\ lt(b, a))
    /\ \A a, b, c \in S : lt(a, b) /\ lt(b, c) => lt(a, c)

(* ---- the code ----------------------------------------------------------- *)
Num(a, b) ==
    IF Defect = "wrap"
    THEN LET d == (a - b + Modulus) % Modulus IN IF d = 0 THEN 0 ELSE IF d < Modulus \div 2 THEN 1 ELSE -1
    ELSE IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1
Cmp(a, b) ==
    CASE Defect = "index_only" -> Num(a[1], b[1])
      [] Defect = "version_only" -> Num(a[2], b[2])
      [] Defect = "either" -> IF a = b THEN 0 ELSE IF a[1] < b[1] \/ a[2] < b[2] THEN -1 ELSE 1
      [] Defect = "sum" -> Num(a[1] + a[2], b[1] + b[2])
      [] OTHER -> IF Num(a[2], b[2]) # 0 THEN Num(a[2], b[2]) ELSE Num(a[1], b[1])
Eq(a, b) == IF Defect = "eq_index" THEN a[1] = b[1] ELSE a = b
Hash(a) == IF Defect = "hash_place" THEN (a[1] + a[2] + Cardinality(map)) % 2 ELSE a[1] % 2

(* The first position in lo..hi whose key is not smaller; hi + 1 otherwise. *)
RECURSIVE Search(_, _, _, _)
Search(s, k, lo, hi) ==
    IF lo > hi THEN lo
    ELSE LET mid == (lo + hi) \div 2
             c == Cmp(s[mid][1], k) IN
         IF c = 0 THEN mid
         ELSE IF c < 0 THEN Search(s, k, mid + 1, hi) ELSE Search(s, k, lo, mid - 1)
Place(s, k) == Search(s, k, 1, Len(s))
Hit(s, k) == Place(s, k) <= Len(s) /\ Cmp(s[Place(s, k)][1], k) = 0
Where(b, k) == {j \in 1..Len(b) : Eq(b[j][1], k)}
Without(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))

InSorted(k) == IF Hit(sorted, k) THEN <<sorted[Place(sorted, k)][2]>> ELSE <<>>
InTable(k) ==
    LET b == table[Hash(k)]  w == Where(b, k) IN
    IF w = {} THEN <<>> ELSE <<b[CHOOSE j \in w : \A i \in w : j <= i][2]>>

Put(k, v) ==
    /\ map' = After([ev |-> "put", k |-> k, v |-> v], map)
    /\ sorted' = LET p == Place(sorted, k) IN
                 IF Hit(sorted, k) THEN [sorted EXCEPT ![p][2] = v]
                 ELSE SubSeq(sorted, 1, p - 1) \o <<<<k, v>>>> \o SubSeq(sorted, p, Len(sorted))
    /\ table' = LET w == Where(table[Hash(k)], k) IN
                IF w = {} THEN [table EXCEPT ![Hash(k)] = Append(@, <<k, v>>)]
                ELSE [table EXCEPT ![Hash(k)][CHOOSE j \in w : TRUE][2] = v]
    /\ op' = [ev |-> "put", k |-> k, v |-> v, ret |-> <<InSorted(k), InTable(k)>>]

Take(k) ==
    /\ map' = After([ev |-> "take", k |-> k], map)
    /\ sorted' = IF Hit(sorted, k) THEN Without(sorted, Place(sorted, k)) ELSE sorted
    /\ table' = LET w == Where(table[Hash(k)], k) IN
                IF w = {} THEN table ELSE [table EXCEPT ![Hash(k)] = Without(@, CHOOSE j \in w : TRUE)]
    /\ op' = [ev |-> "take", k |-> k, ret |-> <<InSorted(k), InTable(k)>>]

Get(k) ==
    /\ UNCHANGED <<map, sorted, table>>
    /\ op' = [ev |-> "get", k |-> k, ret |-> <<InSorted(k), InTable(k)>>]

Init == map = {} /\ sorted = <<>> /\ table = [h \in 0..1 |-> <<>>] /\ op = [ev |-> "new"]
Next == \E k \in Key : Take(k) \/ Get(k) \/ \E v \in Val : Put(k, v)
Spec == Init /\ [][Next]_vars

(* ---- properties --------------------------------------------------------- *)
Kept == {u[1] : u \in map}
Total == StrictOrder(Kept, LAMBDA a, b : Cmp(a, b) < 0)
Agree == \A a \in Kept, b \in Key : (Cmp(a, b) = 0 <=> a = b) /\ (Eq(a, b) <=> a = b)
Entries == \A k \in Key : InSorted(k) = Found(map, k) /\ InTable(k) = Found(map, k)
Listed ==
    /\ Len(sorted) = Cardinality(map) /\ {sorted[j] : j \in 1..Len(sorted)} = map
    /\ \A i, j \in 1..Len(sorted) : i < j => Cmp(sorted[i][1], sorted[j][1]) < 0
Results == [][\A r \in {op'.ret[1], op'.ret[2]} : r = Found(map, op'.k)]_vars
=============================================================================
