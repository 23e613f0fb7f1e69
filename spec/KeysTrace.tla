----------------------------- MODULE KeysTrace ------------------------------
(***************************************************************************)
(* Decides whether recorded collections of keys are those of Keys.  Which  *)
(* way keys are ordered is not specified: it is learnt from the first      *)
(* record of a set of keys, which compares each with each, and may not     *)
(* change.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS TraceFile

VARIABLES l, map, less

K == INSTANCE Keys WITH sorted <- <<>>, table <- <<>>, op <- l, Index <- {}, Ver <- {}, Val <- {},
                        Modulus <- 0, Defect <- ""

Log == ndJsonDeserialize(TraceFile)
N == Len(Log)

Reject(aspect, info) == PrintT(<<"REJECT", l, aspect, info>>) /\ FALSE
Chk(c, aspect, info) == IF c THEN TRUE ELSE Reject(aspect, info)

Rng(s) == {s[j] : j \in 1..Len(s)}
Count(s, k) == Cardinality({j \in 1..Len(s) : s[j] = k})
Ascending(s) == \A i \in 1..(Len(s) - 1) : <<s[i], s[i + 1]>> \in less
Sign(a, b) == IF a = b THEN 0 ELSE IF <<a, b>> \in less THEN -1 ELSE 1
Before(a, b) == a = b \/ <<a, b>> \in less

(* The first comparison of all keys.                                        *)
Learnt(e) ==
    LET I == 1..Len(e.ks)
        lt(i, j) == e.cmp[i][j] = -1 IN
    /\ Chk(\A i, j \in I : e.eq[i][j] = (e.ks[i] = e.ks[j]) /\ e.ne[i][j] = (e.ks[i] # e.ks[j]), "equal", e.ks)
    /\ Chk(\A i, j \in I : e.ks[i] = e.ks[j] => e.hash[i][j], "hash", e.ks)
    /\ Chk(\A i, j \in I : e.cmp[i][j] = 0 <=> e.ks[i] = e.ks[j], "same", e.ks)
    /\ Chk(K!StrictOrder(I, lt) , "order", e.ks)
    /\ Chk(e.part = e.cmp, "partial_cmp", e.ks)
    /\ Chk(\A i, j \in I : e.ops[i][j] = <<e.cmp[i][j] = -1, e.cmp[i][j] # 1, e.cmp[i][j] = 1, e.cmp[i][j] # -1>>,
           "operators", e.ks)
    /\ Chk(e.made = e.ks, "parts", e.ks)

Step ==
    /\ l <= N /\ l' = l + 1
    /\ LET e == Log[l] IN
       CASE e.ev = "new" ->
                /\ Learnt(e)
                /\ map' = {}
                /\ less' = {<<e.ks[p[1]], e.ks[p[2]]>> :
                             p \in {q \in (1..Len(e.ks)) \X (1..Len(e.ks)) : e.cmp[q[1]][q[2]] = -1}}
         [] e.ev \in {"put", "take", "get"} ->
                /\ Chk(\A j \in 1..Len(e.ret) : e.ret[j] = K!Found(map, e.k), "entry", <<K!Found(map, e.k)>>)
                /\ map' = K!After(e, map)
                /\ UNCHANGED less
         [] e.ev = "list" ->
                /\ Chk(\A s \in {e.tree, e.sorted} :
                           Ascending(s) /\ Rng(s) = {u[1] : u \in map} /\ Len(s) = Cardinality(map), "listing", <<map>>)
                /\ Chk(Rng(e.table) = map /\ Len(e.table) = Cardinality(map), "table", <<map>>)
                /\ Chk(Ascending(e.range) /\ Rng(e.range) =
                          {k \in {u[1] : u \in map} : Before(e.lo, k) /\ Before(k, e.hi)}, "range", <<map>>)
                /\ UNCHANGED <<map, less>>
         [] e.ev = "sort" ->
                /\ Chk(\A s \in {e.stable, e.unstable} :
                          /\ Len(s) = Len(e.ks)
                          /\ \A k \in Rng(e.ks) : Count(s, k) = Count(e.ks, k)
                          /\ \A i \in 1..(Len(s) - 1) : Before(s[i], s[i + 1]), "sort", e.ks)
                /\ Chk(\A k \in Rng(e.ks) : Before(e.min, k) /\ Before(k, e.max), "min", e.ks)
                /\ Chk({e.min, e.max} \subseteq Rng(e.ks), "max", e.ks)
                /\ Chk(e.set = Cardinality(Rng(e.ks)) /\ e.dedup = e.set, "duplicates", e.ks)
                /\ UNCHANGED <<map, less>>

Init == l = 1 /\ map = {} /\ less = {}
Spec == Init /\ [][Step]_<<l, map, less>>
Report == PrintT(<<"DONE", TLCGet("stats").diameter - 1, N>>)
=============================================================================
