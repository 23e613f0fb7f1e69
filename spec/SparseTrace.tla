---------------------------- MODULE SparseTrace -----------------------------
(***************************************************************************)
(* Decides whether recorded operations on sparse vectors are a behaviour   *)
(* of Sparse, as users see it: `Effect` on maps.  Every record has all     *)
(* that the readers of every vector list after the operation.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS TraceFile, Vec

VARIABLES l, maps

S == INSTANCE Sparse WITH slots <- maps, op <- l, Index <- {}, Ver <- {}, Val <- {}, Defect <- ""

Log == ndJsonDeserialize(TraceFile)
N == Len(Log)

Reject(aspect, info) == PrintT(<<"REJECT", l, aspect, info>>) /\ FALSE
Chk(c, aspect, info) == IF c THEN TRUE ELSE Reject(aspect, info)

(* A sequence of rows that names every row of a set once.                   *)
Lists(rows, set) == Len(rows) = Cardinality(set) /\ {rows[k] : k \in DOMAIN rows} = set

(* What the map is after an operation, and what the operation returns.      *)
After(e, m) ==
    CASE e.ev \in {"new", "clear"} -> {}
      [] e.ev = "set" -> (m \ S!Of(m, e.i)) \cup {<<e.i, e.v, e.d>>}
      [] e.ev = "peek" -> m
      [] e.ev \in {"take", "removesparse"} -> m \ S!Of(m, e.i)
      [] e.ev = "remove" -> {u \in m : ~(u[1] = e.i /\ u[2] = e.v)}
      [] e.ev = "swap" ->
            LET a == S!Row(m, e.i)
                b == S!Row(m, e.j) IN
            (m \ (S!Of(m, e.i) \cup S!Of(m, e.j))) \cup {<<e.i, a[1], b[2]>>, <<e.j, b[1], a[2]>>}

Seen(e, x, m) ==
    LET o == e.seen[x] IN
    /\ Chk(Lists(o.get, m), "get", <<x, m, o.get>>)
    /\ Chk(Lists(o.has, {<<t[1], t[2]>> : t \in m}), "contains", <<x, m, o.has>>)
    /\ Chk(Lists(o.at, {<<t[1], t[3]>> : t \in m}), "get_sparse", <<x, m, o.at>>)
    /\ Chk(Lists(o.raw, {<<t[1], t[3]>> : t \in m}), "get_sparse_unchecked", <<x, m, o.raw>>)
    /\ Chk(Lists(o.taken, {<<t[1]>> : t \in m}), "contains_sparse", <<x, m, o.taken>>)

Step ==
    /\ l <= N /\ l' = l + 1
    /\ LET e == Log[l]
           next == IF e.ev = "clone" THEN [maps EXCEPT ![e.y] = maps[e.x]]
                   ELSE [maps EXCEPT ![e.x] = After(e, @)]
       IN
        /\ IF e.ev \in {"clone", "new"} THEN TRUE
           ELSE Chk(S!Effect(e, maps[e.x], next[e.x]), "result", <<maps[e.x]>>)
        /\ maps' = next
        /\ \A x \in Vec : Seen(e, x, next[x])

Init == l = 1 /\ maps = [x \in Vec |-> {}]
Spec == Init /\ [][Step]_<<l, maps>>
Report == PrintT(<<"DONE", TLCGet("stats").diameter - 1, N>>)
=============================================================================
