------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: decides whether a recorded history of the real crate  *)
(* is a behaviour of World.                                                *)
(*                                                                         *)
(* A trace is a list of events; each is one call of the public interface   *)
(* with its arguments and everything it was observed to do: its result,    *)
(* the destructors that ran, and - after most calls that can change the    *)
(* world - the complete content of the world as its readers list it.       *)
(* World is deterministic except for the handles it issues, and those are  *)
(* logged, so that each event leaves at most one successor state: every    *)
(* observation is compared with the state that the specification computes  *)
(* from the history alone.  Observed states are never adopted.             *)
(*                                                                         *)
(* What is compared is grouped into aspects.  A check for one property     *)
(* selects the aspects that property speaks about.  An event that World    *)
(* does not allow because of an aspect that is not selected ends the       *)
(* judgement quietly, as nothing can be said about what follows it.        *)
(***************************************************************************)
EXTENDS World, Consume, Json

CONSTANTS
    TraceFile,   \* ndjson
    Aspects,     \* the aspects to judge
    Tracked      \* component types whose destructors are recorded

VARIABLES
    l,      \* next line
    vers,   \* index -> last version issued for it since the last reset
    fresh,  \* no clear since the last reset: indices are dense
    held,   \* slot -> [sh, ex]: component types a held view or query borrows
    stop    \* judgement ended

tvars == <<vars, l, vers, fresh, held, stop>>

Log == ndJsonDeserialize(TraceFile)
N == Len(Log)

------------------------------------------------------------------------------
(* Judging.                                                                 *)
Reject(a, info) == PrintT(<<"REJECT", l, a, info>>) /\ FALSE
Chk(a, c, info) == IF a \notin Aspects THEN TRUE ELSE IF c THEN TRUE ELSE Reject(a, info)

Has(e, f) == f \in DOMAIN e
Flag(e, f) == f \in DOMAIN e /\ e[f] = TRUE
Set(s) == {s[i] : i \in 1..Len(s)}
GroupsOf(gs) == {Set(gs[i]) : i \in {j \in 1..Len(gs) : Cardinality(Set(gs[j])) > 1}}
Flat(ss) == LET F[k \in 0..Len(ss)] == IF k = 0 THEN <<>> ELSE F[k-1] \o ss[k] IN F[Len(ss)]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min2(a, b) == IF a < b THEN a ELSE b
Valid(h) == h > 0 /\ h < 900000

(* Destructors: recorded pairs <<component, value>> against triples.        *)
DropsAre(d, T) ==
    LET E == {t \in T : t[1] \in Tracked} IN
    /\ Len(d) = Cardinality(E)
    /\ Set(d) = {<<t[1], t[3]>> : t \in E}
    /\ \A z \in Zst : Cardinality({i \in 1..Len(d) : d[i][1] = z}) = Cardinality({t \in E : t[1] = z})

(* A sequence lists the values f(h) for h in H, each once.                  *)
Lists(seq, H, f(_)) ==
    /\ Len(seq) = Cardinality(H)
    /\ LET S == Set(seq) IN
        /\ S = {f(h) : h \in H}
        /\ Cardinality(S) = Len(seq)
           \/ \A x \in S : Cardinality({i \in 1..Len(seq) : seq[i] = x}) = Cardinality({h \in H : f(h) = x})

(* The world listed by its readers after the event.                         *)
Observed(e) ==
    IF ~Has(e, "obs") THEN TRUE ELSE
    LET o == e.obs
        A(a) == IF Has(e, "bomb") THEN "bombs" ELSE a IN
    IF Has(o, "panic") THEN Reject("out", "reading the world panics") ELSE
    /\ Chk(A("ents"), Set(o.ents) = live' /\ Len(o.ents) = Cardinality(live'), <<"entities", live'>>)
    /\ Chk(A("ents"), o.empty = (live' = {}), "is_empty")
    /\ Chk(A("reg"), {o.cs[i][1] : i \in 1..Len(o.cs)} = reg', <<"registered", reg'>>)
    /\ \A i \in 1..Len(o.cs) :
        LET c == o.cs[i][1]  ids == o.cs[i][2]  vals == o.cs[i][3] IN
        /\ Chk(A("views"), Set(ids) = DOMAIN store'[c] /\ Len(ids) = Cardinality(DOMAIN store'[c]),
               <<"owners of", c, DOMAIN store'[c]>>)
        /\ Chk(A("comps"), /\ Len(vals) = Len(ids)
                        /\ Set(ids) = DOMAIN store'[c]
                        /\ \A k \in 1..Len(ids) : vals[k] = store'[c][ids[k]],
               <<"values of", c, store'[c]>>)

(* Where one value's destructor is told to panic, the operation does all it *)
(* does otherwise, but for returning; and of the values it was to drop,     *)
(* some may be leaked.                                                      *)
Armed(e) == Has(e, "bomb")
Boom(e) == Armed(e) /\ e.out = "panic"
Triggered(e, T) == \E t \in T : t[1] = e.bomb[1] /\ t[3] = e.bomb[2]
DropsAtMost(d, T) ==
    LET E == {t \in T : t[1] \in Tracked} IN
    /\ Set(d) \subseteq {<<t[1], t[3]>> : t \in E}
    /\ \A x \in Set(d) : Cardinality({i \in 1..Len(d) : d[i] = x}) <= Cardinality({t \in E : <<t[1], t[3]>> = x})

Dropped(e) ==
    IF Armed(e)
    THEN /\ Chk("bombs", (e.out = "panic") = Triggered(e, res'.drops), <<"panics", e.out, res'.drops>>)
         /\ Chk("bombs", DropsAtMost(e.drops, res'.drops), <<"drops", res'.drops>>)
    ELSE Chk("drops", DropsAre(e.drops, res'.drops), <<"drops", res'.drops>>)

(* The index and version of new handles: freed indices first, oldest first, *)
(* then indices never used.  The k-th creation of a bulk is judged after    *)
(* the ones before it.                                                      *)
Reused(is, vs) ==
    LET nf == Len(free)
        Expected(k) == IF k <= nf THEN free[k] ELSE top + (k - nf - 1)
    IN  \A k \in 1..Len(is) :
            IF k <= nf \/ fresh THEN is[k] = Expected(k) ELSE is[k] >= top
Later(is, vs) ==
    \A k \in 1..Len(is) :
        IF is[k] \in DOMAIN vers THEN vs[k] > vers[is[k]] ELSE vs[k] = 1
NoteVersions(is, vs) ==
    vers' = Over([i \in Set(is) |-> vs[Where(is, i)]], vers)

(* A great many entities created and destroyed one after the other: each    *)
(* takes the oldest freed index and gives it back, or one index goes round. *)
(* Recorded are, by index, the runs of consecutive versions.                *)
Rotated(q, k) == [j \in 1..Len(q) |-> q[((j - 1 + k) % Len(q)) + 1]]
RunsCount(rs) == LET F[k \in 0..Len(rs)] == IF k = 0 THEN 0 ELSE F[k-1] + (rs[k][2] - rs[k][1] + 1) IN F[Len(rs)]
ChurnReuse(n, runs) ==
    LET m == Len(free) IN
    IF m = 0 THEN /\ Len(runs) = 1
                  /\ RunsCount(runs[1][2]) = n
                  /\ IF fresh THEN runs[1][1] = top ELSE runs[1][1] >= top
    ELSE /\ Len(runs) = Min2(n, m)
         /\ \A j \in 1..Len(runs) : runs[j][1] = free[j] /\ RunsCount(runs[j][2]) = (n - j) \div m + 1
ChurnLater(runs) ==
    \A j \in 1..Len(runs) :
        LET i == runs[j][1]  rs == runs[j][2] IN
        /\ IF i \in DOMAIN vers THEN rs[1][1] > vers[i] ELSE rs[1][1] = 1
        /\ \A k \in 2..Len(rs) : rs[k][1] > rs[k-1][2]

(* The indices taken by threads at the same time: each takes what a queue   *)
(* would give it in some order of the calls.                                *)
ReusedConc(iss) ==
    LET nf == Len(free)
        all == Flat(iss)
        n == Len(all)
        Pos(i) == IF \E k \in 1..nf : free[k] = i THEN CHOOSE k \in 1..nf : free[k] = i ELSE nf + 1 + (i - top)
    IN  /\ Set(all) = {free[k] : k \in 1..Min2(n, nf)} \cup (IF n > nf /\ fresh THEN top..(top + n - nf - 1)
                                                             ELSE Set(all) \ Set(free))
        /\ Cardinality(Set(all)) = n
        /\ \A i \in Set(all) \ Set(free) : i >= top
        /\ \A t \in 1..Len(iss) : \A k \in 1..(Len(iss[t]) - 1) : Pos(iss[t][k]) < Pos(iss[t][k+1])

------------------------------------------------------------------------------
(* Layouts.                                                                 *)
Nested(a, b) == a \subseteq b \/ b \subseteq a
Apart(a, b) == a \cap b = {}
Fits(gs, g) ==
    /\ Cardinality(g) <= 16
    /\ (g \in gs \/ Cardinality(gs) < 64)
    /\ \A a \in gs : Nested(a, g) \/ Apart(a, g)
    /\ \A a, b \in gs : a \subseteq g /\ b \subseteq g => Nested(a, b)
    /\ \A a, b \in gs : g \subseteq a /\ b \subseteq a => Nested(b, g)
(* Two component types are of one family if some group has both: the        *)
(* largest group of a family has all its types.                             *)
SameFamily(gs, a, b) == \E g \in gs : a \in g /\ b \in g
Accepted(adds) ==
    LET F[k \in 0..Len(adds)] ==
            IF k = 0 THEN [gs |-> {}, outs |-> <<>>]
            ELSE LET p == F[k-1]  g == Set(adds[k]) IN
                 IF Cardinality(g) <= 1 THEN [gs |-> p.gs, outs |-> Append(p.outs, 1)]
                 ELSE IF Fits(p.gs, g) THEN [gs |-> p.gs \cup {g}, outs |-> Append(p.outs, 1)]
                 ELSE [gs |-> p.gs, outs |-> Append(p.outs, 0)]
    IN F[Len(adds)]

(* What a builder makes: the layout it was last given, the groups added     *)
(* since that fit, and everything registered.                               *)
Built(steps) ==
    LET F[k \in 0..Len(steps)] ==
            IF k = 0 THEN [gs |-> {}, rs |-> {}, outs |-> <<>>]
            ELSE LET p == [F[k-1] EXCEPT !.outs = Append(@, 1)]  what == steps[k][1] IN
                 CASE what = "reg" -> [p EXCEPT !.rs = @ \cup {steps[k][2]}]
                   [] what = "layout" -> [p EXCEPT !.gs = GroupsOf(steps[k][2])]
                   [] what \in {"build", "clone"} -> p
                   [] what = "group" ->
                        LET g == Set(steps[k][2]) IN
                        IF Cardinality(g) <= 1 THEN p
                        ELSE IF Fits(p.gs, g) THEN [p EXCEPT !.gs = @ \cup {g}]
                        ELSE [p EXCEPT !.outs[k] = 0]
    IN F[Len(steps)]

------------------------------------------------------------------------------
(* Borrows.                                                                 *)
ShOf(q) == CompsOf(AllParts(q)) \ ExclComps(AllParts(q))
ExOf(q) == ExclComps(AllParts(q))
Busy(sh, ex) == \E s \in DOMAIN held :
                    held[s].ex \cap (sh \cup ex) # {} \/ held[s].sh \cap ex # {}
AcqOk(e) ==
    IF Has(e, "q") THEN QueryOk(e.q) /\ ~Busy(ShOf(e.q), ExOf(e.q))
    ELSE e.c \in reg /\ IF e.kind \in {"viewmut", "viewmutg", "tryviewmut"} THEN ~Busy({}, {e.c}) ELSE ~Busy({e.c}, {})

------------------------------------------------------------------------------
(* Queries.                                                                 *)
HasEnt(q) == \E i \in 1..Len(q.get) : q.get[i][1] = "ent"
EntAt(q) == CHOOSE i \in 1..Len(q.get) : q.get[i][1] = "ent"
SliceParts(q) == SelectSeq(q.get, Sliced)
SliceQ(q) == [q EXCEPT !.get = SliceParts(q)]

(* Whether the closure or loop body panics.                                 *)
Booms(e, n) == Flag(e, "panic") /\ n > e.k

(* How many of n items a way to consume them has to visit; -1 for all, each *)
(* once.  Skipping consumes an item without visiting it.                    *)
Less(n, k) == IF n > k THEN n - k ELSE 0
Dense(e, m) == IF e.dense = 1 THEN m ELSE -1
(* Whether the operations of spec/Consume were done, which takes an indexed *)
(* iterator if there are splits.                                            *)
Stepwise(e) == e.mode = "prog" \/ (e.mode = "ixplan" /\ e.dense = 1)
Sum(s) == LET F[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE F[k-1] + s[k] IN F[Len(s)]
Partial(e, n) ==
    CASE e.mode \in {"nth", "skip"} -> Less(n, e.k)
      [] e.mode = "take" -> Min2(n, e.k)
      [] e.mode = "step" -> (n + e.k) \div (e.k + 1)
      [] e.mode = "last" -> Min2(n, 1)
      [] e.mode \in {"count", "parnum"} -> 0
      [] e.mode = "partake" -> Min2(n, e.k)
      [] e.mode = "parskip" -> Less(n, e.k)
      [] e.mode = "parany" -> Min2(n, 1)
      [] Stepwise(e) -> Sum(Program(n, e.ops).counts)
      [] e.mode = "ixskip" -> Dense(e, Less(n, e.k))
      [] e.mode = "ixtake" -> Dense(e, Min2(n, e.k))
      [] e.mode = "ixstep" -> Dense(e, (n + e.k) \div (e.k + 1))
      [] OTHER -> -1
Counts == {"count", "parnum"}
(* Items consumed before the j-th size hint.                                *)
Consumed(e, j) == IF e.mode \in {"nth", "find"} THEN e.k + 1 ELSE j - 1
Announced == {"par", "parcount", "ixskip", "ixtake", "ixstep", "ixzip", "ixchunks", "ixinto", "ixrev", "ixplan"}

QAll(e) ==
    LET q == e.q
        ok == QueryOk(q)
        H == IF ok THEN AllMatches(store, q) ELSE {}
        n == Cardinality(H)
        boom == ok /\ Booms(e, n)
        slice == e.mode = "slice"
        \* The entities whose items were consumed.
        G == IF ~ok THEN {}
             ELSE IF boom THEN (IF HasEnt(q) THEN {e.rows[i][EntAt(q)] : i \in 1..Len(e.rows)} \cap H ELSE {})
             ELSE IF slice /\ e.sliced = 0 THEN {}
             ELSE H
        f(h) == Row(store, q.get, h)
        g(h) == SliceRow(store, q.get, h)
    IN
    /\ store' = IF ok /\ Flag(e, "w") THEN Written(store, IF slice THEN SliceQ(q) ELSE q, G) ELSE store
    /\ res' = IF ok /\ ~boom THEN Ok(H, {}) ELSE Panic({})
    /\ UNCHANGED <<live, queued, issued, reg, groups, free, top, idx, vers, fresh, held>>
    /\ IF ~ok THEN TRUE
       ELSE IF boom THEN
            \* The items so far are distinct matches, in the number required.
            Chk("qpanic", /\ Set(e.rows) \subseteq {f(h) : h \in H}
                          /\ HasEnt(q) => Cardinality(Set(e.rows)) = Len(e.rows)
                          /\ IF e.mode \in {"parfor", "wparfor"} THEN Len(e.rows) > e.k /\ Len(e.rows) <= n
                             ELSE Len(e.rows) = e.k + 1,
                <<"items before the panic", H>>)
       ELSE IF slice THEN
            /\ Chk("dense", MustBeDense(groups, q) => e.dense = 1 /\ e.sliced = 1, "no slices")
            /\ IF e.sliced = 0 THEN TRUE ELSE
               LET w == Len(SliceParts(q)) IN
               Chk("slice",
                   /\ Len(e.cols) = w
                   /\ \A i \in 1..w : Len(e.cols[i]) = n
                   /\ Lists([k \in 1..n |-> [i \in 1..w |-> e.cols[i][k]]], IF w = 0 THEN {} ELSE H, g)
                      \/ w = 0,
                   <<"slices of", H>>)
       ELSE
            /\ LET m == Partial(e, n) IN
               IF m = -1 THEN Chk("qrows", Lists(e.rows, H, f), <<"items of", H, {f(h) : h \in H}>>)
               ELSE Chk("qrows", /\ Len(e.rows) = m
                                 /\ Set(e.rows) \subseteq {f(h) : h \in H}
                                 /\ HasEnt(q) => Cardinality(Set(e.rows)) = m,
                        <<m, "items of", H, {f(h) : h \in H}>>)
            /\ Chk("hints", e.mode \in Counts => e.count = n, <<"count", n>>)
            /\ Chk("dense", MustBeDense(groups, q) /\ e.dense # -1 => e.dense = 1, "not dense")
            /\ Chk("hints", \A m \in {n} : \A j \in 1..Len(e.hints) :
                      LET left == Less(m, Consumed(e, j)) IN
                      e.hints[j][1] <= left /\ (e.hints[j][2] = -1 \/ left <= e.hints[j][2]),
                   <<"hints for", n>>)
            /\ Chk("hints", \A m \in {n} : \A j \in 1..Len(e.exact) :
                      e.exact[j] = IF e.mode \in Announced THEN m ELSE Less(m, Consumed(e, j)),
                   <<"lengths for", n>>)
            /\ IF Stepwise(e)
               THEN LET p == Program(n, e.ops) IN
                    /\ Chk("qrows", /\ Len(e.outs) = Len(e.ops)
                                    /\ \A j \in 1..Len(e.outs) : e.outs[j][1] = p.counts[j],
                           <<"items by step", p.counts>>)
                    /\ Chk("hints", \A j \in 1..Len(e.outs) :
                              LET lo == e.outs[j][2][1]  hi == e.outs[j][2][2] IN
                              /\ lo <= p.left[j] /\ (hi = -1 \/ p.left[j] <= hi)
                              /\ e.mode = "ixplan" /\ e.ops[j][1] # "split" => lo = p.left[j],
                           <<"left by step", p.left>>)
               ELSE TRUE
            /\ Chk("hints", e.fused # 0, "not exhausted for good")

QOne(e) ==
    LET q == e.q
        ok == QueryOk(q)
        m == ok /\ Matches(store, q, e.h)
        boom == m /\ Flag(e, "panic")
        row == Row(store, q.get, e.h)
    IN
    /\ store' = IF m /\ ~boom /\ Flag(e, "w") THEN Written(store, q, {e.h}) ELSE store
    /\ res' = IF ok /\ ~boom THEN Ok(m, {}) ELSE Panic({})
    /\ UNCHANGED <<live, queued, issued, reg, groups, free, top, idx, vers, fresh, held>>
    /\ IF ~ok \/ boom \/ e.out = "panic" THEN TRUE ELSE
       IF e.h \in live THEN
         Chk("qone",
           /\ e.contains = IF m THEN 1 ELSE 0
           /\ e.wcontains \in {-1, e.contains}
           /\ e.got = IF m THEN <<row>> ELSE <<>>
           /\ e.mapped = IF m THEN <<row>> ELSE <<>>,
           <<"expected", m, row>>)
       ELSE
         \* Whether a handle that is not in the world matches a query that
         \* requires nothing is left open; no component is found through it.
         Chk("stale",
           /\ ~m => e.contains = 0 /\ e.got = <<>> /\ e.mapped = <<>>
           /\ \A r \in Set(e.got) \cup Set(e.mapped) :
                \A i \in 1..Len(q.get) : q.get[i][1] = "ent" \/ r[i] = -1,
           "found through a stale handle")

------------------------------------------------------------------------------
------------------------------------------------------------------------------
(* One event.  Wrong(e) names the aspect because of which World cannot take *)
(* the event at all, if any.                                                *)
SetOf(e) == CASE e.ev \in {"create", "insert"} -> CompsIn(e.cs)
              [] e.ev \in {"extend", "remove", "delete"} -> Set(e.c)
              [] OTHER -> {}
Known(e) == SetOf(e) \subseteq reg
NewHandles(hs) ==
    /\ Cardinality(Set(hs)) = Len(hs)
    /\ \A k \in 1..Len(hs) : hs[k] \notin issued /\ Valid(hs[k])

Wrong(e) ==
    CASE e.ev = "create" ->
            IF ~Known(e) THEN (IF e.out = "panic" THEN "" ELSE "reguse")
            ELSE IF e.out # "ok" THEN "out"
            ELSE IF ~NewHandles(<<e.h>>) THEN "fresh" ELSE ""
      [] e.ev = "extend" ->
            IF ~Known(e) THEN (IF e.out = "panic" /\ e.hs = <<>> THEN "" ELSE "reguse")
            ELSE IF (e.out = "panic") # (Has(e, "at") /\ e.at <= Len(e.items)) THEN "out"
            ELSE IF ~NewHandles(e.hs) THEN "fresh"
            ELSE IF Len(e.hs) # e.made THEN (IF e.out = "panic" THEN "paniciter" ELSE "bulk")
            ELSE IF e.out = "ok" /\ e.made # Len(e.items) THEN "bulk" ELSE ""
      [] e.ev = "insert" ->
            IF e.h \notin live THEN (IF e.out = "ok" \/ ~Known(e) \/ Boom(e) THEN "" ELSE "out")
            ELSE IF ~Known(e) THEN (IF e.out = "panic" THEN "" ELSE "reguse")
            ELSE IF e.out # "ok" /\ ~Boom(e) THEN "out" ELSE ""
      [] e.ev \in {"remove", "delete"} ->
            IF Known(e) THEN (IF e.out = "ok" \/ Boom(e) THEN "" ELSE "out")
            ELSE IF e.out = "panic" \/ e.h \notin live THEN "" ELSE "reguse"
      [] e.ev = "catomic" ->
            IF e.out # "ok" THEN "out" ELSE IF ~NewHandles(<<e.h>>) THEN "fresh" ELSE ""
      [] e.ev = "conc" ->
            IF e.out # "ok" THEN "out" ELSE IF ~NewHandles(Flat(e.hs)) THEN "fresh" ELSE ""
      [] e.ev = "view" ->
            IF e.c \notin reg THEN (IF e.out = "panic" THEN "" ELSE "reguse")
            ELSE IF e.out = "ok" THEN "" ELSE "out"
      [] e.ev \in {"qall", "qone"} ->
            IF ~(CompsOf(AllParts(e.q)) \subseteq reg) THEN (IF e.out = "panic" THEN "" ELSE "reguse")
            ELSE IF SelfConflict(e.q) THEN (IF e.out = "panic" THEN "" ELSE "borrow")
            ELSE LET boom == IF e.ev = "qall" THEN Booms(e, Cardinality(AllMatches(store, e.q)))
                             ELSE Flag(e, "panic") /\ Matches(store, e.q, e.h)
                 IN IF (e.out = "panic") = boom THEN "" ELSE IF boom THEN "qrows" ELSE "out"
      [] e.ev = "acq" ->
            LET want == IF ~AcqOk(e) THEN "panic"
                        ELSE IF e.kind = "iterpanic" /\ AllMatches(store, e.q) # {} THEN "panic" ELSE "ok"
            IN IF e.out = want THEN "" ELSE "borrow"
      [] OTHER -> IF e.out = "ok" \/ Boom(e) THEN "" ELSE "out"

Same == UNCHANGED <<vers, fresh, held>>
Keep == UNCHANGED <<live, queued, issued, reg, groups, store, free, top, idx>>

Do(e) ==
    CASE e.ev = "new" ->
            /\ IF Has(e, "script")
               THEN LET b == Built(e.script) IN
                    /\ Chk("layout", e.outs = b.outs, <<"accepted", b.outs>>)
                    /\ New(b.gs, b.rs)
               ELSE New(GroupsOf(e.gs), Set(e.rs))
            /\ vers' = Empty /\ fresh' = TRUE /\ held' = Empty
      [] e.ev = "dropworld" ->
            /\ DropWorld
            /\ vers' = Empty /\ fresh' = TRUE /\ held' = Empty
      [] e.ev = "create" ->
            IF ~Known(e) THEN Unregistered(SetOf(e), e.cs) /\ Same
            ELSE /\ Create(e.h, e.i, e.cs)
                 /\ Chk("reuse", Reused(<<e.i>>, <<e.v>>), <<"index", NextFree>>)
                 /\ Chk("later", Later(<<e.i>>, <<e.v>>), "version")
                 /\ NoteVersions(<<e.i>>, <<e.v>>)
                 /\ UNCHANGED <<fresh, held>>
      [] e.ev = "extend" ->
            IF ~Known(e)
            THEN Unregistered(SetOf(e), Flat([k \in 1..e.made |-> e.items[k]])) /\ Same
            ELSE /\ Extend(e.hs, e.is, SubSeq(e.items, 1, e.made), e.out = "panic")
                 /\ Chk("reuse", Reused(e.is, e.vs), <<"indices", free, top>>)
                 /\ Chk("later", Later(e.is, e.vs), "versions")
                 /\ NoteVersions(e.is, e.vs)
                 /\ UNCHANGED <<fresh, held>>
      [] e.ev = "insert" ->
            /\ IF e.out = "panic" /\ ~Boom(e) THEN Unregistered(SetOf(e), e.cs) ELSE Insert(e.h, e.cs)
            /\ IF e.out = "panic" THEN TRUE
               ELSE Chk(IF e.h \in live THEN "ents" ELSE "stale", e.ret = res'.ret, "insert")
            /\ Same
      [] e.ev = "remove" ->
            /\ IF Known(e) THEN Remove(e.h, e.c)
               ELSE Keep /\ res' = IF e.out = "panic" THEN Panic({}) ELSE Ok([i \in 1..Len(e.c) |-> -1], {})
            /\ IF e.out = "panic" THEN TRUE
               ELSE /\ Chk("ret", e.ret = res'.ret, <<"removed", res'.ret>>)
                    /\ Chk("stale", e.h \in live \/ e.ret = res'.ret, <<"removed", res'.ret>>)
            /\ Same
      [] e.ev = "delete" ->
            /\ IF Known(e) THEN Delete(e.h, Set(e.c)) ELSE Keep /\ res' = Ok(<<>>, {})
            /\ Same
      [] e.ev = "destroy" ->
            /\ Destroy(e.h)
            /\ IF Boom(e) THEN TRUE
               ELSE /\ Chk(IF e.h \in live THEN "ents" ELSE "stale", e.ret = res'.ret, "destroy")
                    /\ Chk("ents", e.ret = res'.ret, "destroy")
            /\ Same
      [] e.ev = "catomic" ->
            /\ CreateAtomic(e.h, e.i)
            /\ Chk("reuse", Reused(<<e.i>>, <<e.v>>), <<"index", NextFree>>)
            /\ Chk("later", Later(<<e.i>>, <<e.v>>), "version")
            /\ NoteVersions(<<e.i>>, <<e.v>>)
            /\ UNCHANGED <<fresh, held>>
      [] e.ev = "conc" ->
            LET hs == Flat(e.hs)  is == Flat(e.is)  vs == Flat(e.vs) IN
            /\ CreateAtomicMany(Set(hs), [h \in Set(hs) |-> is[Where(hs, h)]])
            /\ Chk("ents", e.seen = 0, "visible before maintain")
            /\ Chk("reuse", ReusedConc(e.is), <<"indices", free, top>>)
            /\ Chk("later", Later(is, vs), "versions")
            /\ NoteVersions(is, vs)
            /\ UNCHANGED <<fresh, held>>
      [] e.ev = "churn" ->
            LET first == e.runs[1][1] IN
            /\ free' = IF free = <<>> THEN <<first>> ELSE Rotated(free, e.n % Len(free))
            /\ top' = IF first >= top THEN first + 1 ELSE top
            /\ res' = Ok(<<>>, {})
            /\ Chk("ents", e.done = 2 * e.n, "created and destroyed")
            /\ Chk("reuse", ChurnReuse(e.n, e.runs), <<"indices", free, top>>)
            /\ Chk("later", ChurnLater(e.runs), "versions")
            /\ vers' = Over([i \in {e.runs[j][1] : j \in 1..Len(e.runs)} |->
                             LET rs == e.runs[CHOOSE j \in 1..Len(e.runs) : e.runs[j][1] = i][2] IN rs[Len(rs)][2]], vers)
            /\ UNCHANGED <<live, queued, issued, reg, groups, store, idx, fresh, held>>
      [] e.ev = "maintain" -> Maintain /\ Same
      [] e.ev = "clear" -> Clear /\ fresh' = FALSE /\ UNCHANGED <<vers, held>>
      [] e.ev = "reset" -> Reset /\ fresh' = TRUE /\ vers' = Empty /\ UNCHANGED held
      [] e.ev = "setlayout" -> SetLayout(GroupsOf(e.gs)) /\ Same
      [] e.ev = "register" ->
            /\ Register(e.c)
            /\ Chk("reg", e.ret = res'.ret, "register")
            /\ Same
      [] e.ev = "isreg" ->
            /\ Keep /\ res' = Ok(reg, {}) /\ Same
            /\ Chk("reg", Set(e.regs) = reg /\ Set(e.dynregs) = reg, <<"registered", reg>>)
            /\ LET in == UNION groups IN
               /\ Chk("layout", Set(e.grouped) = in /\ Set(e.groupedx) = in, <<"grouped", in>>)
               /\ LET fams == {<<a, b>> \in in \X in : SameFamily(groups, a, b)} IN
                  Chk("layout", Set(e.fams) = fams /\ Set(e.famsv) = fams /\ Set(e.famsq) = fams, <<"families of", groups>>)
               /\ Chk("layout", Set(e.alone) = reg /\ e.both, "information of one view or none")
      [] e.ev = "layout" ->
            LET a == Accepted(e.adds) IN
            /\ Chk("layout", e.outs = a.outs, <<"accepted", a.outs>>)
            /\ IF e.outs # a.outs THEN Keep /\ Same /\ res' = Ok(<<>>, {}) ELSE
               IF ~Flag(e, "use") THEN Keep /\ Same /\ res' = Ok(<<>>, {})
               ELSE IF Flag(e, "fresh")
               THEN /\ New(a.gs, {})
                    /\ Chk("drops", DropsAre(e.drops, Held(store, live, Comp)), "drops of the old world")
                    /\ vers' = Empty /\ fresh' = TRUE /\ UNCHANGED held
               ELSE SetLayout(a.gs) /\ Same
      [] e.ev = "probe" ->
            /\ Keep /\ Same /\ res' = Ok(<<>>, {})
            /\ Chk("ents", e.alive = (e.h \in live), "contains_entity")
            /\ \A i \in 1..Len(e.cs) :
                LET c == e.cs[i][1]  has == e.h \in DOMAIN store[c] IN
                Chk(IF e.h \in live THEN "qone" ELSE "stale",
                    /\ e.cs[i][2] = IF has THEN 1 ELSE 0
                    /\ e.cs[i][3] = IF has THEN store[c][e.h] ELSE -1,
                    <<"component", c, has>>)
      [] e.ev = "qall" -> QAll(e)
      [] e.ev = "qone" -> QOne(e)
      [] e.ev = "view" ->
            IF e.c \notin reg THEN Keep /\ Same /\ res' = Panic({}) ELSE
            LET s == store[e.c] IN
            /\ IF ~e.x THEN Keep /\ res' = Ok(<<>>, {})
               ELSE IF e.how = "all" THEN WriteAll(e.c)
               ELSE IF e.how \in {"one", "idx"} THEN WriteOne(e.c, e.wh)
               ELSE Keep /\ res' = Ok(<<>>, {})
            /\ Same
            /\ Chk("views", /\ Set(e.ids) = DOMAIN s /\ Len(e.ids) = Cardinality(DOMAIN s)
                            /\ Len(e.vals) = Len(e.ids)
                            /\ \A k \in 1..Len(e.ids) : e.vals[k] = s[e.ids[k]]
                            /\ e.len = Cardinality(DOMAIN s) /\ e.empty = (DOMAIN s = {}),
                   <<"view of", e.c, s>>)
            /\ \A k \in 1..Len(e.ps) :
                LET h == e.ps[k]  has == h \in DOMAIN s  v == IF has THEN s[h] ELSE -1 IN
                /\ Chk("views", e.probes[k] = <<IF has THEN 1 ELSE 0, v, v>>, <<"lookup", h, v>>)
                /\ Chk("stale", h \in live \/ e.probes[k] = <<0, -1, -1>>, <<"lookup", h>>)
            /\ IF e.x /\ e.how \in {"one", "idx"}
               THEN /\ Chk("views", e.wret = res'.ret, <<"write", res'.ret>>)
                    /\ Chk("stale", e.wh \in live \/ e.wret = -1, "write")
               ELSE TRUE
      [] e.ev = "acq" ->
            /\ Keep /\ UNCHANGED <<vers, fresh>> /\ res' = Ok(<<>>, {})
            /\ held' = IF ~AcqOk(e) \/ e.kind \in {"iterpanic", "tryview", "tryviewmut", "tryqall"} THEN held
                       ELSE (e.slot :> IF Has(e, "q") THEN [sh |-> ShOf(e.q), ex |-> ExOf(e.q)]
                                       ELSE IF e.kind \in {"viewmut", "viewmutg"} THEN [sh |-> {}, ex |-> {e.c}]
                                       ELSE [sh |-> {e.c}, ex |-> {}]) @@ held
      [] e.ev = "rel" ->
            /\ Keep /\ UNCHANGED <<vers, fresh>> /\ res' = Ok(<<>>, {})
            /\ held' = Without(held, {e.slot})
      [] e.ev = "relall" ->
            /\ Keep /\ UNCHANGED <<vers, fresh>> /\ res' = Ok(<<>>, {})
            /\ held' = Empty
      [] e.ev = "obs" -> Keep /\ Same /\ res' = Ok(<<>>, {})
      [] OTHER -> Reject("out", "unknown event")

NoDrops == {"layout", "acq", "rel", "relall"}

Step ==
    /\ l <= N /\ ~stop
    /\ LET e == Log[l]
           w == Wrong(e)
       IN  IF w = ""
           THEN /\ Do(e)
                /\ IF e.ev \in NoDrops THEN TRUE ELSE Dropped(e)
                /\ Observed(e)
                /\ l' = l + 1
                /\ stop' = \/ (e.ev = "layout" /\ e.outs # Accepted(e.adds).outs)
                            \/ (e.ev = "new" /\ Has(e, "script") /\ e.outs # Built(e.script).outs)
           ELSE IF w \in Aspects \cup {"out"} THEN Reject(w, "not a step")
           ELSE /\ PrintT(<<"STOP", l, w>>)
                /\ stop' = TRUE
                /\ UNCHANGED <<vars, l, vers, fresh, held>>

TraceInit ==
    /\ WorldInit({}, {})
    /\ l = 1 /\ vers = Empty /\ fresh = TRUE /\ held = Empty /\ stop = FALSE

TraceSpec == TraceInit /\ [][Step]_tvars

(* Traces stay away from the last version; that is for churn (Limits).      *)
NeverRetired(h) == FALSE

(* The specification's own invariants hold along every trace.               *)
Inv == TypeOK /\ Disjoint /\ Owners /\ GroupsRegistered

(* One state per line consumed, plus the initial one and that of a stop.    *)
Report == PrintT(<<"DONE", TLCGet("stats").diameter - 1, N>>)
=============================================================================
