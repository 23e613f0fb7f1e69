------------------------------ MODULE Storage ------------------------------
(***************************************************************************)
(* The component storage, shaped like src/component: dense arrays, sparse  *)
(* slots with versions, groups as prefixes of the dense arrays, masks that *)
(* decide which groups an operation touches, and the ranges queries take.  *)
(*                                                                         *)
(* The main property is refinement of World (C06 to C09, C16, C20, C21);   *)
(* on top, invariants about the arrays and groups, and, for every query    *)
(* over Comp, that what the code iterates or slices is what Query says     *)
(* (C10, C11, C12).                                                        *)
(*                                                                         *)
(* Defect # "" switches in one realistic mistake, to show that the         *)
(* properties can fail.  "swap_versions", "range_zero", "exclude_any",     *)
(* "exclude_all" and "extend_panic" are defects the library had.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
    Comp,      \* component types: 0..n
    MaxIndex,  \* entity indices
    MaxVer,    \* versions of an index
    Vals,      \* values of one entity's component; the model adds the entity
    Layouts,   \* the layouts in use: sequences of families <<comps, arities>>
    MaxBulk,   \* items of a bulk creation
    Yes, No,
    Defect

VARIABLES
    \* The code.
    lay,     \* the layout, as a position in Layouts
    dense,   \* component -> sequence of [e, v]
    sparse,  \* component -> (index -> slot); a slot is <<>> or <<position, version>>
    glen,    \* group -> number of entities in it
    \* What callers know.
    live, last, store, res, op

code == <<lay, dense, sparse, glen>>
ghost == <<op, live, last, store, res>>
vars == <<code, ghost>>

Index == 0..(MaxIndex - 1)
Handles == Index \X (1..MaxVer)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

------------------------------------------------------------------------------
(* Groups of a layout, in the order of the code: family by family, from the *)
(* smallest group of a family to the largest.  cs is the family's           *)
(* components; the group is the first n of them, the next smaller one the   *)
(* first p; its family's groups are numbers lo to hi.                       *)
RECURSIVE FlatFrom(_, _)
FlatFrom(fs, at) ==
    IF fs = <<>> THEN <<>>
    ELSE LET f == Head(fs)
             k == Len(f[2])
             g == [i \in 1..k |-> [cs |-> f[1], n |-> f[2][i],
                                   p |-> IF i = 1 THEN 0 ELSE f[2][i - 1],
                                   lo |-> at, hi |-> at + k - 1]]
         IN g \o FlatFrom(Tail(fs), at + k)
GroupsOf == [l \in 1..Len(Layouts) |-> FlatFrom(Layouts[l], 1)]
First(s, n) == {s[i] : i \in 1..n}
GroupSets(l) == {First(GroupsOf[l][g].cs, GroupsOf[l][g].n) : g \in 1..Len(GroupsOf[l])}

(* The group that introduces a component, 0 if none does; its place in the  *)
(* family.                                                                  *)
Home(l, c) ==
    LET G == {g \in 1..Len(GroupsOf[l]) :
                \E i \in (GroupsOf[l][g].p + 1)..GroupsOf[l][g].n : GroupsOf[l][g].cs[i] = c}
    IN IF G = {} THEN 0 ELSE CHOOSE g \in G : TRUE
InsertMask(l, c) ==
    LET g == Home(l, c) IN
    IF g = 0 THEN {}
    ELSE IF Defect = "insert_own" THEN g..GroupsOf[l][g].hi
    ELSE GroupsOf[l][g].lo..GroupsOf[l][g].hi
DeleteMask(l, c) ==
    LET g == Home(l, c) IN
    IF g = 0 THEN {}
    ELSE IF Defect = "delete_own" THEN {g}
    ELSE g..GroupsOf[l][g].hi
Masks(l, C, M(_, _)) == UNION {M(l, c) : c \in C}

------------------------------------------------------------------------------
(* One sparse set.  A state of the code is a record [d, s, n].              *)
Slot(st, c, h) == st.s[c][h[1]]
Find(st, c, h) ==   \* position of exactly this handle, or 0
    LET s == Slot(st, c, h) IN IF s # <<>> /\ s[2] = h[2] THEN s[1] ELSE 0
HasIndex(st, c, h) == Slot(st, c, h) # <<>>

Put1(st, c, h, v) ==
    LET s == Slot(st, c, h) IN
    IF s # <<>> THEN [st EXCEPT !.d[c][s[1]] = [e |-> h, v |-> v]]
    ELSE [st EXCEPT !.d[c] = Append(@, [e |-> h, v |-> v]),
                    !.s[c][h[1]] = <<Len(st.d[c]) + 1, h[2]>>]

(* Moves the last one into the gap.                                         *)
Take1(st, c, h) ==
    LET i == IF Defect = "delete_index" THEN (IF HasIndex(st, c, h) THEN Slot(st, c, h)[1] ELSE 0)
             ELSE Find(st, c, h)
        n == Len(st.d[c])
        lst == st.d[c][n]
        sp == [st.s[c] EXCEPT ![h[1]] = <<>>]
    IN
    IF i = 0 THEN st
    ELSE [st EXCEPT
            !.d[c] = SubSeq([@ EXCEPT ![i] = lst], 1, n - 1),
            !.s[c] = IF i < n /\ Defect # "stale_slot"
                     THEN [sp EXCEPT ![lst.e[1]] = <<i, lst.e[2]>>] ELSE sp]

Swap(st, c, a, b) ==
    LET x == st.d[c][a] y == st.d[c][b]
        sx == st.s[c][x.e[1]] sy == st.s[c][y.e[1]]
    IN [st EXCEPT
          !.d[c][a] = IF Defect = "swap_entities" THEN [e |-> y.e, v |-> x.v] ELSE y,
          !.d[c][b] = IF Defect = "swap_entities" THEN [e |-> x.e, v |-> y.v] ELSE x,
          !.s[c][x.e[1]] = IF Defect = "swap_versions" THEN sy ELSE <<sy[1], sx[2]>>,
          !.s[c][y.e[1]] = IF Defect = "swap_versions" THEN sx ELSE <<sx[1], sy[2]>>]

------------------------------------------------------------------------------
(* Groups.                                                                  *)
Status(l, st, g, h) ==
    LET G == GroupsOf[l][g]
        d == Find(st, G.cs[G.p + 1], h)
    IN IF d = 0 \/ \E i \in (G.p + 2)..G.n : ~HasIndex(st, G.cs[i], h) THEN "incomplete"
       ELSE IF d <= st.n[g] THEN "grouped" ELSE "ungrouped"

RECURSIVE MoveAll(_, _, _, _)
MoveAll(st, cs, h, to) ==
    IF cs = <<>> THEN st
    ELSE LET s == Slot(st, Head(cs), h)
             d == IF s = <<>> THEN to ELSE s[1]  \* undefined behaviour in the code
         IN
         MoveAll(IF d = to \/ to > Len(st.d[Head(cs)]) THEN st ELSE Swap(st, Head(cs), d, to), Tail(cs), h, to)

RECURSIVE GroupIn(_, _, _, _)
GroupIn(l, st, mask, h) ==
    IF mask = {} THEN st
    ELSE LET g == CHOOSE x \in mask : \A y \in mask : x <= y
             G == GroupsOf[l][g]
             s == Status(l, st, g, h)
         IN CASE s = "incomplete" ->
                   GroupIn(l, st, IF Defect = "no_skip" THEN mask \ {g} ELSE mask \ (g..G.hi), h)
              [] s = "ungrouped" ->
                   GroupIn(l, [MoveAll(st, SubSeq(G.cs, IF Defect = "move_new" THEN G.p + 1 ELSE 1, G.n),
                                       h, st.n[g] + 1) EXCEPT !.n[g] = @ + 1],
                           mask \ {g}, h)
              [] OTHER -> GroupIn(l, st, mask \ {g}, h)

RECURSIVE GroupOut(_, _, _, _)
GroupOut(l, st, mask, h) ==
    IF mask = {} THEN st
    ELSE LET g == CHOOSE x \in mask : \A y \in mask : IF Defect = "ungroup_up" THEN x <= y ELSE x >= y
             G == GroupsOf[l][g]
         IN GroupOut(l, IF Status(l, st, g, h) # "grouped" THEN st
                        ELSE [MoveAll(st, SubSeq(G.cs, 1, G.n), h, st.n[g]) EXCEPT !.n[g] = @ - 1],
                     mask \ {g}, h)

------------------------------------------------------------------------------
St == [d |-> dense, s |-> sparse, n |-> glen]
Becomes(st) == dense' = st.d /\ sparse' = st.s /\ glen' = st.n

(* cs is a sequence of <<component, value>>.                                *)
RECURSIVE PutAll(_, _, _)
PutAll(st, h, cs) == IF cs = <<>> THEN st ELSE PutAll(Put1(st, Head(cs)[1], h, Head(cs)[2]), h, Tail(cs))
RECURSIVE TakeAll(_, _, _)
TakeAll(st, h, cs) == IF cs = <<>> THEN st ELSE TakeAll(Take1(st, Head(cs), h), h, Tail(cs))

Inserted(l, st, h, cs) ==
    GroupIn(l, PutAll(st, h, cs), Masks(l, {cs[i][1] : i \in 1..Len(cs)}, InsertMask), h)
Removed(l, st, h, C) ==
    TakeAll(GroupOut(l, st, Masks(l, {C[i] : i \in 1..Len(C)}, DeleteMask), h), h, C)

RECURSIVE Ordered(_)
Ordered(C) == IF C = {} THEN <<>>
              ELSE LET m == CHOOSE x \in C : \A y \in C : x <= y IN <<m>> \o Ordered(C \ {m})
CompSeq == Ordered(Comp)
Sets == {Ordered(C) : C \in SUBSET Comp}
Stripped(l, st, h) ==
    TakeAll(GroupOut(l, st, IF Defect = "strip_first" THEN (1..Len(GroupsOf[l])) \cap {1} ELSE 1..Len(GroupsOf[l]), h),
            h, CompSeq)

NoSlots == [i \in Index |-> <<>>]
Empty == [c \in Comp |-> <<>>]
NoGroups(l) == [g \in 1..Len(GroupsOf[l]) |-> 0]

------------------------------------------------------------------------------
(* The ghost: the store as World has it.  Values carry their entity.        *)
Value(h, k) == <<h, k>>
With(cs, h, k) == [i \in 1..Len(cs) |-> <<cs[i], Value(h, k)>>]
Held(s, H, C) == UNION {{<<c, h, s[c][h]>> : h \in H \cap DOMAIN s[c]} : c \in C}
PutStore(s, h, cs) == [c \in Comp |->
    IF \E i \in 1..Len(cs) : cs[i][1] = c
    THEN (h :> cs[CHOOSE i \in 1..Len(cs) : cs[i][1] = c][2]) @@ s[c] ELSE s[c]]
TakeStore(s, H, C) == [c \in Comp |->
    IF c \in C THEN [h \in DOMAIN s[c] \ H |-> s[c][h]] ELSE s[c]]
EmptyStore == [c \in Comp |-> [h \in {} |-> 0]]
Ok(ret, drops) == [out |-> "ok", ret |-> ret, drops |-> drops]

(* Entity handles, as the allocator issues them (see EntityAlloc).          *)
Free == {i \in Index : last[i] < MaxVer /\ ~\E v \in 1..last[i] : <<i, v>> \in live}
Fresh == {<<i, last[i] + 1>> : i \in {j \in Free : \A k \in Free : j <= k}}

Init ==
    /\ lay = 1 /\ dense = Empty /\ sparse = [c \in Comp |-> NoSlots] /\ glen = NoGroups(1)
    /\ live = {} /\ last = [i \in Index |-> 0] /\ store = EmptyStore
    /\ res = Ok(<<>>, {}) /\ op = <<"init">>

Create(h, cs, k) ==
    /\ h \in Fresh
    /\ Becomes(Inserted(lay, St, h, With(cs, h, k)))
    /\ live' = live \cup {h} /\ last' = [last EXCEPT ![h[1]] = h[2]]
    /\ store' = PutStore(store, h, With(cs, h, k))
    /\ res' = Ok(<<h>>, {}) /\ op' = <<"create", h, cs, k>>
    /\ UNCHANGED lay

(* Bulk creation puts everything in first, and groups afterwards.           *)
Bulk(n) ==  \* the handles a bulk creation gets
    LET F == Ordered(Free) IN [i \in 1..Min(n, Len(F)) |-> <<F[i], last[F[i]] + 1>>]
RECURSIVE PutMany(_, _, _, _), GroupMany(_, _, _, _), StoreMany(_, _, _, _)
PutMany(st, hs, cs, k) ==
    IF hs = <<>> THEN st ELSE PutMany(PutAll(st, Head(hs), With(cs, Head(hs), k)), Tail(hs), cs, k)
GroupMany(l, st, hs, mask) ==
    IF hs = <<>> THEN st ELSE GroupMany(l, GroupIn(l, st, mask, Head(hs)), Tail(hs), mask)
StoreMany(s, hs, cs, k) ==
    IF hs = <<>> THEN s ELSE StoreMany(PutStore(s, Head(hs), With(cs, Head(hs), k)), Tail(hs), cs, k)
Extend(n, cs, k, fails) ==
    LET hs == Bulk(n)
        H == {hs[i] : i \in 1..Len(hs)}
        put == PutMany(St, hs, cs, k) IN
    /\ n > 0 => Len(hs) = n
    /\ Becomes(IF Defect = "extend_panic" /\ fails THEN put
               ELSE IF Defect = "extend_first" THEN GroupMany(lay, put, SubSeq(hs, 1, Min(1, n)), Masks(lay, {cs[i] : i \in 1..Len(cs)}, InsertMask))
               ELSE GroupMany(lay, put, hs, Masks(lay, {cs[i] : i \in 1..Len(cs)}, InsertMask)))
    /\ live' = live \cup H
    /\ last' = [i \in Index |-> last[i] + Cardinality({h \in H : h[1] = i})]
    /\ store' = StoreMany(store, hs, cs, k)
    /\ res' = IF fails THEN [out |-> "panic", ret |-> <<>>, drops |-> {}] ELSE Ok(hs, {})
    /\ op' = <<"extend", hs, cs, k, fails>>
    /\ UNCHANGED lay

Insert(h, cs, k) ==
    /\ op' = <<"insert", h, cs, k>>
    /\ UNCHANGED <<lay, live, last>>
    /\ IF h \in live
       THEN /\ Becomes(Inserted(lay, St, h, With(cs, h, k)))
            /\ store' = PutStore(store, h, With(cs, h, k))
            /\ res' = Ok(Yes, Held(store, {h}, {cs[i] : i \in 1..Len(cs)}))
       ELSE /\ UNCHANGED <<dense, sparse, glen, store>>
            /\ res' = Ok(No, {<<cs[i], -i, Value(h, k)>> : i \in 1..Len(cs)})

(* What remove hands back comes out of the code's arrays.                   *)
ValueAt(st, c, h) == LET i == Find(st, c, h) IN IF i = 0 THEN -1 ELSE st.d[c][i].v
Remove(h, cs) ==
    /\ Becomes(Removed(lay, St, h, cs))
    /\ store' = TakeStore(store, {h}, {cs[i] : i \in 1..Len(cs)})
    /\ res' = Ok([i \in 1..Len(cs) |->
                    ValueAt(GroupOut(lay, St, Masks(lay, {cs[j] : j \in 1..Len(cs)}, DeleteMask), h), cs[i], h)], {})
    /\ op' = <<"remove", h, cs>>
    /\ UNCHANGED <<lay, live, last>>

(* What is dropped comes out of the code's arrays, too.                     *)
InCode(h) == {<<c, h, ValueAt(St, c, h)>> : c \in {x \in Comp : Find(St, x, h) # 0}}
Destroy(h) ==
    /\ op' = <<"destroy", h>>
    /\ UNCHANGED <<lay, last>>
    /\ IF h \in live
       THEN /\ Becomes(Stripped(lay, St, h))
            /\ live' = live \ {h}
            /\ store' = TakeStore(store, {h}, Comp)
            /\ res' = Ok(Yes, InCode(h))
       ELSE UNCHANGED <<dense, sparse, glen, live, store>> /\ res' = Ok(No, {})

Clear ==
    /\ dense' = Empty /\ sparse' = [c \in Comp |-> NoSlots]
    /\ glen' = IF Defect = "clear_len" THEN glen ELSE NoGroups(lay)
    /\ live' = {} /\ store' = EmptyStore
    /\ res' = Ok(<<>>, Held(store, live, Comp)) /\ op' = <<"clear">>
    /\ UNCHANGED <<lay, last>>

(* reset: handles start over.                                               *)
Reset ==
    /\ dense' = Empty /\ sparse' = [c \in Comp |-> NoSlots]
    /\ glen' = IF Defect = "clear_len" THEN glen ELSE NoGroups(lay)
    /\ live' = {} /\ store' = EmptyStore /\ last' = [i \in Index |-> 0]
    /\ res' = Ok(<<>>, Held(store, live, Comp)) /\ op' = <<"reset">>
    /\ UNCHANGED lay

RECURSIVE GroupAll(_, _, _)
GroupAll(l, st, hs) ==
    IF hs = <<>> THEN st
    ELSE GroupAll(l, GroupIn(l, st, 1..Len(GroupsOf[l]), Head(hs)), Tail(hs))
(* Any order of the entities will do; the code takes that of its list.      *)
RECURSIVE AnyOrder(_)
AnyOrder(H) == IF H = {} THEN <<>>
               ELSE LET h == CHOOSE x \in H : \A y \in H : x[1] <= y[1] IN <<h>> \o AnyOrder(H \ {h})
SetLayout(l) ==
    /\ l # lay /\ lay' = l
    /\ Becomes(IF Defect = "relayout_ungrouped" THEN [St EXCEPT !.n = NoGroups(l)]
               ELSE GroupAll(l, [St EXCEPT !.n = NoGroups(l)], AnyOrder(live)))
    /\ res' = Ok(<<>>, {}) /\ op' = <<"setlayout", l>>
    /\ UNCHANGED <<live, last, store>>

Next ==
    \/ \E cs \in Sets, k \in Vals : \E h \in Fresh : Create(h, cs, k)
    \/ \E n \in 0..MaxBulk, cs \in Sets, k \in Vals, f \in BOOLEAN : Extend(n, cs, k, f)
    \/ \E h \in Handles : h[2] <= last[h[1]] /\
        \/ \E cs \in Sets \ {<<>>}, k \in Vals : Insert(h, cs, k)
        \/ \E cs \in Sets \ {<<>>} : Remove(h, cs)
        \/ Destroy(h)
    \/ Clear
    \/ Reset
    \/ \E l \in 1..Len(Layouts) : SetLayout(l)

Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* Refinement of World.                                                     *)
Issued == {h \in Handles : h[2] <= last[h[1]]}
NeverRetired(h) == FALSE
W == INSTANCE World WITH
        Zst <- {}, Retired <- NeverRetired,
        queued <- {}, issued <- Issued, reg <- Comp,
        groups <- GroupSets(lay),
        free <- <<>>, top <- 0, idx <- [h \in live |-> 0]

(* Indices and the queue are EntityAlloc's business; here World's actions   *)
(* are taken without them.                                                  *)
WCreate(h, cs) ==
    /\ h \notin Issued /\ live' = live \cup {h} /\ store' = W!Put(store, h, cs)
    /\ res' = Ok(<<h>>, {})
WExtend(hs, cs, fails) ==
    LET S[i \in 0..Len(hs)] == IF i = 0 THEN store ELSE W!Put(S[i-1], hs[i], cs[i]) IN
    /\ \A i \in 1..Len(hs) : hs[i] \notin Issued
    /\ live' = live \cup {hs[i] : i \in 1..Len(hs)}
    /\ store' = S[Len(hs)]
    /\ res' = IF fails THEN W!Panic({}) ELSE Ok(hs, {})
WorldNext ==
    CASE op'[1] = "create" -> WCreate(op'[2], With(op'[3], op'[2], op'[4]))
      [] op'[1] = "extend" -> WExtend(op'[2], [i \in 1..Len(op'[2]) |-> With(op'[3], op'[2][i], op'[4])], op'[5])
      [] op'[1] = "insert" -> W!Insert(op'[2], With(op'[3], op'[2], op'[4]))
      [] op'[1] = "remove" -> W!Remove(op'[2], op'[3])
      [] op'[1] = "destroy" ->
            IF op'[2] \in live
            THEN /\ live' = live \ {op'[2]} /\ store' = W!Take(store, {op'[2]}, Comp)
                 /\ res' = Ok(Yes, W!Held(store, {op'[2]}, Comp))
            ELSE UNCHANGED <<live, store>> /\ res' = Ok(No, {})
      [] op'[1] \in {"clear", "reset"} ->
            live' = {} /\ store' = W!EmptyStore /\ res' = Ok(<<>>, W!Held(store, live, Comp))
      [] op'[1] = "setlayout" -> UNCHANGED <<live, store>>
      [] OTHER -> FALSE
Refines == [][WorldNext]_ghost

------------------------------------------------------------------------------
(* The arrays.                                                              *)
Range(s) == {s[i] : i \in 1..Len(s)}
(* C23: entities and values of a dense array are those of the store.        *)
Contents == \A c \in Comp :
    /\ Len(dense[c]) = Cardinality(DOMAIN store[c])
    /\ Range(dense[c]) = {[e |-> h, v |-> store[c][h]] : h \in DOMAIN store[c]}
(* C06, C07: looking up a handle finds its own place, or nothing.           *)
Slots == \A c \in Comp, i \in Index :
    LET s == sparse[c][i] IN
    IF s = <<>> THEN \A p \in 1..Len(dense[c]) : dense[c][p].e[1] # i
    ELSE s[1] \in 1..Len(dense[c]) /\ dense[c][s[1]].e = <<i, s[2]>>
(* C10: a group is the common, aligned prefix of its components, and holds  *)
(* exactly the entities that have all of them.                              *)
GroupsOK == \A g \in 1..Len(GroupsOf[lay]) :
    LET G == GroupsOf[lay][g]
        C == First(G.cs, G.n)
        H == {h \in live : \A c \in C : h \in DOMAIN store[c]}
    IN /\ glen[g] = Cardinality(H)
       /\ \A c \in C : Len(dense[c]) >= glen[g] /\ {dense[c][p].e : p \in 1..glen[g]} = H
       /\ \A p \in 1..glen[g], c \in C : dense[c][p].e = dense[G.cs[1]][p].e

------------------------------------------------------------------------------
(* Queries: every assignment of a role to each component, in both orders.   *)
Roles == [Comp -> {"none", "get", "opt", "inc", "exc", "excopt"}]
Rolled(f, r) == SelectSeq(CompSeq, LAMBDA c : f[c] = r)
Parts(k, cs) == [i \in 1..Len(cs) |-> <<k, cs[i]>>]
QueryOf(f, ent) ==
    [get |-> (IF ent THEN <<<<"ent", 0>>>> ELSE <<>>) \o Parts("ref", Rolled(f, "get")) \o Parts("oref", Rolled(f, "opt")),
     inc |-> Parts("ref", Rolled(f, "inc")),
     exc |-> Parts("ref", Rolled(f, "exc")) \o Parts("oref", Rolled(f, "excopt"))]

(* QueryGroupInfo: Empty, One, Many or incompatible.                        *)
InfoEmpty == [kind |-> "empty"]
Incompatible == [kind |-> "incompatible"]
InfoOf(c) ==
    LET g == Home(lay, c) IN
    IF g = 0 THEN [kind |-> "one", c |-> c, grp |-> FALSE]
    ELSE LET G == GroupsOf[lay][g] IN
         [kind |-> "one", c |-> c, grp |-> TRUE, lo |-> G.lo, hi |-> g,
          mask |-> {CHOOSE i \in 1..Len(G.cs) : G.cs[i] = c}]
Grouped(x) == x.kind \in {"one", "many"} /\ (x.kind = "one" => x.grp)
Combine(x, y) ==
    CASE x.kind = "empty" -> y
      [] y.kind = "empty" -> x
      [] OTHER -> IF Grouped(x) /\ Grouped(y) /\ x.lo = y.lo
                  THEN [kind |-> "many", lo |-> x.lo, hi |-> Max(x.hi, y.hi), mask |-> x.mask \cup y.mask]
                  ELSE Incompatible
RECURSIVE InfoFrom(_, _)
InfoFrom(x, cs) ==
    IF cs = <<>> \/ x = Incompatible THEN x ELSE InfoFrom(Combine(x, InfoOf(Head(cs))), Tail(cs))
Infos(ps) == InfoFrom(InfoEmpty, LET r == W!ReqParts(ps) IN [i \in 1..Len(r) |-> r[i][2]])

NoRange == <<0, -1, "none">>
GroupRange(q) ==
    LET gi == Infos(q.get) ii == Infos(q.inc) ei == Infos(q.exc)
        x == IF gi = Incompatible \/ ii = Incompatible THEN Incompatible ELSE Combine(gi, ii)
    IN
    IF x = Incompatible \/ ei = Incompatible THEN NoRange
    ELSE IF W!Trivial(q.exc) /\ Defect # "exclude_all" THEN NoRange
    ELSE IF x.kind = "one" /\ ei.kind = "empty" THEN <<1, Len(dense[x.c]), "dense">>
    ELSE IF x.kind = "many" /\ ei.kind = "empty"
         THEN IF x.mask = 1..GroupsOf[lay][x.hi].n THEN <<1, glen[x.hi], "dense">> ELSE NoRange
    ELSE IF ~Grouped(x) \/ ~Grouped(ei) \/ x.lo # ei.lo THEN NoRange
    ELSE LET g == Max(x.hi, ei.hi) G == GroupsOf[lay][g] IN
         IF ~(x.mask = 1..G.p /\ ei.mask = (G.p + 1)..G.n) THEN NoRange
         ELSE IF /\ G.n - G.p > 1 /\ Defect # "exclude_any"
                 /\ LET off == {i \in (G.p + 1)..G.n : Len(dense[G.cs[i]]) # glen[g]} IN
                    IF Defect = "exclude_every" THEN off = (G.p + 1)..G.n ELSE off # {}
              THEN NoRange
         ELSE IF Defect = "range_zero" THEN <<1, glen[g - 1] - glen[g], "dense">>
         ELSE <<glen[g] + 1, glen[g - 1], "dense">>

(* Rows the code produces.  Column reads go to the given position in dense  *)
(* iteration, and through the sparse slots otherwise.                       *)
CellAt(p, pos, h) ==
    IF p[1] = "ent" THEN h
    ELSE IF W!Required(p) THEN dense[p[2]][pos].v
    ELSE ValueAt(St, p[2], h)
CellOf(p, h) ==
    IF p[1] = "ent" THEN h ELSE ValueAt(St, p[2], h)
(* The shortest list of the required parts; of the included ones only if    *)
(* it is shorter.                                                           *)
RECURSIVE Shortest(_, _)
Shortest(c, cs) ==
    IF cs = <<>> THEN c
    ELSE Shortest(IF c = -1 \/ Len(dense[Head(cs)]) < Len(dense[c]) THEN Head(cs) ELSE c, Tail(cs))
Req(ps) == LET r == W!ReqParts(ps) IN [i \in 1..Len(r) |-> r[i][2]]
CodeRows(q) ==
    LET r == GroupRange(q)
        lead == LET p == Req(q.get) \o Req(q.inc) IN IF p = <<>> THEN -1 ELSE p[1]
        short == Shortest(Shortest(-1, Req(q.get)), Req(q.inc))
    IN
    IF r[3] = "dense"
    THEN [i \in 1..(r[2] - r[1] + 1) |->
            [j \in 1..Len(q.get) |-> CellAt(q.get[j], r[1] + i - 1, dense[lead][r[1] + i - 1].e)]]
    ELSE IF short = -1 THEN <<>>
    ELSE LET ok(x) == /\ ~W!Trivial(q.exc) /\ \A c \in Range(Req(q.exc)) : ~HasIndex(St, c, x.e)
                      /\ \A c \in Range(Req(q.inc)) : HasIndex(St, c, x.e)
                      /\ \A c \in Range(Req(q.get)) : Find(St, c, x.e) # 0
             s == SelectSeq(dense[short], ok)
         IN [i \in 1..Len(s) |-> [j \in 1..Len(q.get) |-> CellOf(q.get[j], s[i].e)]]

QueryOK(q) ==
    LET rows == CodeRows(q)
        H == W!AllMatches(store, q)
    IN /\ Len(rows) = Cardinality(H)
       /\ Range(rows) = {W!Row(store, q.get, h) : h \in H}
       /\ W!MustBeDense(GroupSets(lay), q) => GroupRange(q)[3] = "dense"
Queries == {QueryOf(f, TRUE) : f \in Roles}
QueriesOK == \A q \in Queries : QueryOK(q)

(* Single entities: C12, C07.                                               *)
OneOK == \A f \in [Comp -> {"none", "get", "inc", "exc"}], h \in Handles :
    LET q == QueryOf(f, FALSE)
        finds == /\ \A c \in Range(Req(q.get)) \cup Range(Req(q.inc)) : Find(St, c, h) # 0
                 /\ \A c \in Range(Req(q.exc)) : Find(St, c, h) = 0
    IN finds <=> W!Matches(store, q, h)

(* Keeps configurations that only look at states small.                     *)
View == <<code, live, last, store>>
=============================================================================
