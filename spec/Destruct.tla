------------------------------- MODULE Destruct -------------------------------
(***************************************************************************)
(* Destructors that panic (C24), and where values are while they run (C08).*)
(*                                                                         *)
(* Shaped like the code: a storage is memory and a length, an operation is *)
(* a sequence of small steps, values that it took out or was given are     *)
(* held until it ends.  A step that drops a value may panic.  Then the     *)
(* rest of its frame is left out, while the steps of other frames are      *)
(* still done (the guard that goes on with the other storages), and at the *)
(* end what is held is dropped (unwinding).  While a panic is under way    *)
(* no other destructor panics: Rust would abort.                           *)
(*                                                                         *)
(* What must hold when the operation is over: values were dropped at most  *)
(* once, what is in the storages was not, and the storages, the entities   *)
(* and the group are as if nothing had panicked.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
    Comp,    \* component types
    Ent,     \* entities
    Defect   \* a mistake to switch in, or ""

Val == 1..(Cardinality(Comp) * (Cardinality(Ent) + 1))

VARIABLES
    mem,     \* [Comp -> Seq of [e, v]]: memory written so far
    len,     \* [Comp -> Nat]: how much of it is the storage
    grouped, \* the members of the group of all types
    live,    \* entities in the world
    phase,   \* "idle", "run", "done", "over"
    todo,    \* what is left to do: [k, c, e, v, f], f is the frame
    hold,    \* values the operation holds
    gone,    \* frames that were left by a panic
    drops,   \* [Val -> Nat]: how often each value was dropped
    out,     \* values handed to the caller
    want,    \* [Comp -> [Ent -> Val \cup {0}]]: what the operation must lead to
    all,     \* values there were when it began, and those it was given
    op

vars == <<mem, len, grouped, live, phase, todo, hold, gone, drops, out, want, all, op>>
View == <<mem, len, grouped, live, phase, todo, hold, gone, drops, out, want, all>>

In(c) == {i \in 1..len[c] : TRUE}
At(c, e) == LET I == {i \in In(c) : mem[c][i].e = e} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Content == [c \in Comp |-> [e \in Ent |-> IF At(c, e) = 0 THEN 0 ELSE mem[c][At(c, e)].v]]
Held == {Content[x[1]][x[2]] : x \in Comp \X Ent} \ {0}
Members(w) == {e \in Ent : \A c \in Comp : w[c][e] # 0}

(* Values not in use, in order.                                             *)
RECURSIVE Fresh(_, _)
Fresh(k, used) ==
    IF k = 0 THEN <<>>
    ELSE LET v == CHOOSE x \in Val \ used : \A y \in Val \ used : x <= y
         IN <<v>> \o Fresh(k - 1, used \cup {v})

RECURSIVE Order(_)
Order(C) == IF C = {} THEN <<>>
            ELSE LET c == CHOOSE x \in C : \A y \in C : x <= y IN <<c>> \o Order(C \ {c})

Step(k, c, e, v, f) == [k |-> k, c |-> c, e |-> e, v |-> v, f |-> f]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

------------------------------------------------------------------------------
(* The operations as programs.  Frame 0 is the operation itself; storages   *)
(* that are gone through one by one have a frame each.                      *)
Frame(d, c) == IF Defect = d THEN 0 ELSE c + 1

InsertSteps(e, cs, vs) ==
    IF Defect = "overwrite_in_place" THEN
        Flat([i \in 1..Len(cs) |-> <<Step("dropat", cs[i], e, 0, 0), Step("write", cs[i], e, vs[i], 0)>>])
        \o <<Step("group", 0, e, 0, 0)>>
    ELSE IF Defect = "drop_each" THEN
        Flat([i \in 1..Len(cs) |-> <<Step("put", cs[i], e, vs[i], 0), Step("drop", cs[i], e, 0, 0)>>])
        \o <<Step("group", 0, e, 0, 0)>>
    ELSE
        [i \in 1..Len(cs) |-> Step("put", cs[i], e, vs[i], 0)]
        \o (IF Defect = "group_last" THEN <<Step("drop", 0, e, 0, 0), Step("group", 0, e, 0, 0)>>
            ELSE <<Step("group", 0, e, 0, 0)>>)

DeleteSteps(e, cs) ==
    <<Step("ungroup", 0, e, 0, 0)>> \o
    Flat([i \in 1..Len(cs) |->
            CASE Defect = "delete_in_place" -> <<Step("dropat", cs[i], e, 0, 0), Step("unlink", cs[i], e, 0, 0)>>
              [] Defect = "delete_each" -> <<Step("take", cs[i], e, 0, 0), Step("drop", cs[i], e, 0, 0)>>
              [] OTHER -> <<Step("take", cs[i], e, 0, 0)>>])

StripSteps(e) ==
    <<Step("ungroup", 0, e, 0, 0)>> \o
    Flat([i \in 1..Cardinality(Comp) |->
            LET c == Order(Comp)[i] f == Frame("strip_stops", c) IN
            IF Defect = "strip_in_place" THEN <<Step("dropat", c, e, 0, f), Step("unlink", c, e, 0, f)>>
            ELSE <<Step("take", c, e, 0, f), Step("drop", c, e, 0, f)>>])

ClearSteps ==
    <<Step("disband", 0, 0, 0, 0)>> \o
    Flat([i \in 1..Cardinality(Comp) |->
            LET c == Order(Comp)[i] f == Frame("clear_stops", c)
                d == [j \in 1..len[c] |-> Step("dropcell", c, 0, j, f)]
            IN IF Defect = "length_last" THEN d \o <<Step("empty", c, 0, 0, f)>>
               ELSE <<Step("empty", c, 0, 0, f)>> \o d])

(* The world is dropped; the storages drop what they hold.                  *)
DropSteps ==
    Flat([i \in 1..Cardinality(Comp) |->
            LET c == Order(Comp)[i]
                d == [j \in 1..len[c] |-> Step("dropcell", c, 0, j, c + 1)]
            IN IF Defect = "drop_again" THEN d \o [j \in 1..len[c] |-> Step("dropcell", c, 0, j, c + 10)] ELSE d])

------------------------------------------------------------------------------
Begin(o, steps, given, w, lv) ==
    /\ phase = "idle"
    /\ op' = o /\ todo' = steps /\ hold' = given /\ want' = w /\ live' = lv
    /\ all' = Held \cup given /\ phase' = "run"
    /\ UNCHANGED <<mem, len, grouped, gone, drops, out>>

Without(w, e, C) == [c \in Comp |-> IF c \in C THEN [w[c] EXCEPT ![e] = 0] ELSE w[c]]
Nothing == [c \in Comp |-> [e \in Ent |-> 0]]

Insert ==
    \E e \in Ent, C \in SUBSET Comp \ {{}} :
        LET cs == Order(C) vs == Fresh(Len(cs), Held)
            new == [c \in C |-> vs[CHOOSE i \in 1..Len(cs) : cs[i] = c]]
            given == {vs[i] : i \in 1..Len(cs)}
        IN IF e \in live
           THEN Begin(<<"insert", e, C>>, InsertSteps(e, cs, vs), given,
                      [c \in Comp |-> IF c \in C THEN [Content[c] EXCEPT ![e] = new[c]] ELSE Content[c]], live)
           \* Rejected: what was given is dropped.
           ELSE Begin(<<"reject", e, C>>, <<>>, given, Content, live)
Create == \E e \in Ent \ live : Begin(<<"create", e>>, <<>>, {}, Content, live \cup {e})
Delete == \E e \in live, C \in SUBSET Comp \ {{}} :
            Begin(<<"delete", e, C>>, DeleteSteps(e, Order(C)), {}, Without(Content, e, C), live)
Remove == \E e \in live, C \in SUBSET Comp \ {{}} :
            Begin(<<"remove", e, C>>,
                  <<Step("ungroup", 0, e, 0, 0)>> \o [i \in 1..Cardinality(C) |-> Step("take", Order(C)[i], e, 0, 0)]
                    \o <<Step("return", 0, 0, 0, 0)>>,
                  {}, Without(Content, e, C), live)
Destroy == \E e \in live : Begin(<<"destroy", e>>, StripSteps(e), {}, Without(Content, e, Comp), live \ {e})
Clear == Begin(<<"clear">>, ClearSteps, {}, Nothing, {})
DropWorld == Begin(<<"dropworld">>, DropSteps, {}, Nothing, {})

------------------------------------------------------------------------------
Unwinding == gone # {}
(* A value is dropped; p: its destructor panics.                            *)
Drop(v, p, f) ==
    /\ drops' = [drops EXCEPT ![v] = @ + 1]
    /\ p => ~Unwinding
    /\ gone' = IF p THEN {f} ELSE gone

Pop == todo' = Tail(todo)

Unlink(c, i) ==   \* the last one moves into the gap
    /\ mem' = [mem EXCEPT ![c][i] = mem[c][len[c]]]
    /\ len' = [len EXCEPT ![c] = @ - 1]

Append_(c, e, v) ==
    /\ mem' = [mem EXCEPT ![c] = Append(SubSeq(@, 1, len[c]), [e |-> e, v |-> v])]
    /\ len' = [len EXCEPT ![c] = @ + 1]

Do(s) ==
    LET i == IF s.c \in Comp /\ s.k \in {"put", "write", "take", "dropat", "unlink"} THEN At(s.c, s.e) ELSE 0 IN
    CASE s.k = "put" ->
            /\ IF i # 0 THEN /\ mem' = [mem EXCEPT ![s.c][i].v = s.v] /\ len' = len
                             /\ hold' = (hold \ {s.v}) \cup {mem[s.c][i].v}
               ELSE Append_(s.c, s.e, s.v) /\ hold' = hold \ {s.v}
            /\ Pop /\ UNCHANGED <<grouped, drops, gone, out>>
      [] s.k = "write" ->
            /\ IF i # 0 THEN mem' = [mem EXCEPT ![s.c][i].v = s.v] /\ len' = len
               ELSE Append_(s.c, s.e, s.v)
            /\ hold' = hold \ {s.v}
            /\ Pop /\ UNCHANGED <<grouped, drops, gone, out>>
      [] s.k = "take" ->
            /\ IF i # 0 THEN Unlink(s.c, i) /\ hold' = hold \cup {mem[s.c][i].v}
               ELSE UNCHANGED <<mem, len, hold>>
            /\ Pop /\ UNCHANGED <<grouped, drops, gone, out>>
      [] s.k = "unlink" ->
            /\ IF i # 0 THEN Unlink(s.c, i) ELSE UNCHANGED <<mem, len>>
            /\ Pop /\ UNCHANGED <<grouped, drops, gone, out, hold>>
      [] s.k = "dropat" ->
            /\ IF i # 0 THEN \E p \in BOOLEAN : Drop(mem[s.c][i].v, p, s.f) ELSE UNCHANGED <<drops, gone>>
            /\ Pop /\ UNCHANGED <<mem, len, grouped, out, hold>>
      [] s.k = "dropcell" ->
            /\ \E p \in BOOLEAN : Drop(mem[s.c][s.v].v, p, s.f)
            /\ Pop /\ UNCHANGED <<mem, len, grouped, out, hold>>
      [] s.k = "drop" ->
            \* What was taken out, not what is still to be put in.
            LET H == {v \in hold : ~\E j \in 1..Len(todo) : todo[j].k = "put" /\ todo[j].v = v} IN
            /\ IF H # {} THEN /\ \E p \in BOOLEAN, v \in H : Drop(v, p, s.f) /\ hold' = hold \ {v}
                              /\ UNCHANGED todo
               ELSE Pop /\ UNCHANGED <<drops, gone, hold>>
            /\ UNCHANGED <<mem, len, grouped, out>>
      [] s.k = "return" ->
            /\ out' = hold /\ hold' = {}
            /\ Pop /\ UNCHANGED <<mem, len, grouped, drops, gone>>
      [] s.k = "empty" ->
            /\ len' = [len EXCEPT ![s.c] = 0]
            /\ Pop /\ UNCHANGED <<mem, grouped, drops, gone, hold, out>>
      [] s.k \in {"group", "ungroup", "disband"} ->
            /\ grouped' = IF s.k = "disband" THEN {}
                          ELSE IF s.k = "ungroup" THEN grouped \ {s.e}
                          ELSE IF s.e \in Members(Content) THEN grouped \cup {s.e} ELSE grouped
            /\ Pop /\ UNCHANGED <<mem, len, drops, gone, hold, out>>

(* ungroup is done before a removal whatever is removed, but group members  *)
(* that keep all types are grouped still.                                   *)
Run ==
    /\ phase = "run"
    /\ IF todo # <<>>
       THEN LET s == Head(todo) IN
            /\ IF s.f \in gone \/ (Unwinding /\ s.f = 0)
               THEN Pop /\ UNCHANGED <<mem, len, grouped, drops, gone, hold, out>>
               ELSE Do(s)
            /\ phase' = phase
       ELSE IF hold # {}
       THEN /\ \E p \in BOOLEAN, v \in hold : Drop(v, p, 0) /\ hold' = hold \ {v}
            /\ UNCHANGED <<mem, len, grouped, todo, out, phase>>
       ELSE /\ phase' = "done" /\ UNCHANGED <<mem, len, grouped, todo, hold, gone, drops, out>>
    /\ UNCHANGED <<live, want, all, op>>

(* Forgets what cannot matter any more.                                     *)
Finish ==
    /\ phase = "done"
    /\ mem' = [c \in Comp |-> SubSeq(mem[c], 1, len[c])]
    /\ gone' = {} /\ drops' = [v \in Val |-> 0] /\ out' = {} /\ all' = {}
    /\ phase' = IF op[1] = "dropworld" THEN "over" ELSE "idle"
    /\ UNCHANGED <<len, grouped, live, todo, hold, want, op>>

Init ==
    /\ mem = [c \in Comp |-> <<>>] /\ len = [c \in Comp |-> 0] /\ grouped = {} /\ live = {}
    /\ phase = "idle" /\ todo = <<>> /\ hold = {} /\ gone = {} /\ drops = [v \in Val |-> 0]
    /\ out = {} /\ want = Nothing /\ all = {} /\ op = <<"new">>
Next == Insert \/ Create \/ Delete \/ Remove \/ Destroy \/ Clear \/ DropWorld \/ Run \/ Finish
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* No value is dropped twice.                                               *)
Once == \A v \in Val : drops[v] <= 1
(* What the world holds was not dropped, and is in one place only.          *)
Intact ==
    phase = "done" /\ op[1] # "dropworld" =>
        /\ \A v \in Held : drops[v] = 0
        /\ Cardinality(Held) = Cardinality({x \in Comp \X Ent : Content[x[1]][x[2]] # 0})
        /\ \A c \in Comp : Cardinality({mem[c][i].e : i \in In(c)}) = len[c]
(* The operation had its full effect.                                       *)
Effect ==
    phase = "done" /\ op[1] # "dropworld" =>
        /\ Content = want
        /\ grouped = Members(want)
        /\ \A c \in Comp, e \in Ent \ live : want[c][e] = 0
(* Without a panic every value is held, handed back or dropped.             *)
Conserved ==
    phase = "done" /\ ~Unwinding =>
        \A v \in all : IF v \in out THEN drops[v] = 0
                       ELSE IF v \in Held /\ op[1] # "dropworld" THEN drops[v] = 0 ELSE drops[v] = 1
(* A panic leaks values of the storage it came from at most.                *)
Leaks ==
    phase = "done" /\ op[1] \notin {"clear", "dropworld"} =>
        \A v \in all \ (out \cup Held) : drops[v] = 1
=============================================================================
