------------------------------- MODULE Borrow -------------------------------
(***************************************************************************)
(* Access to component types, shaped like the code: each type has a cell   *)
(* that counts its shared holders, or is held exclusively; a view takes    *)
(* one cell, a query takes the cells of its parts one after the other and  *)
(* gives back what it has when one of them is refused.                     *)
(*                                                                         *)
(* The property (C18) is that a request is refused exactly when it         *)
(* conflicts with one still held or with itself, and that what is held is  *)
(* what callers still hold.                                                *)
(*                                                                         *)
(* Defect # "" switches in one realistic mistake.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
    Comp,     \* component types
    Slots,    \* places where callers keep what they were granted
    MaxParts, \* parts of a query
    Defect

VARIABLES
    cells,  \* the code: component -> number of shared holders, -1 if exclusive
    want,   \* a request under way: <<slot, parts, position>>, or <<>>
    held,   \* slot -> parts granted, <<>> if none
    op      \* the last call, complete when want = <<>>

vars == <<cells, want, held, op>>

Modes == {"sh", "ex"}
Part == Comp \X Modes
Requests == UNION {[1..n -> Part] : n \in 1..MaxParts}

Free(c, m) ==
    IF m = "sh" THEN (IF Defect = "shared_any" THEN TRUE ELSE cells[c] >= 0)
    ELSE IF Defect = "writers" THEN cells[c] >= 0 ELSE cells[c] = 0
Take(c, m) == [cells EXCEPT ![c] = IF m = "sh" THEN @ + 1 ELSE -1]
(* Gives back the first n parts.                                            *)
RECURSIVE Back(_, _, _)
Back(cs, parts, n) ==
    IF n = 0 THEN cs
    ELSE LET c == parts[n][1]
             x == IF parts[n][2] = "sh" THEN (IF Defect = "unlock" THEN 0 ELSE cs[c] - 1) ELSE 0
         IN Back([cs EXCEPT ![c] = x], parts, n - 1)

Init ==
    /\ cells = [c \in Comp |-> 0] /\ want = <<>>
    /\ held = [s \in Slots |-> <<>>] /\ op = <<>>

(* A call: into a slot, or, with slot 0, one whose closure panics.          *)
Ask ==
    /\ want = <<>>
    /\ \E parts \in Requests :
        \E s \in {0} \cup {x \in Slots : held[x] = <<>> /\ \A y \in Slots : y < x => held[y] # <<>>} :
            want' = <<s, parts, 1>>
    /\ UNCHANGED <<cells, held, op>>

Step ==
    /\ want # <<>>
    /\ LET s == want[1]  parts == want[2]  i == want[3] IN
       IF i > Len(parts)
       THEN /\ want' = <<>>
            /\ IF s = 0
               THEN /\ cells' = IF Defect = "panic_keeps" THEN cells ELSE Back(cells, parts, Len(parts))
                    /\ held' = held
               ELSE cells' = cells /\ held' = [held EXCEPT ![s] = parts]
            /\ op' = <<"acq", s, parts, "ok">>
       ELSE LET c == parts[i][1]  m == parts[i][2] IN
            IF Defect = "skip_own" /\ \E j \in 1..(i - 1) : parts[j] = parts[i]
            THEN want' = <<s, parts, i + 1>> /\ UNCHANGED <<cells, held, op>>
            ELSE IF Free(c, m)
            THEN /\ cells' = Take(c, m)
                 /\ want' = <<s, parts, i + 1>>
                 /\ UNCHANGED <<held, op>>
            ELSE /\ cells' = Back(cells, parts, IF Defect = "keeps" THEN 0 ELSE i - 1)
                 /\ want' = <<>> /\ held' = held
                 /\ op' = <<"acq", s, parts, "panic">>

Release ==
    /\ want = <<>>
    /\ \E s \in Slots :
        /\ held[s] # <<>>
        /\ cells' = IF Defect = "stays" /\ Len(held[s]) > 1 THEN Back(cells, held[s], 1)
                    ELSE Back(cells, held[s], Len(held[s]))
        /\ held' = [held EXCEPT ![s] = <<>>]
        /\ op' = <<"rel", s>>
        /\ UNCHANGED want

Next == Ask \/ Step \/ Release
Spec == Init /\ [][Next]_vars
View == <<cells, want, held>>

------------------------------------------------------------------------------
(* The rule.                                                                *)
Conflict(p, q) == p[1] = q[1] /\ "ex" \in {p[2], q[2]}
Refused(parts) ==
    \/ \E i, j \in 1..Len(parts) : i # j /\ Conflict(parts[i], parts[j])
    \/ \E s \in Slots : \E i \in 1..Len(parts), j \in 1..Len(held[s]) : Conflict(parts[i], held[s][j])
Decided == [][want # <<>> /\ want' = <<>> => (op'[4] = "panic" <=> Refused(want[2]))]_vars

(* Between calls, the cells count what is held.                             *)
Uses(c, m) == {<<s, i>> \in Slots \X (1..MaxParts) : i <= Len(held[s]) /\ held[s][i] = <<c, m>>}
Exact ==
    want = <<>> =>
        \A c \in Comp : cells[c] = IF Uses(c, "ex") # {} THEN -1 ELSE Cardinality(Uses(c, "sh"))
Excluded ==
    \A c \in Comp : Uses(c, "ex") # {} => Cardinality(Uses(c, "ex")) = 1 /\ Uses(c, "sh") = {}
=============================================================================
