------------------------------ MODULE Iterate ------------------------------
(***************************************************************************)
(* Every way of consuming up to MaxItems items: C13 and, with splits, C14. *)
(*                                                                         *)
(* The order in which a query has its items is not specified, so that the  *)
(* code is held to numbers of items only; that they are distinct items of  *)
(* the query is for World to say.                                          *)
(***************************************************************************)
EXTENDS Consume, FiniteSets, TLC

CONSTANTS
    MaxItems,
    MaxPieces,  \* 1: a sequential iterator
    MaxSkip,    \* items passed over at once
    Defect

VARIABLES items, ps, seen, passed, op
vars == <<items, ps, seen, passed, op>>

Set(s) == {s[i] : i \in 1..Len(s)}
Piece(p) == (p[1] + 1)..p[2]
Left == UNION {Piece(ps[k]) : k \in 1..Len(ps)}

Ops ==
    {<<"split", k, i>> : k \in {j \in 1..Len(ps) : Len(ps) < MaxPieces /\ ps[j][3] = 0}, i \in 0..MaxItems}
    \cup {<<w, k, j>> : w \in {"front"} \cup (IF MaxPieces > 1 THEN {"back"} ELSE {"take"}),
                        k \in 1..Len(ps), j \in 0..MaxSkip}
    \cup {<<w, k, 0>> : w \in {"rest"} \cup (IF MaxPieces > 1 THEN {"tser"} ELSE {}), k \in 1..Len(ps)}
Possible(o) == o[1] = "split" => o[3] <= ps[o[2]][2] - ps[o[2]][1]

Do(o) ==
    LET r == Consume(ps, o)
        k == o[2]
        rest == CASE Defect = "split_end" /\ o[1] = "split" ->
                        [r.ps EXCEPT ![k + 1] = <<@[1], IF o[3] > 0 THEN @[2] - 1 ELSE @[2], 0>>]
                  [] Defect = "split_zero" /\ o[1] = "split" -> [r.ps EXCEPT ![k + 1] = <<0, @[2], 0>>]
                  [] Defect = "nth_short" /\ o[1] = "front" /\ o[3] > 0 /\ r.out # <<>> ->
                        [r.ps EXCEPT ![k] = <<@[1] - 1, @[2], 1>>]
                  [] Defect = "back_keeps" /\ o[1] = "back" /\ r.out # <<>> ->
                        [r.ps EXCEPT ![k] = <<@[1], @[2] + 1, 1>>]
                  [] OTHER -> r.ps
        gone == Piece(ps[k]) \ (Set(r.out) \cup IF o[1] = "split" THEN Piece(ps[k]) ELSE Piece(r.ps[k]))
    IN
    /\ ps' = rest
    /\ seen' = seen \o r.out
    /\ passed' = passed \cup gone

Init ==
    /\ items \in 0..MaxItems
    /\ ps = <<<<0, items, 0>>>>
    /\ seen = <<>> /\ passed = {} /\ op = <<>>
Next == \E o \in Ops : Possible(o) /\ Do(o) /\ op' = o /\ items' = items
Spec == Init /\ [][Next]_vars
View == <<items, ps, Set(seen), passed>>

(* Each item at most once, and none without being asked to pass over it.    *)
Once == Cardinality(Set(seen)) = Len(seen)
All == Set(seen) \cup passed \cup Left = 1..items
Apart == /\ Set(seen) \cap (passed \cup Left) = {} /\ passed \cap Left = {}
         /\ \A i, j \in 1..Len(ps) : i # j => Piece(ps[i]) \cap Piece(ps[j]) = {}
=============================================================================
