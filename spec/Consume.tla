------------------------------ MODULE Consume ------------------------------
(***************************************************************************)
(* Consuming the items of a query piece by piece.                          *)
(*                                                                         *)
(* The items are numbered in the order in which the iterator has them.  A  *)
(* piece <<lo, hi, s>> stands for an iterator, or a part of a parallel one,*)
(* over the items lo + 1 to hi; s is 0 as long as nothing was asked of it, *)
(* which is when it can be split.                                          *)
(*                                                                         *)
(* Operations, on the k-th piece:                                          *)
(*   <<"split", k, i>>      the first i items and the others               *)
(*   <<"front", k, j>>      passes over j items and yields the next        *)
(*   <<"back", k, j>>       the same from the other end                    *)
(*   <<"take", k, j>>       yields up to j items                           *)
(*   <<"rest", k, 0>>       all that is left;  <<"tser", k, 0>>  backwards *)
(***************************************************************************)
EXTENDS Integers, Sequences

From(lo, hi) == [i \in 1..(hi - lo) |-> lo + i]
Down(lo, hi) == [i \in 1..(hi - lo) |-> hi - i + 1]

(* The pieces after op, and the items it yields.                            *)
Consume(ps, op) ==
    LET k == op[2]  j == op[3]
        lo == ps[k][1]  hi == ps[k][2]
        one(p) == [ps EXCEPT ![k] = <<p[1], p[2], 1>>]
    IN
    CASE op[1] = "split" ->
            [ps |-> SubSeq(ps, 1, k - 1) \o <<<<lo, lo + j, 0>>, <<lo + j, hi, 0>>>> \o SubSeq(ps, k + 1, Len(ps)),
             out |-> <<>>]
      [] op[1] = "front" ->
            IF lo + j < hi THEN [ps |-> one(<<lo + j + 1, hi>>), out |-> <<lo + j + 1>>]
            ELSE [ps |-> one(<<hi, hi>>), out |-> <<>>]
      [] op[1] = "back" ->
            IF lo + j < hi THEN [ps |-> one(<<lo, hi - j - 1>>), out |-> <<hi - j>>]
            ELSE [ps |-> one(<<lo, lo>>), out |-> <<>>]
      [] op[1] = "take" ->
            LET m == IF lo + j < hi THEN lo + j ELSE hi IN [ps |-> one(<<m, hi>>), out |-> From(lo, m)]
      [] op[1] = "rest" -> [ps |-> one(<<hi, hi>>), out |-> From(lo, hi)]
      [] op[1] = "tser" -> [ps |-> one(<<lo, lo>>), out |-> Down(lo, hi)]

(* How many items each of a list of operations yields, and how many the     *)
(* pieces it was asked of still have.                                       *)
Program(items, ops) ==
    LET F[i \in 0..Len(ops)] ==
            IF i = 0 THEN [ps |-> <<<<0, items, 0>>>>, counts |-> <<>>, left |-> <<>>]
            ELSE LET b == F[i-1]
                     r == Consume(b.ps, ops[i])
                     p == r.ps[ops[i][2]]
                 IN [ps |-> r.ps, counts |-> Append(b.counts, Len(r.out)), left |-> Append(b.left, p[2] - p[1])]
    IN F[Len(ops)]
=============================================================================
