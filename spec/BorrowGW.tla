------------------------------ MODULE BorrowGW ------------------------------
(* Prints every complete call of Borrow as JSON, for replay in the code.    *)
EXTENDS Borrow, Json, TLCExt
Key == <<TLCFP(held)>>
Emit == IF want' = <<>> THEN PrintT("T " \o ToJson(<<Key, op', <<TLCFP(held')>>>>)) ELSE TRUE
=============================================================================
