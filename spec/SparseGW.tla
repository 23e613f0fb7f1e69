------------------------------ MODULE SparseGW ------------------------------
(* Prints every transition of Sparse as JSON, for replay in the code.       *)
EXTENDS Sparse, Json, TLCExt
Key == <<TLCFP(slots)>>
Emit == PrintT("T " \o ToJson(<<Key, op', Key'>>))
=============================================================================
