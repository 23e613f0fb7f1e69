------------------------------ MODULE WorldGW ------------------------------
(* Prints every transition of WorldMC as JSON, for replay in the code.      *)
EXTENDS WorldMC, Json, TLCExt
Key == <<TLCFP(wvars)>>
Emit == PrintT("T " \o ToJson(<<Key, op', <<res'.out, live', Cardinality(issued')>>, Key'>>))
=============================================================================
