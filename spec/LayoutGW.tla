------------------------------ MODULE LayoutGW ------------------------------
(* Prints every transition of Layout as JSON, for replay in the code.       *)
EXTENDS Layout, Json, TLCExt
Key == <<TLCFP(fams)>>
Emit == PrintT("T " \o ToJson(<<Key, op', Key'>>))
=============================================================================
