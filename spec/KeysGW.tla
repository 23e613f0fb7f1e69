------------------------------- MODULE KeysGW -------------------------------
(* Prints every transition of Keys as JSON, for replay in the code.  States *)
(* are told apart by what users see.                                        *)
EXTENDS Keys, Json, TLCExt
GView == map
At == <<TLCFP(map)>>
Emit == PrintT("T " \o ToJson(<<At, op', At'>>))
=============================================================================
