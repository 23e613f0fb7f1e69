----------------------------- MODULE IterateGW -----------------------------
(* Prints every transition of Iterate as JSON, for replay in the code.      *)
(* What was consumed before makes no difference to what follows.            *)
EXTENDS Iterate, Json
GView == <<items, ps>>
Emit == PrintT("T " \o ToJson(<<GView, op', items, GView'>>))
=============================================================================
