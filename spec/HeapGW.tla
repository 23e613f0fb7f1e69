------------------------------- MODULE HeapGW -------------------------------
(* Prints every transition of Heap as JSON, for replay in the code.         *)
EXTENDS Heap, Json, TLCExt
Key == <<TLCFP(View)>>
Emit == PrintT("T " \o ToJson(<<Key, op', Key'>>))
=============================================================================
