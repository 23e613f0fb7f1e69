----------------------------- MODULE StorageGW -----------------------------
(* Prints every transition of Storage as JSON, for replay in the code.      *)
EXTENDS StorageMC, Json, TLCExt
Key == <<TLCFP(code), TLCFP(<<code, live, last>>)>>
Emit == PrintT("T " \o ToJson(<<Key, op', Key'>>))
=============================================================================
