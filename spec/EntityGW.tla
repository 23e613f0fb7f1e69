------------------------------ MODULE EntityGW ------------------------------
(* Prints every transition of EntityAlloc as JSON, for replay in the code.  *)
EXTENDS EntityAlloc, Json, TLCExt
Key == <<TLCFP(code), TLCFP(<<code, live, queued, issued>>)>>
View == <<code, live, queued, issued, free, top>>
Emit == PrintT("T " \o ToJson(<<Key, op', IF res'.out = "panic" THEN <<"panic">> ELSE res'.ret, Key'>>))
=============================================================================
