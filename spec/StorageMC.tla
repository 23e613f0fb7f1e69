----------------------------- MODULE StorageMC -----------------------------
(* Layouts for Storage's configurations. *)
EXTENDS Storage
Flat2    == <<<<>>>>
Pair     == <<<<<<<<0, 1>>, <<2>>>>>>>>
PairFlat == <<<<<<<<0, 1>>, <<2>>>>>>, <<>>>>
\* {0,1} in {0,1,2}
Nested   == <<<<<<<<0, 1, 2>>, <<2, 3>>>>>>>>
\* one group of three
Triple   == <<<<<<<<0, 1, 2>>, <<3>>>>>>>>
\* the layouts over three components that differ in kind
Switch3  == <<<<>>, <<<<<<1, 2>>, <<2>>>>>>, <<<<<<2, 0, 1>>, <<2, 3>>>>>>, <<<<<<0, 1, 2>>, <<3>>>>>>>>
\* {0,1} in {0,1,2,3}: the larger group adds two
Adds2    == <<<<<<<<0, 1, 2, 3>>, <<2, 4>>>>>>>>
Chain4   == <<<<<<<<0, 1, 2, 3>>, <<2, 3, 4>>>>>>>>
TwoPairs == <<<<<<<<0, 1>>, <<2>>>>, <<<<2, 3>>, <<2>>>>>>>>
=============================================================================
