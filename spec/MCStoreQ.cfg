SPECIFICATION Spec
CONSTANTS Handles = {"a","b"}
 SubHandles = {}
 Dbs = {"x"}
 Ixs = {"i","j"}
 Dts = {"t","u"}
 MaxV = 3
 MaxAdmin = 2
 MaxDb = 64
 Exclusive = FALSE
INVARIANTS InvNewest InvModes InvFiles InvUnflushed InvPurge InvWipe InvStats
VIEW View
CHECK_DEADLOCK FALSE
