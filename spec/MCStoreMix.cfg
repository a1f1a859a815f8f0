SPECIFICATION Spec
CONSTANTS Handles = {"a","b"}
 SubHandles = {"b"}
 Dbs = {"x"}
 Ixs = {"i"}
 Dts = {"t","u"}
 MaxV = 4
 MaxAdmin = 1
 MaxDb = 64
 Exclusive = TRUE
INVARIANTS InvNewest InvModes InvFiles InvUnflushed InvPurge InvWipe InvStats
VIEW View
CHECK_DEADLOCK FALSE
