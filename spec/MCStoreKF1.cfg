SPECIFICATION Spec
CONSTANTS Handles = {"a","b"}
 SubHandles = {"b"}
 Dbs = {"x"}
 Ixs = {"i"}
 Dts = {"t"}
 MaxV = 3
 MaxAdmin = 1
 MaxDb = 64
 Exclusive = FALSE
INVARIANTS InvNewest InvModes InvFiles InvUnflushed InvPurge InvWipe InvStats
VIEW View
CHECK_DEADLOCK FALSE
