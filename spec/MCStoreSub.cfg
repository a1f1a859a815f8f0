SPECIFICATION Spec
CONSTANTS Handles = {"a"}
 SubHandles = {"a"}
 Dbs = {"x"}
 Ixs = {"i","j"}
 Dts = {"t"}
 MaxV = 4
 MaxAdmin = 2
 MaxDb = 64
 Exclusive = FALSE
INVARIANTS InvNewest InvModes InvFiles InvUnflushed InvPurge InvWipe InvStats
VIEW View
CHECK_DEADLOCK FALSE
