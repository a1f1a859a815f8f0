SPECIFICATION Spec
CONSTANTS Handles = {"a"}
 SubHandles = {}
 Dbs = {"x","y"}
 Ixs = {"i"}
 Dts = {"t"}
 MaxV = 4
 MaxAdmin = 2
 MaxDb = 1
 Exclusive = FALSE
INVARIANTS InvNewest InvModes InvFiles InvUnflushed InvPurge InvWipe InvStats
VIEW View
CHECK_DEADLOCK FALSE
