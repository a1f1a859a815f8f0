SPECIFICATION Spec
CONSTANTS
  Procs = {"p", "q", "r"}
  SubProcs = {"r"}
  Rounds = 1
  Kills = 1
  Bug = "none"
INVARIANTS SurvivesKill SurvivesPower ReaderPrefixes ValuesOwn SharedOrder TocWhole RefsAlwaysDurable
CHECK_DEADLOCK FALSE
