SPECIFICATION Spec
CONSTANTS
  Procs = {"p", "q"}
  SubProcs = {}
  Rounds = 2
  Kills = 1
  Bug = "none"
INVARIANTS SurvivesKill SurvivesPower ReaderPrefixes ValuesOwn SharedOrder TocWhole RefsAlwaysDurable
CHECK_DEADLOCK FALSE
