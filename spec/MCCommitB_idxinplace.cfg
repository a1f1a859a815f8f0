SPECIFICATION Spec
CONSTANTS
  Procs = {"p", "q"}
  SubProcs = {"p"}
  Rounds = 2
  Kills = 0
  Bug = "idxinplace"
INVARIANTS SurvivesKill SurvivesPower ReaderPrefixes ValuesOwn SharedOrder TocWhole RefsAlwaysDurable
CHECK_DEADLOCK FALSE
