SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
          Depth = 0
          Answer <- MAnswer
INVARIANTS ResultsRight MemoRight
CHECK_DEADLOCK FALSE
