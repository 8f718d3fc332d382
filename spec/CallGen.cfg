SPECIFICATION GenSpec
CONSTANTS Threads = {1, 2, 3, 4}
          Depth = 60
          Answer <- MAnswer
INVARIANT Emit
CHECK_DEADLOCK FALSE
