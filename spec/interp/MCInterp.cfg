SPECIFICATION Spec
CONSTANTS MaxPoints = 4
          MaxOps = 6
          MaxVal = 3
INVARIANTS Ordered Nodes Steady Straight ChoppedEnds Sharpened
CHECK_DEADLOCK FALSE
