SPECIFICATION Spec
CONSTANTS K = 4 CAP = 1 HMAX = 3 THRESH = 3 UNIT = 2 NFLUSH = 3 BUG = "none"
INVARIANTS Sound Exact MapAgrees Growth
PROPERTIES AppendOnly OneAtATime
CHECK_DEADLOCK FALSE
