SPECIFICATION GenSpec
VIEW Seen
CONSTANTS N = 2
 Locs = {1, 2, 3}
 Clients = {1, 2, 3}
 Ops = {"read", "write", "init"}
 Most = 1
INVARIANTS Exclusive RightContent Kept Conserved NobodyForgotten
CHECK_DEADLOCK FALSE
