SPECIFICATION GenSpec
VIEW Seen
CONSTANTS N = 1
 Locs = {1, 2}
 Clients = {1, 2, 3}
 Ops = {"read", "write", "init"}
 Most = 2
INVARIANTS Exclusive RightContent Kept Conserved NobodyForgotten
CHECK_DEADLOCK FALSE
