------------------------------ MODULE PoolGen ------------------------------
(* Schedules of the pool's clients: a shortest one to each transition of     *)
(* PoolImpl. One of SHARE is printed.                                        *)
EXTENDS PoolImpl, Json, IOUtils
VARIABLE h
Share == atoi(IOEnv.SHARE)
Label(c) == IF cl[c].pc = "idle" THEN <<c, cl'[c].op, cl'[c].loc>> ELSE <<c>>
GenInit == Init /\ h = <<>>
GenNext == \E c \in Clients :
  /\ \/ ((\E op \in Ops, x \in Locs : Begin(c, op, x)) \/ Inner(c) \/ Leave(c)) /\ h' = Append(h, Label(c))
     \/ Withdraw(c) /\ h' = Append(h, <<0 - c>>)
  /\ Share = 1 \/ RandomElement(1..Share) = 1 => PrintT(<<"CASE", ToJson([h |-> h'])>>)
GenSpec == GenInit /\ [][GenNext]_<<vars, h>>
Seen == vars
=============================================================================
