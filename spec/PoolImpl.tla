------------------------------ MODULE PoolImpl ------------------------------
(* How the buffer pool achieves what Pool.tla demands: one step per section  *)
(* in which a client cannot be interrupted. Checked by TLC: no conflicting   *)
(* access, the right content, no buffer lost, and nobody waits in vain.      *)
EXTENDS Pool

CONSTANTS N, Locs, Clients, Ops, Most

VARIABLES buf,    \* buffer -> [loc, dirty, handles, val, rd, wm]; wm: the client that is or waits to be the writer
          map,    \* location -> buffer or 0
          avail,  \* clean idle buffers, those released last first
          inuse, dirtyl,
          cv,     \* clients waiting for a buffer that have not been notified
          cl,     \* client -> [pc, op, loc, b, init, n]
          cur,    \* location -> content as the clients see it (not part of the implementation)
          wrote   \* locations that have been accessed for writing (neither)
vars == <<buf, map, avail, inuse, dirtyl, cv, cl, cur, wrote>>

Bufs == 1..N
Stock(x) == <<"s", x>>
Blank == <<"z", 0>>
New(c) == <<"w", c>>

Init == /\ buf = [i \in Bufs |-> [loc |-> 0, dirty |-> FALSE, handles |-> 0, val |-> Blank, rd |-> {}, wm |-> 0]]
        /\ map = [x \in Locs |-> 0]
        /\ avail = [i \in Bufs |-> i] /\ inuse = {} /\ dirtyl = {} /\ cv = {}
        /\ cl = [c \in Clients |-> [pc |-> "idle", op |-> "read", loc |-> 0, b |-> 0, init |-> FALSE, n |-> 0]]
        /\ cur = [x \in Locs |-> Stock(x)] /\ wrote = {}

\* ---- finding a buffer; under the mapping's lock
Enter(c, op, x, n) ==
  LET me(pc, b, init) == [pc |-> pc, op |-> op, loc |-> x, b |-> b, init |-> init, n |-> n]
      m == map[x]
  IN  IF m = 0
      THEN IF avail = <<>>
           THEN /\ cl' = [cl EXCEPT ![c] = me("wait", 0, FALSE)]
                /\ cv' = cv \cup {c}
                /\ UNCHANGED <<buf, map, avail, inuse, dirtyl>>
           ELSE LET i == avail[Len(avail)] old == buf[i].loc
                IN  /\ avail' = SubSeq(avail, 1, Len(avail) - 1)
                    /\ inuse' = inuse \cup {i}
                    /\ map' = [y \in Locs |-> IF y = x THEN i ELSE IF y = old THEN 0 ELSE map[y]]
                    /\ buf' = [buf EXCEPT ![i].loc = x, ![i].handles = 1, ![i].wm = c]
                    /\ cl' = [d \in Clients |-> IF d = c THEN me("paused", i, TRUE) ELSE IF d \in cv THEN [cl[d] EXCEPT !.pc = "run"] ELSE cl[d]]
                    /\ cv' = {}
                    /\ UNCHANGED dirtyl
      ELSE /\ buf' = [buf EXCEPT ![m].handles = @ + 1]
           /\ cl' = [cl EXCEPT ![c] = me("paused", m, FALSE)]
           /\ IF buf[m].handles = 0
              THEN /\ inuse' = inuse \cup {m}
                   /\ dirtyl' = dirtyl \ {m}
                   /\ avail' = SelectSeq(avail, LAMBDA i : i # m)
              ELSE UNCHANGED <<inuse, dirtyl, avail>>
           /\ UNCHANGED <<map, cv>>

Begin(c, op, x) == /\ cl[c].pc = "idle" /\ cl[c].n < Most
                 /\ Enter(c, op, x, cl[c].n + 1)
                 /\ UNCHANGED <<cur, wrote>>
Retry(c) == /\ cl[c].pc = "run"
            /\ Enter(c, cl[c].op, cl[c].loc, cl[c].n)
            /\ UNCHANGED <<cur, wrote>>

\* a client that waits for a buffer no longer wants it; if it has been notified already, somebody else is
Withdraw(c) == /\ cl[c].pc \in {"wait", "run"}
               /\ LET me == [cl[c] EXCEPT !.pc = "idle"]
                  IN  IF cl[c].pc = "wait" \/ cv = {} THEN cv' = cv \ {c} /\ cl' = [cl EXCEPT ![c] = me]
                      ELSE \E d \in cv : cv' = cv \ {d} /\ cl' = [cl EXCEPT ![c] = me, ![d].pc = "run"]
               /\ UNCHANGED <<buf, map, avail, inuse, dirtyl, cur, wrote>>

\* ---- access
W(c) == Writes(cl[c].op)
\* b: the buffers with c's access to be entered
Granted(c, b) ==
  LET i == cl[c].b
  IN  /\ buf' = IF W(c) THEN [b EXCEPT ![i].wm = c] ELSE [b EXCEPT ![i].rd = @ \cup {c}]
      /\ cl' = [cl EXCEPT ![c].pc = IF W(c) THEN "half" ELSE "hold"]
      /\ cur' = IF cl[c].op = "init" THEN [cur EXCEPT ![cl[c].loc] = b[i].val] ELSE cur
      /\ wrote' = IF W(c) THEN wrote \cup {cl[c].loc} ELSE wrote
CanLock(c) == LET x == buf[cl[c].b] IN IF W(c) THEN x.wm \in {0, c} /\ x.rd = {} ELSE x.wm = 0
Lock(c) == IF CanLock(c) THEN Granted(c, buf)
           ELSE /\ buf' = IF W(c) /\ buf[cl[c].b].wm = 0 THEN [buf EXCEPT ![cl[c].b].wm = c] ELSE buf
                /\ cl' = [cl EXCEPT ![c].pc = "lock"]
                /\ UNCHANGED <<cur, wrote>>
Resume(c) == /\ cl[c].pc = "paused"
             /\ IF ~cl[c].init THEN Lock(c)
                ELSE IF cl[c].op = "init" THEN Granted(c, [buf EXCEPT ![cl[c].b].val = Blank])
                ELSE /\ cl' = [cl EXCEPT ![c].pc = "fetch"]
                     /\ UNCHANGED <<buf, cur, wrote>>
             /\ UNCHANGED <<map, avail, inuse, dirtyl, cv>>
Fetch(c) == /\ cl[c].pc = "fetch"
            /\ buf' = [buf EXCEPT ![cl[c].b].val = Stock(cl[c].loc)]
            /\ cl' = [cl EXCEPT ![c].pc = "fetched"]
            /\ UNCHANGED <<map, avail, inuse, dirtyl, cv, cur, wrote>>
Fetched(c) == /\ cl[c].pc = "fetched"
              /\ Granted(c, [buf EXCEPT ![cl[c].b].wm = 0])
              /\ UNCHANGED <<map, avail, inuse, dirtyl, cv>>
Acquire(c) == /\ cl[c].pc = "lock"
              /\ CanLock(c) \/ (W(c) /\ buf[cl[c].b].wm = 0)
              /\ Lock(c)
              /\ UNCHANGED <<map, avail, inuse, dirtyl, cv>>
Modify(c) == /\ cl[c].pc = "half"
             /\ buf' = [buf EXCEPT ![cl[c].b].val = New(c)]
             /\ cur' = [cur EXCEPT ![cl[c].loc] = New(c)]
             /\ cl' = [cl EXCEPT ![c].pc = "hold"]
             /\ UNCHANGED <<map, avail, inuse, dirtyl, cv, wrote>>

\* ---- giving up access
Leave(c)   == /\ cl[c].pc = "hold"
              /\ buf' = IF W(c) THEN [buf EXCEPT ![cl[c].b].wm = 0] ELSE [buf EXCEPT ![cl[c].b].rd = @ \ {c}]
              /\ cl' = [cl EXCEPT ![c].pc = "freeing"]
              /\ UNCHANGED <<map, avail, inuse, dirtyl, cv, cur, wrote>>
Free(c) ==
  LET i == cl[c].b   dirty == buf[i].dirty \/ W(c)   me == [cl[c] EXCEPT !.pc = "idle", !.b = 0]
  IN  /\ cl[c].pc = "freeing"
      /\ buf' = [buf EXCEPT ![i].handles = @ - 1, ![i].dirty = dirty]
      /\ IF buf[i].handles > 1
         THEN cl' = [cl EXCEPT ![c] = me] /\ UNCHANGED <<avail, inuse, dirtyl, cv>>
         ELSE /\ inuse' = inuse \ {i}
              /\ IF dirty
                 THEN dirtyl' = dirtyl \cup {i} /\ cl' = [cl EXCEPT ![c] = me] /\ UNCHANGED <<avail, cv>>
                 ELSE /\ avail' = <<i>> \o avail /\ UNCHANGED dirtyl
                      /\ IF cv = {} THEN cl' = [cl EXCEPT ![c] = me] /\ UNCHANGED cv
                         ELSE \E d \in cv : cv' = cv \ {d} /\ cl' = [cl EXCEPT ![c] = me, ![d].pc = "run"]
      /\ UNCHANGED <<map, cur, wrote>>

\* what c does when it takes its next step
Inner(c) == Retry(c) \/ Resume(c) \/ Fetch(c) \/ Fetched(c) \/ Acquire(c) \/ Modify(c) \/ Free(c)
Next == \E c \in Clients : (\E op \in Ops, x \in Locs : Begin(c, op, x)) \/ Inner(c) \/ Leave(c) \/ Withdraw(c)
Spec == Init /\ [][Next]_vars

\* ---- what must hold
Holders == {c \in Clients : cl[c].pc \in {"half", "hold"}}
Waiting == {c \in Clients : cl[c].pc \in {"wait", "run", "paused", "fetch", "fetched", "lock"}}
Abstract == [asked |-> SetToSeq({[c |-> c, op |-> cl[c].op, loc |-> cl[c].loc] : c \in Waiting}),
             held |-> {[c |-> c, loc |-> cl[c].loc, w |-> W(c), buf |-> cl[c].b] : c \in Holders},
             cur |-> {}, dirty |-> wrote]
Exclusive == \A c, d \in Holders : c # d =>
  /\ (cl[c].loc = cl[d].loc) = (cl[c].b = cl[d].b)
  /\ cl[c].loc = cl[d].loc => ~W(c) /\ ~W(d)
RightContent == \A c \in Holders : buf[cl[c].b].val = cur[cl[c].loc] /\ buf[cl[c].b].loc = cl[c].loc
Kept == \A i \in Bufs : buf[i].dirty => map[buf[i].loc] = i /\ (buf[i].val = cur[buf[i].loc] \/ buf[i].handles > 0)
Conserved == /\ \A i \in Bufs : Cardinality({k \in 1..Len(avail) : avail[k] = i}) + (IF i \in inuse THEN 1 ELSE 0) + (IF i \in dirtyl THEN 1 ELSE 0) = 1
             /\ \A i \in Bufs : (i \in inuse) = (buf[i].handles > 0)
             /\ \A i \in Bufs : (i \in dirtyl) = (buf[i].handles = 0 /\ buf[i].dirty)
             /\ \A x \in Locs : map[x] # 0 => buf[map[x]].loc = x
             /\ \A i \in Bufs : buf[i].handles = Cardinality({c \in Clients : cl[c].b = i})
Quiet == \A c \in Clients : ~ENABLED Inner(c)
NobodyForgotten == Quiet => \A c \in Waiting : MayWait(Abstract, Request(Abstract, c), N)
=============================================================================
