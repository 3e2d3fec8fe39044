-------------------------------- MODULE Pool --------------------------------
(* A pool of buffers that caches storage locations, seen by its clients.     *)
(*                                                                           *)
(* A client asks for a location (to read, to write, or to initialise it),    *)
(* gets access at some later time and gives it up again. N buffers; what is  *)
(* held or has been accessed for writing occupies a buffer, everything else  *)
(* the pool may drop and fetch again.                                        *)
EXTENDS Lib

\* the state: what the clients ask for and hold, the current content, and what may differ from the store
\*   asked : sequence of [c, op, loc] in order of the requests;   held : set of [c, loc, w, buf]
\*   cur   : set of [loc, val], the locations whose content is not that of the store;   dirty : set of locations
Start == [asked |-> <<>>, held |-> {}, cur |-> {}, dirty |-> {}]
SeqSet(q) == {q[i] : i \in 1..Len(q)}
Stored(loc) == <<1000000 + loc>>
Zero == <<0>>
Content(s, loc) == IF \E x \in s.cur : x.loc = loc THEN (CHOOSE x \in s.cur : x.loc = loc).val ELSE Stored(loc)
SetContent(s, loc, val) == [s EXCEPT !.cur = {x \in s.cur : x.loc # loc} \cup {[loc |-> loc, val |-> val]}]

Writes(op) == op \in {"write", "init"}
Request(s, c) == CHOOSE r \in SeqSet(s.asked) : r.c = c
IsAsking(s, c) == \E r \in SeqSet(s.asked) : r.c = c
Holding(s, c) == CHOOSE h \in s.held : h.c = c
Holds(s, c) == \E h \in s.held : h.c = c

\* ---- C17
Conflict(s, r) == \E h \in s.held : h.loc = r.loc /\ (h.w \/ Writes(r.op))
Aliased(s, r, buf) == \E h \in s.held : (h.loc = r.loc) # (h.buf = buf)

\* ---- C18: what access may show
Shows(s, r) == IF r.op = "init" THEN {Zero, Content(s, r.loc)} ELSE {Content(s, r.loc)}

\* ---- C19: may the request still wait, once everybody else has done what can be done?
Occupied(s) == {h.loc : h \in s.held} \cup s.dirty
MayWait(s, r, n) ==
  LET here == {h \in s.held : h.loc = r.loc}
  IN  IF here # {} THEN \/ Writes(r.op)
                        \/ \E h \in here : h.w
                        \/ \E q \in SeqSet(s.asked) : q.c # r.c /\ q.loc = r.loc /\ Writes(q.op)
      ELSE r.loc \notin s.dirty /\ Cardinality(Occupied(s)) >= n

\* ---- transitions
Ask(s, c, op, loc) == [s EXCEPT !.asked = Append(@, [c |-> c, op |-> op, loc |-> loc])]
Grant(s, c, buf, val) ==
  LET r == Request(s, c)
      t == [s EXCEPT !.asked = SelectSeq(@, LAMBDA x : x.c # c),
                     !.held = @ \cup {[c |-> c, loc |-> r.loc, w |-> Writes(r.op), buf |-> buf]},
                     !.dirty = IF Writes(r.op) THEN @ \cup {r.loc} ELSE @]
  IN  IF r.op = "init" THEN SetContent(t, r.loc, val) ELSE t
Withdrawn(s, c) == [s EXCEPT !.asked = SelectSeq(@, LAMBDA x : x.c # c)]
Put(s, c, val) == SetContent(s, Holding(s, c).loc, val)
Release(s, c) == [s EXCEPT !.held = {h \in @ : h.c # c}]
=============================================================================
