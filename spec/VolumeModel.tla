---------------------------- MODULE VolumeModel ----------------------------
(* A volume laid out one file after the other satisfies Volume, and no       *)
(* change of a byte that means something does. Parameters are printed to be  *)
(* tried in the real code.                                                   *)
EXTENDS Volume, Json, IOUtils

MaxLog == atoi(IOEnv.MAXLOG)
Step == atoi(IOEnv.STEP)
Tables(p) == Ceil(TableSize(p), BlockSize(p))

\* least number of blocks that holds its own administration
RECURSIVE LeastFrom(_)
LeastFrom(p) == IF Needed(p) <= p.blocks THEN p.blocks ELSE LeastFrom([p EXCEPT !.blocks = @ + 1])
Least(p) == LeastFrom([p EXCEPT !.blocks = 1])
PerBitmap(p) == 8 * BlockSize(p)
Numbers(p) ==
  LET least == Least(p) per == PerBitmap(p)
      Near(n) == {n - 9, n - 8, n - 1, n, n + 1, n + 8}
  IN  {n \in ((least)..(least + 17)) \cup Near(64) \cup Near(128) \cup Near(256) \cup Near(384) \cup Near(per)
         \cup Near(2 * per) \cup Near(3 * per) : Needed([p EXCEPT !.blocks = n]) <= n}

\* ---- the image
LE(n, w) == [i \in 1..w |-> IF i > 4 THEN 0 ELSE IF i = 4 THEN n \div 16777216 ELSE (n \div (256 ^ (i - 1))) % 256]
Pad(s, n) == s \o Fill(n - Len(s), 0)
ToRuns(s) == FoldLeft(LAMBDA acc, x : IF acc # <<>> /\ Last1(acc)[1] = x THEN [acc EXCEPT ![Len(acc)][2] = @ + 1] ELSE Append(acc, <<x, 1>>), <<>>, s)
ToBlock(s) == [n |-> Len(s), u |-> 0, s |-> [k \in 1..(Len(s) \div Sector) |-> [at |-> k - 1, r |-> ToRuns(SubSeq(s, Sector * (k - 1) + 1, Sector * k))]]]
RefHeader(p) == Pad(LE(51832, 4) \o LE(256, 4) \o Fill(16, 7) \o Wide(p.blocks, p.log) \o Wide(1, p.log) \o LE(p.log, 2) \o LE(p.fh, 2), BlockSize(p))
RefExtent(p, i) == CASE i = 1 -> <<1, Tables(p)>>
                     [] i = 2 -> <<1 + Tables(p), Tables(p)>>
                     [] i = 3 -> <<1 + 2 * Tables(p), Ceil(BitmapSize(p), BlockSize(p))>>
                     [] i = 5 -> <<0, 1>>
                     [] OTHER -> <<>>
RefFile(p, i) ==
  LET x == RefExtent(p, i) size == Sizes(p)[i] bs == BlockSize(p)
      fixed == LE(1, 4) \o LE(1, 4) \o Fill(2, 3) \o LE(5, 6) \o Fill(2, 3) \o LE(5, 6) \o LE(IF x = <<>> THEN 0 ELSE x[2], 4) \o LE(Ceil(size, bs), 4) \o LE(size % bs, 4) \o Fill(4, 0)
      name == LE(1, 2) \o <<Len(Ascii[i])>> \o Ascii[i]
      named == Pad(fixed \o name, AlignUp(40 + Len(name), 2))
      list == IF x = <<>> THEN <<>> ELSE Pad(LE(16, 2) \o LE(1, 2), AlignUp(Len(named) + 4, 4) - Len(named)) \o LE(x[1], 4) \o LE(x[2], 4)
  IN  Pad(named \o list, 2 ^ p.fh)
RefTable(p) == Pad(Concat([i \in 1..Reserved |-> RefFile(p, i)]), Tables(p) * BlockSize(p))
RefBitmap(p) == [k \in 1..(Ceil(BitmapSize(p), BlockSize(p)) * BlockSize(p)) |->
  FoldLeft(LAMBDA acc, j : acc + (IF (k - 1) * 8 + j >= Needed(p) /\ (k - 1) * 8 + j < p.blocks THEN 2 ^ j ELSE 0), 0, [j \in 1..8 |-> j - 1])]
Cut(s, n) == [k \in 1..(Len(s) \div n) |-> SubSeq(s, n * (k - 1) + 1, n * k)]
RefBlocks(p) == <<RefHeader(p)>> \o Cut(RefTable(p), BlockSize(p)) \o Cut(RefTable(p), BlockSize(p)) \o Cut(RefBitmap(p), BlockSize(p))
Begin == <<0, 0, 0, 0, 0, 5, 3, 2>>
End == <<0, 0, 0, 0, 0, 5, 3, 4>>
Verdict(p, blocks) == WhyImage(p, SeqMap(ToBlock, blocks), Begin, End)

\* ---- bytes that mean nothing: the identifier, and what follows the header
Meaningless(p, b, i) ==
  LET t == Tables(p) bs == BlockSize(p)
  IN  IF b = 1 THEN i \in 9..24 \/ i > 44
      ELSE IF b > 1 + t THEN FALSE     \* mirror and bitmap
      ELSE FALSE                       \* (the table differs from its mirror)

VARIABLES p, b, i
vars == <<p, b, i>>
Init == p = [log |-> 0, fh |-> 0, blocks |-> 0] /\ b = 0 /\ i = 0
Choose ==
  /\ p.log = 0
  /\ \E log \in 9..MaxLog : \E fh \in 9..log : \E n \in Numbers([log |-> log, fh |-> fh, blocks |-> 0]) : p' = [log |-> log, fh |-> fh, blocks |-> n]
  /\ UNCHANGED <<b, i>>
\* a change is tried on small volumes only
Small == p.log # 0 /\ p.log <= 10 /\ p.fh = 9 /\ p.blocks \in (IF Step = 1 THEN {Least(p), Least(p) + 5} ELSE {Least(p)}) /\ (Step = 1 \/ p.log = 9)
Damage ==
  /\ Small /\ b = 0
  /\ \E k \in 1..Needed(p) : b' = k
  /\ i' = 1 /\ UNCHANGED p
More == b # 0 /\ i + Step <= BlockSize(p) /\ i' = i + Step /\ UNCHANGED <<p, b>>
Next == Choose \/ Damage \/ More
Spec == Init /\ [][Next]_vars

Accepts == p.log \in {9, 10} /\ b = 0 /\ p.blocks <= Least(p) + 17 => Verdict(p, RefBlocks(p)) = ""
Refuses == b # 0 /\ (i < 200 \/ i % 16 = 1) => LET d == [RefBlocks(p) EXCEPT ![b][i] = (@ + 64) % 256] IN (Verdict(p, d) # "") = ~Meaningless(p, b, i)
Out == p.log # 0 /\ b = 0 => PrintT(<<"CASE", ToJson(p)>>)
=============================================================================
