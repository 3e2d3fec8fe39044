------------------------------- MODULE Volume -------------------------------
(* The image of a new volume: what its header, its file table and its        *)
(* allocation bitmap must say.                                               *)
(*                                                                           *)
(* A block of an image is a record [n, u, s]: n bytes; its sectors of 512    *)
(* bytes consist of the byte u but for those in s: [at, r], where r is a     *)
(* sequence of runs <<byte, length>>.                                        *)
EXTENDS Lib

Sector == 512
Reserved == 16
Ascii == <<
  <<36,102,105,108,101,95,116,97,98,108,101,95,48>>, <<36,102,105,108,101,95,116,97,98,108,101,95,49>>,
  <<36,97,108,108,111,99,97,116,105,111,110,95,98,105,116,109,97,112>>, <<36,106,111,117,114,110,97,108>>,
  <<36,118,111,108,117,109,101,95,104,101,97,100,101,114>> >>
  \o [k \in 1..11 |-> <<36,114,101,115,101,114,118,101,100,95>> \o NatText(k + 4)]

---------------------------------------------------------------------------
\* bytes

ExpandRuns(rs) == TLCEval(Concat(SeqMap(LAMBDA r : Fill(r[2], r[1]), rs)))
\* sector k (from 0) of a block
SectorOf(b, k) ==
  LET at == {i \in 1..Len(b.s) : b.s[i].at = k}
  IN  IF at = {} THEN Fill(Sector, b.u) ELSE ExpandRuns(b.s[CHOOSE i \in at : TRUE].r)
\* number at position p (from 0), least significant byte first; -1 if it does not fit into 31 bits
U16(d, p) == d[p + 1] + 256 * d[p + 2]
U32(d, p) == IF d[p + 4] > 127 THEN -1 ELSE U16(d, p) + 65536 * U16(d, p + 2)
Bytes8(d, p) == SubSeq(d, p + 1, p + 8)
\* n * 2^k as 8 bytes, least significant first
Double(b) == FoldLeft(LAMBDA acc, x : <<(2 * x + acc[1]) \div 256, Append(acc[2], (2 * x + acc[1]) % 256)>>, <<0, <<>>>>, b)[2]
RECURSIVE Doubles(_, _)
Doubles(b, k) == IF k = 0 THEN b ELSE Doubles(Double(b), k - 1)
Wide(n, k) == Doubles(<<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>, k)

---------------------------------------------------------------------------
\* p: what was asked for: [log |-> log2 of the block size, fh |-> log2 of the size of file headers, blocks |-> number of blocks]

BlockSize(p) == 2 ^ p.log
TableSize(p) == Reserved * (2 ^ p.fh)
Ceil(n, m) == (n + m - 1) \div m
BitmapSize(p) == Ceil(p.blocks, 8)
Sizes(p) == <<TableSize(p), TableSize(p), BitmapSize(p), 0, BlockSize(p)>> \o Fill(11, 0)
Needed(p) == 1 + 2 * Ceil(TableSize(p), BlockSize(p)) + Ceil(BitmapSize(p), BlockSize(p))

\* the volume header
WhyHeader(p, d) ==
  IF U32(d, 0) # 51832 THEN "header: magic number"
  ELSE IF U32(d, 4) # 256 THEN "header: format version"
  ELSE IF Bytes8(d, 24) # Wide(p.blocks, p.log) THEN "header: size of the volume"
  ELSE IF U16(d, 40) # p.log THEN "header: block size"
  ELSE IF U16(d, 42) # p.fh THEN "header: size of file headers"
  ELSE ""

\* attributes of a file header from position q on: [ok, names, extents]
RECURSIVE Attributes(_, _, _)
Attributes(d, q, acc) ==
  LET lost == [acc EXCEPT !.ok = FALSE]
  IN  IF q + 2 > Len(d) THEN lost
      ELSE LET code == U16(d, q)
      IN  IF code = 0 THEN acc
          ELSE IF code = 1 THEN
            LET n == d[q + 3] next == AlignUp(q + 3 + n, 2)
            IN  IF q + 3 + n > Len(d) THEN lost
                ELSE Attributes(d, next, [acc EXCEPT !.names = Append(@, SubSeq(d, q + 4, q + 3 + n))])
          ELSE IF code = 16 THEN
            LET n == U16(d, q + 2) from == AlignUp(q + 4, 4)
            IN  IF from + 8 * n > Len(d) THEN lost
                ELSE Attributes(d, from + 8 * n,
                       [acc EXCEPT !.extents = @ \o [i \in 1..n |-> [at |-> U32(d, from + 8 * i - 8), n |-> U32(d, from + 8 * i - 4)]]])
          ELSE lost

\* a file header
FileHeader(d) ==
  LET a == Attributes(d, 40, [ok |-> TRUE, names |-> <<>>, extents |-> <<>>])
  IN  [type |-> U32(d, 0), created |-> Bytes8(d, 8), changed |-> Bytes8(d, 16), allocated |-> U32(d, 24), used |-> U32(d, 28),
       last |-> U32(d, 32), ok |-> a.ok, names |-> a.names, extents |-> a.extents]
Total(h) == SumSeq(SeqMap(LAMBDA e : e.n, h.extents))

\* a point in time: seconds (6 bytes, most significant first), and nanoseconds in units of 2^14
Time(t) == t.s \o <<(t.n \div 16384) \div 256, (t.n \div 16384) % 256>>

\* header h of the file number i (from 1)
WhyFile(p, h, i, begin, end) ==
  LET size == Sizes(p)[i] bs == BlockSize(p)
  IN  IF ~h.ok THEN "file header: attributes"
      ELSE IF h.type # 1 /\ (h.type # 65535 \/ i <= 5) THEN "file header: type"
      ELSE IF h.names # <<Ascii[i]>> THEN "file header: name"
      ELSE IF h.used # Ceil(size, bs) \/ (h.last # size % bs /\ h.last # bs) \/ (h.last = bs /\ (size = 0 \/ size % bs # 0)) THEN "file header: size"
      ELSE IF h.allocated # Total(h) \/ h.allocated < h.used THEN "file header: allocated blocks"
      ELSE IF \E e \in 1..Len(h.extents) : h.extents[e].at < 0 \/ h.extents[e].n < 1 THEN "file header: extent"
      ELSE IF LexCmp(Reverse(h.created), begin) < 0 \/ LexCmp(Reverse(h.created), end) > 0 \/ h.changed # h.created THEN "file header: time"
      ELSE ""

\* extents of all files together: inside the volume, and disjoint
Disjoint(p, es) ==
  \A i \in 1..Len(es) : /\ es[i].at + es[i].n <= p.blocks
                        /\ \A j \in 1..(i - 1) : es[i].at + es[i].n <= es[j].at \/ es[j].at + es[j].n <= es[i].at

\* blocks lo..hi-1 that are in extents or behind the end of the volume
Overlap(lo, hi, e) == MaxOf(0, MinOf(hi, e.at + e.n) - MaxOf(lo, e.at))
Taken(p, es, lo, hi) == SumSeq(SeqMap(LAMBDA e : Overlap(lo, hi, e), es)) + MaxOf(0, hi - MaxOf(lo, p.blocks))
\* runs of bytes of the bitmap, the first bit of which stands for block lo
RECURSIVE RunsOk(_, _, _, _)
RunsOk(p, es, rs, lo) ==
  rs = <<>> \/
    LET v == rs[1][1] hi == lo + 8 * rs[1][2]
    IN  /\ CASE v = 255 -> Taken(p, es, lo, hi) = 0
             [] v = 0 -> Taken(p, es, lo, hi) = hi - lo
             [] OTHER -> \A b \in lo..(hi - 1) : ((v \div (2 ^ (b % 8))) % 2 = 1) <=> Taken(p, es, b, b + 1) = 0
        /\ RunsOk(p, es, Tail(rs), hi)
BitmapBlockOk(p, es, b, lo) ==
  LET listed == {b.s[i].at : i \in 1..Len(b.s)}
  IN  /\ \A i \in 1..Len(b.s) : RunsOk(p, es, b.s[i].r, lo + b.s[i].at * 8 * Sector)
      /\ \A k \in (0..((b.n \div Sector) - 1)) \ listed : RunsOk(p, es, <<<<b.u, Sector>>>>, lo + k * 8 * Sector)
\* blocks of a file, in order
BlocksOf(h) == Concat(SeqMap(LAMBDA e : [i \in 1..e.n |-> e.at + i - 1], h.extents))

WhyImage(p, img, begin, end) ==
  IF Len(img) = 0 \/ \E i \in 1..Len(img) : img[i].n # BlockSize(p) THEN "image: block size"
  ELSE LET hd == SectorOf(img[1], 0) w0 == WhyHeader(p, hd)
  IN  IF w0 # "" THEN w0
      ELSE LET Per == BlockSize(p) \div (2 ^ p.fh)
               first == CHOOSE k \in 0..Len(img) : k = Len(img) \/ Wide(k, p.log) = Bytes8(hd, 32)
      IN  IF first + Ceil(Reserved, Per) > Len(img) THEN "header: place of the file table"
          ELSE LET hs == TLCEval([i \in 1..Reserved |->
                        FileHeader(SectorOf(img[first + ((i - 1) \div Per) + 1], ((i - 1) % Per) * ((2 ^ p.fh) \div Sector)))])
                   bad == {i \in 1..Reserved : WhyFile(p, hs[i], i, begin, end) # ""}
          IN  IF bad # {} THEN LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN WhyFile(p, hs[i], i, begin, end)
              ELSE LET es == TLCEval(Concat(SeqMap(LAMBDA h : h.extents, hs)))
                       table == BlocksOf(hs[1]) mirror == BlocksOf(hs[2]) bitmap == BlocksOf(hs[3])
              IN  IF ~Disjoint(p, es) THEN "extents overlap or leave the volume"
                  ELSE IF table = <<>> \/ table[1] # first THEN "the file table is not where the header says"
                  ELSE IF \A i \in 1..Len(hs[5].extents) : hs[5].extents[i].at # 0 THEN "the header is not in its file"
                  ELSE IF \E b \in Range(table \o mirror \o bitmap) : b >= Len(img) THEN "files are somewhere else"
                  ELSE IF SeqMap(LAMBDA b : img[b + 1], table) # SeqMap(LAMBDA b : img[b + 1], mirror) THEN "the mirror differs from the file table"
                  ELSE IF \E k \in 1..Len(bitmap) : ~BitmapBlockOk(p, es, img[bitmap[k] + 1], (k - 1) * 8 * BlockSize(p)) THEN "allocation bitmap"
                  ELSE ""

\* the identifier in the volume's header
Identifier(img) == SubSeq(SectorOf(img[1], 0), 9, 24)

WhyVolume(p, e) ==
  IF p.exists THEN IF e.res # "error" THEN "a file was taken for a new volume" ELSE IF ~e.kept THEN "an existing file was changed" ELSE ""
  ELSE IF e.res # "ok" THEN "creation of a volume failed"
  ELSE IF Reverse(e.length) # Wide(p.blocks, p.log) THEN "length of the file"
  ELSE WhyImage(p, e.image, Time(e.begin), Time(e.end))
=============================================================================
