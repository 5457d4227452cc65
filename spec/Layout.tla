------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Tiles of the global grid and the order of a tile's points in memory.    *)
(*                                                                         *)
(* A box is <<ilo,ihi,jlo,jhi,klo,khi>> (inclusive, empty when some        *)
(* hi < lo); a 2d box <<ilo,ihi,jlo,jhi>> is the 3d box with k in 0..0.    *)
(* A layout is [b : Seq(box), perm : 0..2, mem : Seq(world rank)]: the     *)
(* tile of the r-th member of a communicator is b[r], stored with the      *)
(* storage order selected by perm:                                         *)
(*    0: i fastest, then j, then k                                         *)
(*    1: j fastest, then k, then i                                         *)
(*    2: k fastest, then i, then j                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

To3(b) == IF Len(b) = 4 THEN b \o <<0, 0>> ELSE b

Ext(b, d) == IF b[2*d] < b[2*d-1] THEN 0 ELSE b[2*d] - b[2*d-1] + 1

Size(b) == Ext(b, 1) * Ext(b, 2) * Ext(b, 3)

InBox(b, p) == /\ b[1] <= p[1] /\ p[1] <= b[2]
               /\ b[3] <= p[2] /\ p[2] <= b[4]
               /\ b[5] <= p[3] /\ p[3] <= b[6]

Points(b) == (b[1]..b[2]) \X (b[3]..b[4]) \X (b[5]..b[6])

(* position (from 0) of point p in the memory of the owner of box b *)
Index(b, perm, p) ==
  LET i == p[1] - b[1]
      j == p[2] - b[3]
      k == p[3] - b[5]
      ni == Ext(b, 1)
      nj == Ext(b, 2)
      nk == Ext(b, 3)
  IN CASE perm = 0 -> (k * nj + j) * ni + i
       [] perm = 1 -> (i * nk + k) * nj + j
       [] perm = 2 -> (j * ni + i) * nk + k

(* its inverse *)
PointAt(b, perm, x) ==
  LET ni == Ext(b, 1)
      nj == Ext(b, 2)
      nk == Ext(b, 3)
  IN CASE perm = 0 -> <<b[1] + (x % ni), b[3] + ((x \div ni) % nj), b[5] + (x \div (ni * nj))>>
       [] perm = 1 -> <<b[1] + (x \div (nj * nk)), b[3] + (x % nj), b[5] + ((x \div nj) % nk)>>
       [] perm = 2 -> <<b[1] + ((x \div nk) % ni), b[3] + (x \div (nk * ni)), b[5] + (x % nk)>>

Owners(boxes, p) == {r \in 1..Len(boxes) : InBox(boxes[r], p)}
Owner(boxes, p) == CHOOSE r \in 1..Len(boxes) : InBox(boxes[r], p)

(* Number of points as <<high, low>> in base 2^15, grids of more than 2^31 points included. *)
Times(x, k) == LET l == x[2] * k IN <<x[1] * k + l \div 32768, l % 32768>>
Plus(x, y) == LET l == x[2] + y[2] IN <<x[1] + y[1] + l \div 32768, l % 32768>>
NumPoints(a, b, c) == Times(Times(Times(<<0, 1>>, a), b), c)
(* the sum of the volumes is what a caller can be told about a tiling *)
RECURSIVE Covered(_, _)
Covered(bs, r) == IF r = 0 THEN <<0, 0>>
                  ELSE Plus(NumPoints(bs[r][2] - bs[r][1] + 1, bs[r][4] - bs[r][3] + 1, bs[r][6] - bs[r][5] + 1), Covered(bs, r - 1))
SameVolume(bs, n) == Covered(bs, Len(bs)) = NumPoints(n[1], n[2], n[3])

(* a tile description a caller may pass: at most one short of empty, inside the grid n *)
BoxOk(b, n) == \A d \in 1..3 : /\ b[2*d-1] <= b[2*d] + 1
                               /\ b[2*d-1] >= 0
                               /\ b[2*d] < n[d]

Disjoint(a, b) == \E d \in 1..3 : \/ a[2*d] < b[2*d-1] \/ b[2*d] < a[2*d-1]
                                  \/ Ext(a, d) = 0 \/ Ext(b, d) = 0

(* every grid point has exactly one owner *)
Tiling(boxes, n) ==
  /\ \A r \in 1..Len(boxes) : BoxOk(boxes[r], n)
  /\ SameVolume(boxes, n)
  /\ \A r, s \in 1..Len(boxes) : r < s => Disjoint(boxes[r], boxes[s])
=============================================================================
