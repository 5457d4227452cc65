------------------------------ MODULE Meaning ------------------------------
(***************************************************************************)
(* What the abstract content of FftSys means, and that the actions of      *)
(* FftSys are right about it.  Besides FftSys's content every array has    *)
(* its values, rank by rank and position by position, as integers modulo   *)
(* 61; every call has the effect on values that the definition of the      *)
(* transform (a sum over the grid) or of a remap gives it, whatever the    *)
(* content is said to be.  Means: known content describes the values.      *)
(* So the algebra N^pw F^e (R^r G), the layouts in which content is said   *)
(* to be held, the conditions under which a call may use it, and when two  *)
(* layouts count as the same are all checked against concrete arrays.      *)
(***************************************************************************)
EXTENDS FftSys, Tilings, TLC, Randomization

CONSTANTS G1, G2, G3, P, Count, Pows

Grid3 == <<G1, G2, G3>>
N == G1 * G2 * G3

VARIABLES val       \* array -> rank -> position -> value, -1 when unknown
mvars == <<objs, arrs, marks, alive, val>>

Prime == 61
RECURSIVE Power(_, _)
Power(x, k) == IF k = 0 THEN 1 ELSE (x * Power(x, k - 1)) % Prime
Pow2 == [k \in 0..59 |-> Power(2, k)]
Root(n, k) == Pow2[((60 \div n) * (k % n)) % 60]
Inv(x) == Power(x, 59)
NPow(k) == IF k >= 0 THEN Power(N % Prime, k) ELSE Power(Inv(N % Prime), 0 - k)

Whole == <<0, G1 - 1, 0, G2 - 1, 0, G3 - 1>>
Pts == Points(Whole)
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN (f[x] + Sum(f, S \ {x})) % Prime
Kernel == [s \in {1, -1} |-> [p \in Pts |-> [x \in Pts |->
             (((Root(G1, s * p[1] * x[1]) * Root(G2, s * p[2] * x[2])) % Prime) * Root(G3, s * p[3] * x[3])) % Prime]]]
Dft(g, s) == [p \in Pts |-> Sum([x \in Pts |-> (g[x] * Kernel[s][p][x]) % Prime], Pts)]
Refl(g) == [p \in Pts |-> g[<<(0 - p[1]) % G1, (0 - p[2]) % G2, (0 - p[3]) % G3>>]]
Times61(g, k) == [p \in Pts |-> (k * g[p]) % Prime]

G == [p \in Pts |-> (Power(7, 1 + Index(Whole, 0, p)) + Index(Whole, 0, p)) % Prime]
Tok == [p \in Pts |-> 1 + Index(Whole, 0, p)]
FG == [r \in 0..1 |-> Dft(IF r = 0 THEN G ELSE Refl(G), 1)]

(* the grid function that content stands for *)
Denoted(c) == IF c.k = "tok" THEN Tok
              ELSE Times61(IF c.e = 1 THEN FG[c.r] ELSE IF c.r = 0 THEN G ELSE Refl(G), NPow(c.pw))

-----------------------------------------------------------------------------
(* values; those nothing is known about are not followed *)
Cap == N                                                 \* enough for any tile
Unknown == [r \in 0..(P - 1) |-> [x \in 0..(Cap - 1) |-> -1]]
Rank(lay, m) == lay.mem[m]
Held(v, lay) == \A m \in 1..Len(lay.b) : \A x \in 0..(Size(lay.b[m]) - 1) : v[Rank(lay, m)][x] # -1
Gather(v, lay) == [p \in Pts |-> LET m == Owner(lay.b, p) IN v[Rank(lay, m)][Index(lay.b[m], lay.perm, p)]]
(* members have their tile and nothing else that is known, others keep what they have *)
Scatter(v, g, lay) ==
  [r \in 0..(P - 1) |->
     IF \E m \in 1..Len(lay.b) : Rank(lay, m) = r
     THEN LET m == CHOOSE m \in 1..Len(lay.b) : Rank(lay, m) = r
          IN [x \in 0..(Cap - 1) |-> IF x < Size(lay.b[m]) THEN g[PointAt(lay.b[m], lay.perm, x)] ELSE -1]
     ELSE v[r]]

Result(a, b, o, dir, transform) ==
  LET lay == SrcLay(o, dir)
  IN IF arrs'[b].c.k = "none" \/ ~Held(val[a], lay) THEN [val EXCEPT ![b] = Unknown]
     ELSE LET g == Gather(val[a], lay)
              t == IF ~transform THEN g
                   ELSE LET d == Dft(g, dir) IN IF dir = -1 /\ o.opt.scale = 1 THEN Times61(d, Inv(N % Prime)) ELSE d
          IN [val EXCEPT ![b] = Scatter(val[b], t, DstLay(o, dir))]

-----------------------------------------------------------------------------
Arrays == {"x", "y"}
Orders == IF P = 2 THEN {<<0, 1>>, <<1, 0>>} ELSE {[i \in 1..P |-> i - 1], [i \in 1..P |-> P - i]}
Made(kind, mem, inb, outb, perm) ==
  [NewObj(kind, "cpp", mem) EXCEPT !.phase = "set", !.n = Grid3, !.perm = perm, !.inb = inb, !.outb = outb]
Two(i, o, m, p1, p2, k, w) ==
  LET second == CASE w = 1 -> <<i, o>> [] w = 2 -> <<o, i>> [] w = 3 -> <<i, i>>
  IN [x \in {"f", "g"} |-> IF x = "f" THEN Made("f3", [j \in 1..P |-> j - 1], i, o, p1) ELSE Made(k, m, second[1], second[2], p2)]
Choices == Tilings(Grid3, P) \X Tilings(Grid3, P) \X Orders \X (0..2) \X (0..2) \X {"f3", "r3"} \X (1..3)

Init == /\ objs \in {Two(c[1], c[2], c[3], c[4], c[5], c[6], c[7]) : c \in RandomSubset(Count, Choices)}
        /\ arrs = [a \in Arrays |-> [cap |-> <<>>, c |-> None]]
        /\ marks = <<>> /\ alive = TRUE
        /\ val = [a \in Arrays |-> Unknown]

FillWith(a, o, s, c) ==
  LET lay == Side(objs[o], s)
  IN /\ Fill(a, IF c = "tok" THEN [k |-> "tok", lay |-> lay]
                ELSE IF c = "zero" THEN Zero
                ELSE [k |-> "dft", e |-> 0, r |-> 0, pw |-> 0, lay |-> lay])
     /\ val' = [val EXCEPT ![a] = IF c = "zero" THEN [r \in 0..(P - 1) |-> [x \in 0..(Cap - 1) |-> 0]]
                                  ELSE Scatter(val[a], IF c = "tok" THEN Tok ELSE G, lay)]

Next ==
  \E o \in {"f", "g"}, a, b \in Arrays, d \in {1, -1} :
    \/ \E s \in {"in", "out"}, c \in {"dft", "tok", "zero"} : FillWith(a, o, s, c)
    \/ IsFft(objs[o]) /\ \E k \in {"scale", "remaponly"}, v \in 0..1 : Set(o, k, v) /\ val' = val
    \/ IsFft(objs[o]) /\ Compute(o, a, b, d) /\ val' = Result(a, b, objs[o], d, objs[o].opt.remaponly = 0)
    \/ IsFft(objs[o]) /\ OnlyRemaps(o, a, b, d) /\ val' = Result(a, b, objs[o], d, FALSE)
    \/ ~IsFft(objs[o]) /\ Remap(o, a, b) /\ val' = Result(a, b, objs[o], 1, FALSE)

Spec == Init /\ [][Next]_mvars

(* keeps the exploration finite *)
Small == \A a \in Arrays : arrs[a].c.k = "dft" => arrs[a].c.pw \in (0 - Pows)..Pows

-----------------------------------------------------------------------------
Means ==
  \A a \in Arrays :
    LET c == arrs[a].c
    IN CASE c.k \in {"tok", "dft"} ->
              LET g == Denoted(c)
              IN \A m \in 1..Len(c.lay.b) : \A x \in 0..(Size(c.lay.b[m]) - 1) :
                   val[a][Rank(c.lay, m)][x] = g[PointAt(c.lay.b[m], c.lay.perm, x)]
         [] c.k = "zero" /\ c.any -> \A r \in 0..(P - 1) : \A x \in 0..(Cap - 1) : val[a][r][x] = 0
         [] c.k = "zero" -> \A m \in 1..Len(c.lay.b) : \A x \in 0..(Size(c.lay.b[m]) - 1) : val[a][Rank(c.lay, m)][x] = 0
         [] OTHER -> TRUE


(* a call changes the array it is told to change and no other *)
OneTarget == [][Cardinality({a \in Arrays : val'[a] # val[a]}) <= 1]_mvars

(* instances that must fail *)
NoReflection(c, o, dir, lay) ==
  IF c.k = "zero" THEN ZeroIn(lay) ELSE IF c.k # "dft" THEN None
  ELSE LET sc == IF dir = -1 /\ o.opt.scale = 1 THEN -1 ELSE 0
       IN IF c.e = 0 THEN [c EXCEPT !.e = 1, !.pw = c.pw + sc, !.lay = lay]
          ELSE [c EXCEPT !.e = 0, !.pw = c.pw + sc + 1, !.lay = lay]
AnyOrder(x, y) == Len(x.b) = Len(y.b) /\ \A r \in 1..Len(x.b) : x.b[r] = y.b[r] /\ (x.perm = y.perm \/ Size(x.b[r]) = 1)
=============================================================================
