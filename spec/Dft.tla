-------------------------------- MODULE Dft ---------------------------------
(***************************************************************************)
(* The discrete Fourier transform in fixed point, from a table of one      *)
(* quarter wave of the cosine: QT[t+1] = round(S0 * cos(2 pi t / M)), and  *)
(* a second one, QF, that is 256 times finer, for double precision.        *)
(* The tables are not trusted: ASSUMEs below determine them up to rounding *)
(* (end points, monotone, unit circle, double angle).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils

M  == 86400            \* 2^7 3^3 5^2: most grid sizes in use divide it
S0 == 262144           \* 2^18
QM == M \div 4

Tables == JsonDeserialize(IOEnv.FFT_COS)
QT == Tables[1]
QF == Tables[2]

Cos(t) == LET u == t % M
              v == IF u > M \div 2 THEN M - u ELSE u
          IN IF v <= QM THEN QT[v + 1] ELSE 0 - QT[(M \div 2) - v + 1]
Sin(t) == Cos(t - QM)

FCos(t) == LET u == t % M
               v == IF u > M \div 2 THEN M - u ELSE u
           IN IF v <= QM THEN QF[v + 1] ELSE 0 - QF[(M \div 2) - v + 1]
FSin(t) == FCos(t - QM)

Abs(x) == IF x < 0 THEN 0 - x ELSE x

(* angle of point p against frequency x on the grid n, in units of 2 pi / M *)
Part(n, p, x) == (p * (((x * M) \div n) % M)) % M
Angle(n, p, x) == (Part(n[1], p[1], x[1]) + Part(n[2], p[2], x[2]) + Part(n[3], p[3], x[3])) % M

(* the angles a source at x gives rise to are in the table *)
Divides(n, x) == \A d \in 1..3 : (x[d] * M) % n[d] = 0

(* sum over the sources <<x, re, im>> of (re + i im) exp(-sgn 2 pi i p.x / n), scaled by S0 *)
RECURSIVE SumRe(_, _, _, _, _), SumIm(_, _, _, _, _)
SumRe(src, j, n, p, sgn) ==
  IF j = 0 THEN 0
  ELSE LET t == Angle(n, p, src[j][1])
       IN src[j][2] * Cos(t) + sgn * src[j][3] * Sin(t) + SumRe(src, j - 1, n, p, sgn)
SumIm(src, j, n, p, sgn) ==
  IF j = 0 THEN 0
  ELSE LET t == Angle(n, p, src[j][1])
       IN src[j][3] * Cos(t) - sgn * src[j][2] * Sin(t) + SumIm(src, j - 1, n, p, sgn)

(* the same, scaled by 256 S0; for sources whose absolute values add up to at most 31 *)
RECURSIVE FineRe(_, _, _, _, _), FineIm(_, _, _, _, _)
FineRe(src, j, n, p, sgn) ==
  IF j = 0 THEN 0
  ELSE LET t == Angle(n, p, src[j][1])
       IN src[j][2] * FCos(t) + sgn * src[j][3] * FSin(t) + FineRe(src, j - 1, n, p, sgn)
FineIm(src, j, n, p, sgn) ==
  IF j = 0 THEN 0
  ELSE LET t == Angle(n, p, src[j][1])
       IN src[j][3] * FCos(t) - sgn * src[j][2] * FSin(t) + FineIm(src, j - 1, n, p, sgn)

(* ---- the tables are cosines ---- *)
ASSUME TableEnds == Len(QT) = QM + 1 /\ QT[1] = S0 /\ QT[QM + 1] = 0
ASSUME TableFalls == \A t \in 1..QM : QT[t + 1] <= QT[t]
(* cos(t+1) + cos(t-1) = 2 cos(t) cos(1), within rounding *)
ASSUME TableUnit == \A t \in 1..(QM - 1) :
   LET c == QT[t + 1] \div 64
       s == QT[QM - t + 1] \div 64
   IN Abs(c * c + s * s - 16777216) <= 16000
(* cos(2t) = 2 cos(t)^2 - 1 in reduced precision, pins the angle *)
ASSUME TableDouble == \A t \in 0..(QM \div 2) :
   LET c == QT[t + 1] \div 16
   IN Abs(((2 * c * c) \div 16384) - 16384 - (QT[2 * t + 1] \div 16)) <= 8

(* c^2 / 2^26 in 31 bits *)
Sq(c) == LET a == c \div 8192
             b == c % 8192
         IN a * a + (2 * a * b + (b * b) \div 8192) \div 8192
ASSUME FineEnds == Len(QF) = QM + 1 /\ QF[1] = 67108864 /\ QF[QM + 1] = 0
ASSUME FineFalls == \A t \in 1..QM : QF[t + 1] <= QF[t]
ASSUME FineNear == \A t \in 0..QM : Abs(QF[t + 1] - 256 * QT[t + 1]) <= 129
ASSUME FineUnit == \A t \in 0..QM : Abs(Sq(QF[t + 1]) + Sq(QF[QM - t + 1]) - 67108864) <= 4
ASSUME FineDouble == \A t \in 0..(QM \div 2) : Abs(2 * Sq(QF[t + 1]) - 67108864 - QF[2 * t + 1]) <= 6
=============================================================================
