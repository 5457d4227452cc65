------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* How a transform is carried out, and why that is the transform FftSys    *)
(* promises: the data goes through a sequence of tilings, is moved from    *)
(* each to the next by messages between ranks that proceed at their own    *)
(* speed, and is transformed along one dimension where the tiles hold      *)
(* whole lines.  Values are integers modulo the prime 61, which has roots  *)
(* of unity of every order that divides 60, so that equality is exact.     *)
(*                                                                         *)
(* A rank has one array (moves are in place).  In a move it packs one      *)
(* message per tile of the next tiling that its tile overlaps, its own     *)
(* share included, and unpacks what others have packed for it in any       *)
(* order.  Strict: it unpacks nothing before it has packed everything.     *)
(* Without that rule the array is overwritten too early: Correct fails.    *)
(* A move that leaves every rank's tile as it is may be left out.          *)
(***************************************************************************)
EXTENDS Tilings, TLC, Randomization

CONSTANTS G1, G2, G3, P, Count, Strict, Bricks

Grid == <<G1, G2, G3>>

VARIABLES plan,     \* Seq([b : tiling, perm : storage order, d : dimension to transform along afterwards, 0: none])
          dir,      \* 1 forward, -1 backward
          stage,    \* per rank: the move it is in (position in plan of its goal)
          tosend,   \* per rank: destinations it still has to pack for
          torecv,   \* per rank: sources it still has to unpack from
          arr,      \* per rank: position -> value
          msgs      \* <<stage, source, destination>> -> (point -> value)
vars == <<plan, dir, stage, tosend, torecv, arr, msgs>>

Prime == 61
RECURSIVE Power(_, _)
Power(x, k) == IF k = 0 THEN 1 ELSE (x * Power(x, k - 1)) % Prime
(* 2 generates the multiplicative group *)
Pow2 == [k \in 0..59 |-> Power(2, k)]
Root(n, k) == Pow2[((60 \div n) * (k % n)) % 60]

Pts == (0..(Grid[1] - 1)) \X (0..(Grid[2] - 1)) \X (0..(Grid[3] - 1))
Whole == <<0, Grid[1] - 1, 0, Grid[2] - 1, 0, Grid[3] - 1>>

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN (f[x] + Sum(f, S \ {x})) % Prime

(* the transform of the whole grid, by definition *)
Dft(g, s) == [p \in Pts |-> Sum([x \in Pts |-> (g[x] * ((Root(Grid[1], s * p[1] * x[1]) * Root(Grid[2], s * p[2] * x[2])) % Prime)
                                                 * Root(Grid[3], s * p[3] * x[3])) % Prime], Pts)]
Reflect(g) == [p \in Pts |-> g[<<(0 - p[1]) % Grid[1], (0 - p[2]) % Grid[2], (0 - p[3]) % Grid[3]>>]]
Scaled(g, k) == [p \in Pts |-> (k * g[p]) % Prime]

(* a generic function: no two values and no two differences are alike by intent *)
G0 == [p \in Pts |-> Power(7, 1 + Index(Whole, 0, p)) + Index(Whole, 0, p)]
G == [p \in Pts |-> G0[p] % Prime]
Wanted == [s \in {1, -1} |-> Dft(G, s)]

(* the algebra FftSys computes with *)
N == Grid[1] * Grid[2] * Grid[3]
ASSUME RootsOfUnity == \A d \in 1..3 : 60 % Grid[d] = 0
ASSUME TwiceIsReflection == Dft(Wanted[1], 1) = Scaled(Reflect(G), N)
ASSUME BackInverts == Dft(Wanted[1], -1) = Scaled(G, N) /\ Dft(Wanted[-1], 1) = Scaled(G, N)
ASSUME BackIsReflected == Wanted[-1] = Dft(Reflect(G), 1) /\ Wanted[-1] = Reflect(Wanted[1])

-----------------------------------------------------------------------------
Ranks == 1..P
Inter(a, b) == {p \in Points(a) : InBox(b, p)}
Meets(a, b) == Inter(a, b) # {}

Lay(t, perm, d) == [b |-> t, perm |-> perm, d |-> d]
Same(x, y) == \A r \in Ranks : (Size(x.b[r]) = 0 /\ Size(y.b[r]) = 0) \/ (x.b[r] = y.b[r] /\ x.perm = y.perm)

All == Tilings(Grid, P)
F == Pencils(Grid, P, 1)
Mi == Pencils(Grid, P, 2)
Sl == Pencils(Grid, P, 3)

(* forward: in, pencils along 1, 2 and 3, out; backward the other way round; bricks between pencils optional *)
Forward(x) ==
  <<Lay(x.in, 0, 0), Lay(x.f, 0, 1)>> \o (IF Bricks THEN <<Lay(x.b1, 0, 0)>> ELSE <<>>)
  \o <<Lay(x.m, 1, 2)>> \o (IF Bricks THEN <<Lay(x.b2, 1, 0)>> ELSE <<>>)
  \o <<Lay(x.s, 2, 3), Lay(x.out, x.perm, 0)>>
Backward(x) ==
  <<Lay(x.out, x.perm, 0), Lay(x.s, 2, 3)>> \o (IF Bricks THEN <<Lay(x.b2, 2, 0)>> ELSE <<>>)
  \o <<Lay(x.m, 1, 2)>> \o (IF Bricks THEN <<Lay(x.b1, 1, 0)>> ELSE <<>>)
  \o <<Lay(x.f, 0, 1), Lay(x.in, 0, 0)>>

Choices == RandomSubset(Count, [in : All, out : All, f : F, m : Mi, s : Sl, b1 : IF Bricks THEN All ELSE {<<>>}, b2 : IF Bricks THEN All ELSE {<<>>}, perm : 0..2, back : BOOLEAN])

Cap(pl, r) == LET S == {Size(pl[i].b[r]) : i \in 1..Len(pl)} IN CHOOSE m \in S : \A y \in S : y <= m

(* what a rank has to do to reach stage i *)
Dests(pl, i, r) == {q \in Ranks : Meets(pl[i-1].b[r], pl[i].b[q])}
Srcs(pl, i, r) == {q \in Ranks : Meets(pl[i-1].b[q], pl[i].b[r])}

Init ==
  \E x \in Choices :
    /\ plan = (IF x.back THEN Backward(x) ELSE Forward(x))
    /\ dir = (IF x.back THEN -1 ELSE 1)
    /\ stage = [r \in Ranks |-> 2]
    /\ tosend = [r \in Ranks |-> Dests(plan, 2, r)]
    /\ torecv = [r \in Ranks |-> Srcs(plan, 2, r)]
    /\ arr = [r \in Ranks |-> [k \in 0..(Cap(plan, r) - 1) |->
               IF k < Size(plan[1].b[r]) THEN G[PointAt(plan[1].b[r], plan[1].perm, k)] ELSE 0]]
    /\ msgs = <<>>

Done(r) == stage[r] > Len(plan)

Pack(r, q) ==
  /\ ~Done(r) /\ q \in tosend[r]
  /\ LET i == stage[r]
         a == plan[i-1]
     IN msgs' = (<<i, r, q>> :> [p \in Inter(a.b[r], plan[i].b[q]) |-> arr[r][Index(a.b[r], a.perm, p)]]) @@ msgs
  /\ tosend' = [tosend EXCEPT ![r] = @ \ {q}]
  /\ UNCHANGED <<plan, dir, stage, torecv, arr>>

Unpack(r, q) ==
  /\ ~Done(r) /\ q \in torecv[r]
  /\ Strict => tosend[r] = {}
  /\ LET i == stage[r]
         z == plan[i]
         k == <<i, q, r>>
     IN /\ k \in DOMAIN msgs
        /\ arr' = [arr EXCEPT ![r] = [x \in DOMAIN @ |-> IF \E p \in DOMAIN msgs[k] : Index(z.b[r], z.perm, p) = x
                                                         THEN msgs[k][PointAt(z.b[r], z.perm, x)] ELSE @[x]]]
        /\ msgs' = [m \in DOMAIN msgs \ {k} |-> msgs[m]]
  /\ torecv' = [torecv EXCEPT ![r] = @ \ {q}]
  /\ UNCHANGED <<plan, dir, stage, tosend>>

(* 1d transforms of the lines of a tile *)
Lines(a, z, s) ==
  [x \in DOMAIN a |->
     IF z.d = 0 \/ x >= Size(z.b) THEN a[x]
     ELSE LET p == PointAt(z.b, z.perm, x)
              At(t) == [p EXCEPT ![z.d] = t]
          IN Sum([t \in 0..(Grid[z.d] - 1) |-> (a[Index(z.b, z.perm, At(t))] * Root(Grid[z.d], s * p[z.d] * t)) % Prime], 0..(Grid[z.d] - 1))]

Enter(r, i) ==
  /\ stage' = [stage EXCEPT ![r] = i]
  /\ tosend' = [tosend EXCEPT ![r] = IF i > Len(plan) THEN {} ELSE Dests(plan, i, r)]
  /\ torecv' = [torecv EXCEPT ![r] = IF i > Len(plan) THEN {} ELSE Srcs(plan, i, r)]

Transform(r) ==
  /\ ~Done(r) /\ tosend[r] = {} /\ torecv[r] = {}
  /\ LET z == plan[stage[r]]
     IN arr' = [arr EXCEPT ![r] = Lines(@, [b |-> z.b[r], perm |-> z.perm, d |-> z.d], dir)]
  /\ Enter(r, stage[r] + 1)
  /\ UNCHANGED <<plan, dir, msgs>>

(* all ranks know the tilings, so all leave the move out *)
Skip(r) ==
  /\ ~Done(r) /\ Same(plan[stage[r] - 1], plan[stage[r]])
  /\ tosend[r] = Dests(plan, stage[r], r) /\ torecv[r] = Srcs(plan, stage[r], r)
  /\ LET z == plan[stage[r]]
     IN arr' = [arr EXCEPT ![r] = Lines(@, [b |-> z.b[r], perm |-> z.perm, d |-> z.d], dir)]
  /\ Enter(r, stage[r] + 1)
  /\ UNCHANGED <<plan, dir, msgs>>

Work(r) == IF ~Done(r) /\ Same(plan[stage[r] - 1], plan[stage[r]]) THEN Skip(r)
           ELSE Transform(r) \/ \E q \in Ranks : Pack(r, q) \/ Unpack(r, q)
Next == \E r \in Ranks : Work(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
AllDone == \A r \in Ranks : Done(r)

Correct == AllDone => LET z == plan[Len(plan)]
                      IN \A r \in Ranks : \A p \in Points(z.b[r]) : arr[r][Index(z.b[r], z.perm, p)] = Wanted[dir][p]
NothingLeft == AllDone => DOMAIN msgs = {}
NoDeadlock == AllDone \/ ENABLED Next
Bounded == \A k \in DOMAIN msgs : k[1] >= stage[k[3]]       \* no message arrives for a move that is over
=============================================================================
