------------------------------ MODULE FftTrace ------------------------------
(***************************************************************************)
(* Checks recorded executions of the library against FftSys.  Every        *)
(* recorded scenario is one initial state; its calls are the only steps.   *)
(* A call is explained when FftSys has the corresponding action enabled    *)
(* and everything observed (returned sizes, values read back, guard zones, *)
(* resource counters, error exits) is what the specification demands.      *)
(* The runner requires the line ACCEPT <id> for every scenario; REJECT     *)
(* names the call and the reasons; GENERATOR marks a broken scenario.      *)
(***************************************************************************)
EXTENDS FftSys, Dft, TLC, TuneRules

VARIABLES sid, l, verdict

Traces == JsonDeserialize(IOEnv.FFT_TRACES)

tvars == <<objs, arrs, marks, alive, sid, l, verdict>>

T == Traces[sid]
RankPos(mem, r) == IF \E m \in 1..Len(mem) : mem[m] = r - 1 THEN CHOOSE m \in 1..Len(mem) : mem[m] = r - 1 ELSE 0
Ranks == 1..T.P
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

-----------------------------------------------------------------------------
(* number of scalars of object o's tile on world rank r *)
TileScalars(o, side, r) ==
  LET m == RankPos(o.mem, r)
      lay == Side(o, side)
  IN IF m = 0 THEN 0 ELSE o.nq * Size(lay.b[m])

SizeOf(o, what, r) ==
  LET m == RankPos(o.mem, r)
  IN IF m = 0 THEN 0
     ELSE CASE what = "in" -> TileScalars(o, "in", r)
            [] what = "out" -> TileScalars(o, "out", r)
            [] what = "max" -> MaxOf(TileScalars(o, "in", r), TileScalars(o, "out", r))
            [] what = "fft" -> IF IsFft(o) THEN 2 * o.fft[m] ELSE o.fft[m]
            [] what = "send" -> o.snd[m]
            [] what = "recv" -> o.rcv[m]
            [] OTHER -> 0

-----------------------------------------------------------------------------
(* expected value of a content at a point; <<re, im>> in units 1/(scale the read used); *)
(* transforms are read on a finer scale where they fit (f = 256, else f = 1)           *)
RECURSIVE Pow(_, _)
Pow(b, x) == IF x = 0 THEN 1 ELSE b * Pow(b, x - 1)

Reflect(p, n) == <<(n[1] - p[1]) % n[1], (n[2] - p[2]) % n[2], (n[3] - p[3]) % n[3]>>

(* factor by which reading scales content, as <<num, den>>: (sn/sd) * N^pw *)
Factor(c, sn, sd) == IF c.pw >= 0 THEN <<sn * Pow(Grid(c.n), c.pw), sd>> ELSE <<sn, sd * Pow(Grid(c.n), 0 - c.pw)>>

Hits(c, p) == {j \in 1..Len(c.src) : c.src[j][1] = (IF c.r = 0 THEN p ELSE Reflect(p, c.n))}
PlainAt(c, p) == LET h == Hits(c, p)
                 IN IF h = {} THEN <<0, 0>> ELSE LET j == MinOf(h) IN <<c.src[j][2], c.src[j][3]>>

Tolerance(c, prec) == IF prec = 1 THEN 2 * c.sum + 3 ELSE (c.sum \div 2) + 2

DftBad(c, lay, m, v, sn, sd, prec, fine) ==
  LET b == lay.b[m]
      f == Factor(c, sn, sd)
      tol == Tolerance(c, prec)
      sgn == IF c.r = 0 THEN 1 ELSE -1
  IN IF c.e = 1
     THEN IF fine = 256 /\ c.sum <= 31
     THEN {x \in 0..(Size(b) - 1) :
             LET p == PointAt(b, lay.perm, x)
             IN \/ Abs(v[2*x+1] - FineRe(c.src, Len(c.src), c.n, p, sgn)) > tol
                \/ Abs(v[2*x+2] - FineIm(c.src, Len(c.src), c.n, p, sgn)) > tol}
     ELSE {x \in 0..(Size(b) - 1) :
             LET p == PointAt(b, lay.perm, x)
             IN \/ Abs((v[2*x+1] \div fine) - SumRe(c.src, Len(c.src), c.n, p, sgn)) > tol
                \/ Abs((v[2*x+2] \div fine) - SumIm(c.src, Len(c.src), c.n, p, sgn)) > tol}
     ELSE {x \in 0..(Size(b) - 1) :
             LET p == PointAt(b, lay.perm, x)
                 w == PlainAt(c, p)
                 q == f[1] \div f[2]
             IN v[2*x+1] # q * w[1] \/ v[2*x+2] # q * w[2]}

(* a read is usable when its scale fits the content *)
ReadFits(c, sn, sd) ==
  IF c.k # "dft" THEN sn = 1 /\ sd = 1
  ELSE LET f == Factor(c, sn, sd)
       IN IF c.e = 1 THEN (\A j \in 1..Len(c.src) : Divides(c.n, c.src[j][1])) /\ f[1] = S0 * f[2] ELSE f[1] % f[2] = 0

(* tokens in double precision do not fit in single precision *)
TokVal(c, p, q) ==
  LET r == Owner(c.lay0.b, p)
  IN (IF T.prec = 2 THEN 1073741824 ELSE 0) + c.base + c.lay0.mem[r] * c.stride + Index(c.lay0.b[r], c.lay0.perm, p) * c.nq + q

TokBad(c, lay, m, v) ==
  LET b == lay.b[m]
  IN {x \in 0..(Size(b) - 1) :
        LET p == PointAt(b, lay.perm, x)
        IN \E q \in 0..(c.nq - 1) : v[x * c.nq + q + 1] # TokVal(c, p, q)}

(* rounding allowed on values that are exactly representable in the specification *)
UlpBound(c) == IF c.k = "dft" THEN IF c.ops = 0 THEN 0 ELSE 64 * (c.sum + 4) ELSE 0

ReadWhy(e) ==
  LET c == arrs[e.a].c
      o == objs[e.o]
      lay == Side(o, e.side)
  IN IF c.k \in {"none", "mid"} THEN {"GENERATOR: read of unknown content"}
     ELSE IF ~ReadFits(c, e.sn, e.sd) THEN {"GENERATOR: read scale does not fit"}
     ELSE IF ~InLay(c, lay) THEN {"GENERATOR: read in another layout"}
     ELSE UNION {
       LET m == RankPos(o.mem, r)
           v == e.res[r]
       IN IF m = 0 THEN {}
          ELSE IF v.n # o.nq * Size(lay.b[m]) \/ Len(v.v) # v.n THEN {"GENERATOR: read count"}
          ELSE IF v.bad # 0 THEN {"values are not finite on rank " \o ToString(r - 1)}
          ELSE LET bad == CASE c.k = "zero" -> {x \in 0..(v.n - 1) : v.v[x + 1] # 0}
                            [] c.k = "tok" -> TokBad(c, lay, m, v.v)
                            [] c.k = "dft" -> DftBad(c, lay, m, v.v, e.sn, e.sd, T.prec, v.f)
               IN (IF bad = {} THEN {}
                   ELSE {"wrong value on rank " \o ToString(r - 1) \o " at position " \o ToString(MinOf(bad))
                         \o " (" \o ToString(Cardinality(bad)) \o " of " \o ToString(v.n) \o ")"})
                  \cup (IF (c.k # "dft" \/ c.e = 0) /\ bad = {} /\ v.ulp > UlpBound(c)
                        THEN {"inexact value on rank " \o ToString(r - 1)} ELSE {})
       : r \in Ranks}

-----------------------------------------------------------------------------
Guard(e) == UNION {IF "g" \in DOMAIN e.res[r] /\ e.res[r].g # 0
                   THEN {"memory outside the array was written on rank " \o ToString(r - 1)} ELSE {} : r \in Ranks}
Kept(e) == UNION {IF "chg" \in DOMAIN e.res[r] /\ e.res[r].chg # 0
                  THEN {"input of an out of place call was changed on rank " \o ToString(r - 1)} ELSE {} : r \in Ranks}

CapOk(e, a, what) == \A r \in Ranks : arrs[a].cap[r] >= SizeOf(objs[e.o], what, r)

(* room the documentation asks of the caller *)
RoomOk(e) ==
  LET o == objs[e.o]
      src == IF e.op = "remap" \/ e.dir = 1 THEN "in" ELSE "out"
  IN IF ~IsFft(o)
     THEN IF e.a = e.b THEN CapOk(e, e.a, "max") ELSE CapOk(e, e.a, "in") /\ CapOk(e, e.b, "out")
     ELSE IF e.a = e.b THEN CapOk(e, e.a, "fft")
     ELSE (e.op = "oneremap" \/ CapOk(e, e.a, src)) /\ CapOk(e, e.b, "fft")

MoveWhy(e, src) ==
  IF ~RoomOk(e) THEN {"GENERATOR: array too small"}
  ELSE IF ~InLay(arrs[e.a].c, src) THEN {"GENERATOR: array in another layout"}
  ELSE Guard(e) \cup Kept(e)

Mem(e, f) == [m \in 1..Len(objs[e.o].mem) |-> e.res[objs[e.o].mem[m] + 1][f]]

SizesWhy(e, o, inb, outb) ==
  UNION {
    LET r == e.res[o.mem[m] + 1]
    IN (IF IsFft(o) /\ r.fft < MaxOf(Size(inb[m]), Size(outb[m]))
        THEN {"returned array size is smaller than a tile on member " \o ToString(m - 1)} ELSE {})
       \cup (IF r.snd < 0 \/ r.rcv < 0 THEN {"buffer size not returned on member " \o ToString(m - 1)} ELSE {})
    : m \in 1..Len(o.mem)}

SetupWhy(e) ==
  LET o == objs[e.o]
  IN IF ~IsFft(o) /\ o.phase # "new" THEN {"GENERATOR: remap set up twice"}
     ELSE IF ~Tiling(e.inb, e.n) \/ ~Tiling(e.outb, e.n) THEN {"GENERATOR: tiles overlap"}
     ELSE SizesWhy(e, o, e.inb, e.outb) \cup Guard(e)

-----------------------------------------------------------------------------
(* queries: e.keys names what was asked, e.res[r].v[i] the answers *)
Same(e, i) == \A m \in 1..Len(objs[e.o].mem) : e.res[objs[e.o].mem[m] + 1].v[i] = e.res[objs[e.o].mem[1] + 1].v[i]
KeyAt(e, k) == IF \E i \in 1..Len(e.keys) : e.keys[i] = k THEN CHOOSE i \in 1..Len(e.keys) : e.keys[i] = k ELSE 0

KeyWhy(e, i) ==
  LET o == objs[e.o]
      k == e.keys[i]
      v == e.res[o.mem[1] + 1].v[i]
      P == Len(o.mem)
      differ == IF Same(e, i) THEN {} ELSE {k \o " differs between ranks"}
  IN CASE k \in {"collective", "exchange", "pack"} ->
            differ \cup (IF v # o.seen[k] THEN {k \o " is not the value in use"} ELSE {})
       [] k \in {"scaled", "remaponly"} ->
            IF v # o.opt[IF k = "scaled" THEN "scale" ELSE k] THEN {k \o " is not the value set"} ELSE {}
       [] k \in {"ntrial", "npertrial"} ->
            differ \cup (IF o.tuned = NotTuned /\ v # 0 THEN {"trials reported though not tuned"} ELSE {})
       [] k = "fft1d" -> IF v # T.fft1d THEN {"wrong name of the 1d library"} ELSE {}
       [] k = "precision" -> IF v # (IF T.prec = 1 THEN "single" ELSE "double") THEN {"wrong precision name"} ELSE {}
       [] k = "memusage" ->
            UNION {LET x == e.res[o.mem[m] + 1].v[i]
                       w == IF T.prec = 1 THEN 4 ELSE 8
                       need == IF o.memset = 1 THEN w * (o.snd[m] + o.rcv[m]) ELSE 0
                   IN (IF x < need THEN {"memory usage smaller than the buffers on member " \o ToString(m - 1)} ELSE {})
                      \cup (IF x > e.res[o.mem[m] + 1].hb THEN {"memory usage exceeds what is held on member " \o ToString(m - 1)} ELSE {})
                   : m \in 1..P}
       [] OTHER -> {}

(* decompositions: sizes multiply to the number of ranks, one along the pencil *)
Trip(e, base) == [d \in 1..3 |-> LET i == KeyAt(e, base \o ToString(d)) IN IF i = 0 THEN 1 ELSE e.res[objs[e.o].mem[1] + 1].v[i]]
DecWhy(e, base, one) ==
  IF KeyAt(e, base \o "1") = 0 THEN {}
  ELSE LET t == Trip(e, base)
           P == Len(objs[e.o].mem)
           o == objs[e.o]
       IN (IF \A d \in 1..3 : LET i == KeyAt(e, base \o ToString(d)) IN i = 0 \/ Same(e, i) THEN {} ELSE {base \o " differs between ranks"})
          \cup (IF base = "npbrick" /\ o.opt.exchange = 0
                THEN IF \A d \in 1..Dim(o) : t[d] = 0 THEN {} ELSE {"brick decomposition reported for pencil exchange"}
                ELSE (IF t[1] * t[2] * t[3] = P THEN {} ELSE {base \o " is not a decomposition of the ranks"})
                     \cup (IF one = 0 \/ t[one] = 1 THEN {} ELSE {base \o " is not one rank along the pencil"}))

GetWhy(e) ==
  UNION {KeyWhy(e, i) : i \in 1..Len(e.keys)}
  \cup (IF objs[e.o].phase = "set"
        THEN DecWhy(e, "npfast", 1)
             \cup (IF Dim(objs[e.o]) = 3 THEN DecWhy(e, "npmid", 2) \cup DecWhy(e, "npslow", 3)
                   ELSE DecWhy(e, "npslow", 2))
             \cup DecWhy(e, "npbrick", 0)
        ELSE {})

(* two objects given the same calls through different interfaces answer alike *)
CmpWhy(e) ==
  UNION {LET r == e.res[objs[e.o].mem[m] + 1]
         IN UNION {IF r.v1[i] = r.v2[i] THEN {} ELSE {e.keys[i] \o " differs between interfaces"} : i \in 1..Len(e.keys)}
         : m \in 1..Len(objs[e.o].mem)}

-----------------------------------------------------------------------------
MarkKeys == {"heap", "bytes", "comms", "groups", "reqs", "types"}
MarkWhy(e) ==
  IF e.same = "" THEN {}
  ELSE UNION {UNION {IF e.res[r][k] # marks[e.same][r][k]
                     THEN {k \o " not released on rank " \o ToString(r - 1)} ELSE {} : k \in MarkKeys} : r \in Ranks}

FillWhy(e) ==
  UNION {IF "over" \in DOMAIN e.res[r] \/ e.res[r].n # TileScalars(objs[e.o], e.side, r)
         THEN {"GENERATOR: fill count"} ELSE {} : r \in Ranks}

(* recorded values of a fill: sequence of <<position, re, im>> per rank *)
RECURSIVE Flat(_, _)
Flat(f, r) == IF r = 0 THEN <<>> ELSE Flat(f, r - 1) \o f[r]
RECURSIVE SumAbs(_, _)
SumAbs(s, j) == IF j = 0 THEN 0 ELSE Abs(s[j][2]) + Abs(s[j][3]) + SumAbs(s, j - 1)
FillSrc(e, lay) ==
  Flat([r \in Ranks |->
          LET m == RankPos(lay.mem, r)
          IN IF m = 0 THEN <<>>
             ELSE [j \in 1..Len(e.res[r].v) |->
                     <<PointAt(lay.b[m], lay.perm, e.res[r].v[j][1]), e.res[r].v[j][2], e.res[r].v[j][3]>>]], T.P)

FillContent(e) ==
  LET o == objs[e.o]
      lay == Side(o, e.side)
  IN CASE e.fill = "zero" -> Zero
       [] e.fill = "tok" -> [k |-> "tok", base |-> e.base, stride |-> e.stride, nq |-> o.nq, lay0 |-> lay, lay |-> lay]
       [] OTHER -> LET s == FillSrc(e, lay)
                   IN [k |-> "dft", src |-> s, sum |-> SumAbs(s, Len(s)), e |-> 0, r |-> 0, pw |-> 0, ops |-> 0, n |-> o.n, lay |-> lay]

-----------------------------------------------------------------------------
Why(e) ==
  LET err == CallError(e, T.prec)
  IN IF err # "" THEN {"call completed although it had to end with: " \o err}
     ELSE CASE e.op = "setup" -> SetupWhy(e)
            [] e.op = "tune" -> SetupWhy(e) \cup TuneWhy(e, objs[e.o])
            [] e.op \in {"compute", "onlyremaps"} -> MoveWhy(e, SrcLay(objs[e.o], e.dir)) \cup CostWhy(e, objs[e.o])
            [] e.op = "oneremap" -> MoveWhy(e, IF arrs[e.a].c.k \in {"tok", "dft"} THEN SrcLay(objs[e.o], e.dir) ELSE LayIn(objs[e.o]))
            [] e.op = "remap" -> MoveWhy(e, LayIn(objs[e.o]))
            [] e.op = "only1d" -> IF CapOk(e, e.a, "fft") THEN Guard(e) ELSE {"GENERATOR: array too small"}
            [] e.op = "fill" -> FillWhy(e)
            [] e.op = "read" -> ReadWhy(e)
            [] e.op = "get" -> GetWhy(e)
            [] e.op = "getcmp" -> CmpWhy(e)
            [] e.op = "mark" -> MarkWhy(e)
            [] OTHER -> {}

TunedOpt(e) ==
  LET r == e.res[objs[e.o].mem[1] + 1]
  IN [objs[e.o].opt EXCEPT !.collective = r.best[1], !.exchange = r.best[2], !.pack = r.best[3]]

CountOp(b) == arrs[b].c
(* the number of transforms since the fill decides whether values must be exact *)
WithOps(c, moved) == IF c.k = "dft" THEN [c EXCEPT !.ops = c.ops + moved] ELSE c

Step(e) ==
  CASE e.op = "new" -> New(e.o, e.kind, e.api, e.mem)
    [] e.op = "set" -> Set(e.o, e.key, e.val)
    [] e.op = "setup" -> Setup(e.o, e.n, e.perm, e.inb, e.outb, e.nq,
                               IF IsFft(objs[e.o]) THEN objs[e.o].opt.memory ELSE e.memflag,
                               Mem(e, "fft"), Mem(e, "snd"), Mem(e, "rcv"), objs[e.o].opt, NotTuned)
    [] e.op = "tune" -> Setup(e.o, e.n, e.perm, e.inb, e.outb, 2, objs[e.o].opt.memory,
                              Mem(e, "fft"), Mem(e, "snd"), Mem(e, "rcv"), TunedOpt(e),
                              <<e.work, e.flag, e.res[objs[e.o].mem[1] + 1].bt, 1>>)
    [] e.op = "setupmem" -> SetupMemory(e.o)
    [] e.op = "alloc" -> Alloc(e.a, [r \in Ranks |-> e.res[r].n])
    [] e.op = "free" -> Free(e.a)
    [] e.op = "fill" -> Fill(e.a, FillContent(e))
    [] e.op = "compute" ->
         /\ alive /\ Ready(objs[e.o]) = TRUE
         /\ arrs' = [arrs EXCEPT ![e.b].c = WithOps(ComputeResult(arrs[e.a].c, objs[e.o], e.dir),
                                                    IF objs[e.o].opt.remaponly = 1 THEN 0 ELSE 1)]
         /\ UNCHANGED <<objs, marks, alive>>
    [] e.op = "onlyremaps" -> OnlyRemaps(e.o, e.a, e.b, e.dir)
    [] e.op = "oneremap" -> OneRemap(e.o, e.a, e.b, e.dir, e.which)
    [] e.op = "only1d" -> Only1d(e.o, e.a)
    [] e.op = "remap" -> Remap(e.o, e.a, e.b)
    [] e.op = "del" -> Delete(e.o)
    [] e.op = "mark" -> Mark(e.name, e.res)
    [] OTHER -> UNCHANGED sysvars

-----------------------------------------------------------------------------
(* the end of a scenario *)
CleanWhy ==
  LET z == T.end
  IN (IF z.verdict # "end" THEN {"the ranks did not all finish: " \o z.verdict} ELSE {})
     \cup UNION {IF z.ranks[r].st # "ok" THEN {"rank " \o ToString(r - 1) \o " ended with " \o z.ranks[r].st} ELSE {} : r \in Ranks}
     \cup UNION {IF z.ranks[r].txt # "" THEN {"unexpected output on rank " \o ToString(r - 1) \o ": " \o z.ranks[r].txt} ELSE {} : r \in Ranks}
     \cup (IF z.orphans # 0 THEN {"messages or collectives left over"} ELSE {})
     \cup {z.notes[i] : i \in 1..Len(z.notes)}

(* an error exit: every member stops in this call, the first member reports once *)
ErrorWhy(e) ==
  LET z == T.end
      err == CallError(e, T.prec)
      mem == IF e.op = "new" THEN e.mem ELSE objs[e.o].mem
  IN IF err = "" THEN {"call did not complete (" \o z.verdict \o ")"}
                      \cup {"rank " \o ToString(r - 1) \o " " \o z.ranks[r].st \o " " \o z.ranks[r].txt : r \in {q \in Ranks : z.ranks[q].st # "ok"}}
                      \cup {z.notes[i] : i \in 1..Len(z.notes)}
     ELSE UNION {
            LET m == RankPos(mem, r)
                x == z.ranks[r]
            IN IF m = 0 THEN IF x.st # "ok" THEN {"rank outside the communicator was stopped"} ELSE {}
               ELSE (IF x.st = "exit" /\ x.code # 0 /\ x.fin = 1 /\ x.op = l - 1 THEN {}
                     ELSE {"rank " \o ToString(r - 1) \o " did not stop with an error exit in the offending call but: " \o x.st})
                    \cup (IF x.txt = (IF m = 1 THEN "ERROR: " \o err ELSE "") THEN {}
                          ELSE {"rank " \o ToString(r - 1) \o " reported '" \o x.txt \o "' instead of: " \o err})
            : r \in Ranks}
          \cup {z.notes[i] : i \in 1..Len(z.notes)}

-----------------------------------------------------------------------------
Init == SysInit /\ sid \in 1..Len(Traces) /\ l = 1 /\ verdict = "run"

Report(tag, why) == PrintT(<<tag, T.id, l, why>>)

Reject(why) == /\ verdict' = "reject"
               /\ Report("REJECT", why)
               /\ UNCHANGED <<objs, arrs, marks, alive, sid, l>>

Next ==
  /\ verdict = "run"
  /\ IF l <= T.full
     THEN LET e == T.ev[l]
              why == Why(e)
          IN IF why # {} THEN Reject(why)
             ELSE /\ Step(e)
                  /\ l' = l + 1
                  /\ UNCHANGED <<sid, verdict>>
     ELSE IF l <= Len(T.ev)
     THEN LET why == ErrorWhy(T.ev[l])
          IN IF why # {} THEN Reject(why)
             ELSE /\ Fail /\ verdict' = "accept" /\ Report("ACCEPT", {})
                  /\ UNCHANGED <<sid, l>>
     ELSE IF CleanWhy # {} THEN Reject(CleanWhy)
          ELSE /\ verdict' = "accept" /\ Report("ACCEPT", {})
               /\ UNCHANGED <<objs, arrs, marks, alive, sid, l>>

Spec == Init /\ [][Next]_tvars
=============================================================================
