------------------------------- MODULE FftSys -------------------------------
(***************************************************************************)
(* What a program that uses the library can observe: FFT and remap objects *)
(* on communicators, the distributed arrays handed to them, and for every  *)
(* call either its effect or the error it must end with.                   *)
(*                                                                         *)
(* A distributed array is described by content that is independent of how  *)
(* it is spread over ranks, together with the layout it is held in:        *)
(*   [k |-> "none"]    nothing is known about it                           *)
(*   [k |-> "zero", ..] every value is zero, of the whole array on every   *)
(*                     rank (any) or of one layout                         *)
(*   [k |-> "tok", ..] every value is distinct: value q of the point that  *)
(*                     had position x on member r of the layout lay0 is    *)
(*                     base + worldrank(r)*stride + x*nq + q               *)
(*   [k |-> "dft", ..] N^pw * F^e (R^r G) where G is the sparse integer    *)
(*                     function src = Seq(<<point, re, im>>) on the grid   *)
(*                     dims, F the unscaled forward transform and R the    *)
(*                     reflection p -> -p.  F F = N R, and the backward    *)
(*                     transform is F R, so the set is closed under both.  *)
(*   [k |-> "mid", ..] a transform's chain of single remaps under way      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Layout

VARIABLES objs,     \* name -> object
          arrs,     \* name -> [cap |-> Seq(scalars per world rank), c |-> content]
          marks,    \* name -> resource counters seen earlier
          alive     \* FALSE once a call has ended the program with an error

sysvars == <<objs, arrs, marks, alive>>

None == [k |-> "none"]
Zero == [k |-> "zero", any |-> TRUE]
ZeroIn(lay) == [k |-> "zero", any |-> FALSE, lay |-> lay]

IsFft(o) == o.kind \in {"f3", "f2"}
Dim(o) == IF o.kind \in {"f3", "r3"} THEN 3 ELSE 2

RECURSIVE Smooth(_)     \* only 2, 3 and 5 divide n
Smooth(n) == IF n % 2 = 0 THEN Smooth(n \div 2)
             ELSE IF n % 3 = 0 THEN Smooth(n \div 3)
             ELSE IF n % 5 = 0 THEN Smooth(n \div 5)
             ELSE n = 1

MaxOf(a, b) == IF a > b THEN a ELSE b

Grid(n) == n[1] * n[2] * n[3]

-----------------------------------------------------------------------------
(* layouts of an object *)
LayIn(o)  == [b |-> o.inb, perm |-> 0, mem |-> o.mem]
LayOut(o) == [b |-> o.outb, perm |-> o.perm, mem |-> o.mem]
SrcLay(o, dir) == IF dir = 1 THEN LayIn(o) ELSE LayOut(o)
DstLay(o, dir) == IF dir = 1 THEN LayOut(o) ELSE LayIn(o)
Side(o, s) == IF s = "in" THEN LayIn(o) ELSE LayOut(o)

(* two layouts are the same when the same ranks hold the same points in the same places *)
SameLay(x, y) == /\ x.mem = y.mem
                 /\ Len(x.b) = Len(y.b)
                 /\ \A r \in 1..Len(x.b) :
                      \/ Size(x.b[r]) = 0 /\ Size(y.b[r]) = 0
                      \/ x.b[r] = y.b[r] /\ (x.perm = y.perm \/ Size(x.b[r]) = 1)

InLay(c, lay) == IF c.k \in {"tok", "dft"} THEN SameLay(c.lay, lay)
                 ELSE IF c.k = "zero" THEN c.any \/ SameLay(c.lay, lay) ELSE TRUE

-----------------------------------------------------------------------------
(* the effect of a transform on content *)
Rearranged(c, lay) == IF c.k \in {"tok", "dft"} THEN [c EXCEPT !.lay = lay]
                      ELSE IF c.k = "zero" THEN ZeroIn(lay) ELSE None

Transformed(c, o, dir, lay) ==
  IF c.k = "zero" THEN ZeroIn(lay)
  ELSE IF c.k # "dft" THEN None
  ELSE LET refl == IF dir = 1 THEN 0 ELSE 1                  \* backward = F after R
           sc   == IF dir = -1 /\ o.opt.scale = 1 THEN -1 ELSE 0
       IN IF c.e = 0
          THEN [c EXCEPT !.e = 1, !.r = (c.r + refl) % 2, !.pw = c.pw + sc, !.lay = lay]
          ELSE [c EXCEPT !.e = 0, !.r = (c.r + refl + 1) % 2, !.pw = c.pw + sc + 1, !.lay = lay]

ComputeResult(c, o, dir) ==
  IF o.opt.remaponly = 1 THEN Rearranged(c, DstLay(o, dir)) ELSE Transformed(c, o, dir, DstLay(o, dir))

(* single remaps: forward 1,2,..,n; backward n,..,2,1 *)
NStages(o) == IF Dim(o) = 3 THEN 4 ELSE 3
FirstStage(o, dir) == IF dir = 1 THEN 1 ELSE NStages(o)
LastStage(o, dir) == IF dir = 1 THEN NStages(o) ELSE 1

StageResult(c, name, o, dir, which) ==
  IF dir = -1 /\ SameLay(LayIn(o), LayOut(o)) THEN None     \* not documented
  ELSE IF which = FirstStage(o, dir) /\ c.k \in {"tok", "dft"} /\ InLay(c, SrcLay(o, dir))
       THEN [k |-> "mid", o |-> name, dir |-> dir, next |-> which + dir, c |-> c]
  ELSE IF c.k = "mid" /\ c.o = name /\ c.dir = dir /\ c.next = which
       THEN IF which = LastStage(o, dir) THEN Rearranged(c.c, DstLay(o, dir))
            ELSE [c EXCEPT !.next = which + dir]
  ELSE None

-----------------------------------------------------------------------------
(* errors: the message a call must end the program with, "" if none *)
Ready(o) == o.phase = "set" /\ (o.memset = 1 \/ o.bufs)

SetupError(o, n, inb, outb) ==
  LET three == Dim(o) = 3
  IN IF n[1] < 2 \/ (three /\ n[2] < 2) \/ (IF three THEN n[3] ELSE n[2]) < 2 THEN "Each FFT dimension must be >= 2"
     ELSE IF ~Smooth(n[1]) THEN "Invalid nfast"
     ELSE IF three /\ ~Smooth(n[2]) THEN "Invalid nmid"
     ELSE IF ~Smooth(IF three THEN n[3] ELSE n[2]) THEN "Invalid nslow"
     ELSE IF \E r \in 1..Len(inb) : ~BoxOk(inb[r], n) \/ ~BoxOk(outb[r], n)
          THEN "FFT setup in/out indices are invalid"
     ELSE IF ~SameVolume(inb, n) \/ ~SameVolume(outb, n)
          THEN "FFT setup in/out indices do not tile grid"
     ELSE ""

CallError(e, prec) ==
  IF e.op = "new" /\ e.kind \in {"f3", "f2"}
  THEN IF e.prec \notin {1, 2} THEN "Invalid precision setting for FFT lib"
       ELSE IF e.prec # prec THEN "Precision mis-match with FFT lib" ELSE ""
  ELSE IF e.op \in {"set", "get", "getcmp", "del", "new", "comm", "alloc", "free", "fill", "read", "mark", "clock", "commfree", "barrier"} THEN ""
  ELSE LET o == objs[e.o]
    IN CASE e.op = "setup" /\ IsFft(o) ->
              IF o.phase # "new" THEN "FFT is already setup" ELSE SetupError(o, e.n, e.inb, e.outb)
         [] e.op = "setup" /\ ~IsFft(o) -> ""
         [] e.op = "tune" ->
              IF o.phase # "new" THEN "FFT is already setup"
              ELSE IF e.flag \notin -1..1 THEN "Invalid flag arg for FFT tune"
              ELSE IF e.niter <= 0 \/ e.tmax < 0 THEN "Invalid niter/tmax args for FFT tune"
              ELSE IF e.tflag \notin 0..1 THEN "Invalid tflag arg for FFT tune"
              ELSE SetupError(o, e.n, e.inb, e.outb)
         [] e.op = "setupmem" ->
              IF o.phase = "new" THEN "Cannot setup FFT memory before setup"
              ELSE IF o.memset = 1 THEN "Cannot setup FFT memory with memoryflag set" ELSE ""
         [] e.op = "compute" ->
              IF o.phase = "new" THEN "Cannot compute FFT before setup"
              ELSE IF ~Ready(o) THEN "Cannot compute FFT before setup_memory" ELSE ""
         [] e.op = "only1d" -> IF o.phase = "new" THEN "Cannot compute 1d FFTs before setup" ELSE ""
         [] e.op = "onlyremaps" ->
              IF o.phase = "new" THEN "Cannot perform FFT remap before setup"
              ELSE IF ~Ready(o) THEN "Cannot perform FFT remap before setup_memory" ELSE ""
         [] e.op = "oneremap" ->
              IF o.phase = "new" THEN "Cannot perform an FFT remap before setup"
              ELSE IF ~Ready(o) THEN "Cannot perform an FFT remap before setup_memory" ELSE ""
         [] e.op = "remap" -> IF o.phase = "new" THEN "Cannot perform remap before setup" ELSE ""
         [] OTHER -> ""

-----------------------------------------------------------------------------
(* actions *)
DefaultOpt(kind) ==
  [collective |-> IF kind \in {"f3", "f2"} THEN 2 ELSE 1, exchange |-> 0,
   pack |-> IF kind = "f3" THEN 2 ELSE 0, memory |-> 1, scale |-> 1, remaponly |-> 0]

(* <<the clock counts communication only, direction tuned for, time of one transform found>> *)
NotTuned == <<0, 0, 0, 0>>

NewObj(kind, api, mem) ==
  [kind |-> kind, api |-> api, mem |-> mem, phase |-> "new", bufs |-> FALSE, opt |-> DefaultOpt(kind),
   seen |-> DefaultOpt(kind), n |-> <<1, 1, 1>>, perm |-> 0, inb |-> <<>>, outb |-> <<>>, nq |-> 2,
   memset |-> 1, fft |-> <<>>, snd |-> <<>>, rcv |-> <<>>, tuned |-> NotTuned]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

New(name, kind, api, mem) ==
  /\ alive
  /\ objs' = Put(objs, name, NewObj(kind, api, mem))
  /\ UNCHANGED <<arrs, marks, alive>>

(* the four plan options count only before the plan exists; scaling and    *)
(* remap-only count at every compute                                        *)
Set(name, key, val) ==
  LET o == objs[name]
  IN /\ alive
     /\ objs' = [objs EXCEPT ![name].seen[key] = val,
                             ![name].opt[key] = IF o.phase = "new" \/ key \in {"scale", "remaponly"} THEN val ELSE o.opt[key]]
     /\ UNCHANGED <<arrs, marks, alive>>

Setup(name, n, perm, inb, outb, nq, mem, fft, snd, rcv, opt, tuned) ==
  /\ alive
  /\ objs[name].phase = "new"
  /\ objs' = [objs EXCEPT ![name] =
       [objs[name] EXCEPT !.phase = "set", !.n = n, !.perm = perm, !.inb = inb, !.outb = outb, !.nq = nq,
                          !.memset = mem, !.fft = fft, !.snd = snd, !.rcv = rcv, !.opt = opt, !.seen = opt, !.tuned = tuned]]
  /\ UNCHANGED <<arrs, marks, alive>>

SetupMemory(name) ==
  /\ alive
  /\ objs[name].phase = "set" /\ objs[name].memset = 0
  /\ objs' = [objs EXCEPT ![name].bufs = TRUE]
  /\ UNCHANGED <<arrs, marks, alive>>

Alloc(a, cap) ==
  /\ alive
  /\ arrs' = Put(arrs, a, [cap |-> cap, c |-> None])
  /\ UNCHANGED <<objs, marks, alive>>

Free(a) == /\ alive /\ arrs' = Drop(arrs, a) /\ UNCHANGED <<objs, marks, alive>>

Fill(a, c) ==
  /\ alive
  /\ arrs' = [arrs EXCEPT ![a].c = c]
  /\ UNCHANGED <<objs, marks, alive>>

(* out of place the input keeps its content; in place it becomes the result *)
Produce(a, b, c) == arrs' = [arrs EXCEPT ![b].c = c]

Compute(name, a, b, dir) ==
  /\ alive /\ Ready(objs[name]) = TRUE
  /\ InLay(arrs[a].c, SrcLay(objs[name], dir)) = TRUE
  /\ Produce(a, b, ComputeResult(arrs[a].c, objs[name], dir))
  /\ UNCHANGED <<objs, marks, alive>>

OnlyRemaps(name, a, b, dir) ==
  /\ alive /\ Ready(objs[name]) = TRUE
  /\ InLay(arrs[a].c, SrcLay(objs[name], dir)) = TRUE
  /\ Produce(a, b, Rearranged(arrs[a].c, DstLay(objs[name], dir)))
  /\ UNCHANGED <<objs, marks, alive>>

OneRemap(name, a, b, dir, which) ==
  /\ alive /\ Ready(objs[name]) = TRUE
  /\ which \in 1..NStages(objs[name])
  /\ Produce(a, b, IF arrs[a].c.k = "zero"                    \* moving zeros in place leaves nothing else
                    THEN IF a = b /\ arrs[a].c.any THEN Zero ELSE None
                    ELSE StageResult(arrs[a].c, name, objs[name], dir, which))
  /\ UNCHANGED <<objs, marks, alive>>

Only1d(name, a) ==
  /\ alive /\ objs[name].phase = "set"
  /\ arrs' = [arrs EXCEPT ![a].c = IF arrs[a].c.k = "zero" /\ arrs[a].c.any THEN Zero ELSE None]
  /\ UNCHANGED <<objs, marks, alive>>

Remap(name, a, b) ==
  /\ alive /\ objs[name].phase = "set"
  /\ InLay(arrs[a].c, LayIn(objs[name])) = TRUE
  /\ Produce(a, b, Rearranged(arrs[a].c, LayOut(objs[name])))
  /\ UNCHANGED <<objs, marks, alive>>

Delete(name) == /\ alive /\ objs' = Drop(objs, name) /\ UNCHANGED <<arrs, marks, alive>>

Mark(name, v) == /\ alive /\ marks' = Put(marks, name, v) /\ UNCHANGED <<objs, arrs, alive>>

Fail == /\ alive /\ alive' = FALSE /\ UNCHANGED <<objs, arrs, marks>>

SysInit == objs = <<>> /\ arrs = <<>> /\ marks = <<>> /\ alive = TRUE
=============================================================================
