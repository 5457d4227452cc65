------------------------------- MODULE FftGen -------------------------------
(***************************************************************************)
(* Programs over FftSys: every behaviour is a history of library calls     *)
(* that the specification allows, possibly ending in a call it requires to *)
(* fail.  TLC's simulator produces histories; the runner carries each out  *)
(* against the library and hands the recording to FftTrace.  The problems  *)
(* (grids, tilings, communicators) to draw from come in a file.            *)
(***************************************************************************)
EXTENDS FftSys, Json, IOUtils, TLC

VARIABLES hist,    \* calls made so far
          pick,    \* kind of call to make next, "" when still open
          names    \* objects and arrays made so far, for fresh names

gvars == <<objs, arrs, marks, alive, hist, pick, names>>

Pool == JsonDeserialize(IOEnv.FFT_POOL)
MaxLen == Pool.len
Probs == 1..Len(Pool.probs)
Comms == 1..Len(Pool.comms)
Cats == Pool.cats

Apis == {"cpp", "c", "f"}
Live == DOMAIN objs
Arrays == DOMAIN arrs
FftObjs == {o \in Live : IsFft(objs[o])}
RemObjs == Live \ FftObjs
DimOf(kind) == IF kind \in {"f3", "r3"} THEN 3 ELSE 2
Fits(o, p) == Pool.probs[p].d = Dim(objs[o]) /\ Pool.probs[p].mem = objs[o].mem

(* arrays are allocated for one object and may be the target of its calls; *)
(* data may come from any array that holds it in the right layout          *)
Target(o) == {a \in Arrays : arrs[a].cap = o}
Known(a) == arrs[a].c.k \in {"tok", "dft", "zero"}
Source(o, lay) == {a \in Arrays : /\ Known(a)
                                  /\ InLay(arrs[a].c, lay)
                                  /\ arrs[a].c.k # "zero" \/ arrs[a].cap = o
                                  /\ arrs[a].c.k # "dft" \/ (arrs[a].c.n = objs[o].n /\ objs[o].nq = 2)
                                  /\ arrs[a].c.k # "tok" \/ arrs[a].c.nq = objs[o].nq}

(* values a recording can show exactly enough *)
Readable(a) == IF arrs[a].c.k = "dft" THEN arrs[a].c.pw \in -1..1 ELSE arrs[a].c.k \in {"tok", "zero"}

Vals(key) == IF key \in {"collective", "pack"} THEN 0..2 ELSE 0..1
FftKeys == {"collective", "exchange", "pack", "memory", "scale", "remaponly"}
RemKeys == {"collective", "pack"}

Problem(o, p) == [op |-> "setup", o |-> o, p |-> p, n |-> Pool.probs[p].n, inb |-> Pool.probs[p].inb, outb |-> Pool.probs[p].outb]
BadTune == {<<2, 1, 0, 0>>, <<0, 0, 0, 0>>, <<0, 1, -1000, 0>>, <<0, 1, 0, 2>>, <<0, 1, 0, 0>>}

(* the calls of each kind that are possible now *)
Cands(c) ==
  CASE c = "new" -> IF Cardinality(Live) >= Pool.maxobj THEN {}
                    ELSE {[op |-> "new", o |-> "o" \o ToString(names), kind |-> k, api |-> a, comm |-> i]
                            : k \in {Pool.kinds[j] : j \in 1..Len(Pool.kinds)}, a \in Apis, i \in Comms}
    [] c = "set" -> {[op |-> "set", o |-> o, key |-> k, val |-> v] : o \in FftObjs, k \in FftKeys, v \in 0..2}
                    \cup {[op |-> "set", o |-> o, key |-> k, val |-> v] : o \in {x \in RemObjs : objs[x].phase = "new"}, k \in RemKeys, v \in 0..2}
    [] c = "setup" -> UNION {{Problem(o, p) : p \in {q \in Probs : Fits(o, q) /\ CallError(Problem(o, q), 2) = ""}}
                             : o \in {x \in FftObjs : objs[x].phase = "new"}}
                      \cup {[op |-> "rsetup", o |-> x[1], p |-> x[2], nq |-> x[3], mem |-> x[4]] :
                              x \in {y \in {z \in RemObjs : objs[z].phase = "new"} \X Probs \X (1..3) \X (0..1)
                                       : Fits(y[1], y[2]) /\ Pool.probs[y[2]].bad = 0}}
    [] c = "tune" -> {[op |-> "tune", o |-> x[1], p |-> x[2], flag |-> x[3], niter |-> 1, tmax |-> 0, tflag |-> x[4]] :
                        x \in {y \in {z \in FftObjs : objs[z].phase = "new"} \X Probs \X {-1, 0, 1} \X (0..1)
                                 : Fits(y[1], y[2]) /\ Pool.probs[y[2]].bad = 0}}
    [] c = "mem" -> {[op |-> "mem", o |-> o] : o \in {x \in FftObjs : objs[x].phase = "set" /\ objs[x].memset = 0}}
    [] c = "alloc" -> IF Cardinality(Arrays) >= Pool.maxarr THEN {}
                      ELSE {[op |-> "alloc", a |-> "x" \o ToString(names), o |-> o] : o \in {x \in Live : objs[x].phase = "set"}}
    [] c = "free" -> {[op |-> "free", a |-> a] : a \in Arrays}
    [] c = "fill" -> UNION {{[op |-> "fill", a |-> a, o |-> o, side |-> s, fill |-> f]
                              : a \in Target(o), s \in {"in", "out"}, f \in IF IsFft(objs[o]) THEN {"dft", "dft", "tok", "zero"} ELSE {"tok", "zero"}}
                            : o \in Live}
    [] c = "read" -> UNION {UNION {{[op |-> "read", a |-> a, o |-> o, side |-> s,
                                     e |-> IF arrs[a].c.k = "dft" THEN arrs[a].c.e ELSE -1, pw |-> IF arrs[a].c.k = "dft" THEN arrs[a].c.pw ELSE 0]
                                     : a \in {x \in Source(o, Side(objs[o], s)) : Readable(x)}}
                                   : s \in {"in", "out"}} : o \in {y \in Live : objs[y].phase = "set"}}
    [] c = "compute" -> UNION {UNION {{[op |-> "compute", o |-> o, a |-> a, b |-> b, dir |-> d]
                                        : a \in {x \in Source(o, SrcLay(objs[o], d)) : objs[o].opt.remaponly = 1 \/ arrs[x].c.k # "tok"}, b \in Target(o)}
                                      : d \in {1, -1}} : o \in {x \in FftObjs : Ready(objs[x])}}
    [] c = "onlyremaps" -> UNION {UNION {{[op |-> "onlyremaps", o |-> o, a |-> a, b |-> b, dir |-> d]
                                           : a \in Source(o, SrcLay(objs[o], d)), b \in Target(o)}
                                         : d \in {1, -1}} : o \in {x \in FftObjs : Ready(objs[x])}}
    [] c = "oneremap" -> UNION {UNION {{[op |-> "oneremap", o |-> o, a |-> x[1], b |-> x[2], dir |-> d, which |-> x[3]]
                                         : x \in {y \in Target(o) \X Target(o) \X (1..NStages(objs[o]))
                                                    : /\ arrs[y[1]].c.k \in {"tok", "dft", "mid"}
                                                      /\ StageResult(arrs[y[1]].c, o, objs[o], d, y[3]).k # "none"}}
                                       : d \in {1, -1}} : o \in {x \in FftObjs : Ready(objs[x])}}
    [] c = "only1d" -> UNION {{[op |-> "only1d", o |-> o, a |-> a, dir |-> d] : a \in {x \in Target(o) : arrs[x].c.k = "zero" /\ arrs[x].c.any}, d \in {1, -1}}
                              : o \in {x \in FftObjs : objs[x].phase = "set"}}
    [] c = "remap" -> UNION {{[op |-> "remap", o |-> o, a |-> a, b |-> b] : a \in Source(o, LayIn(objs[o])), b \in Target(o)}
                             : o \in {x \in RemObjs : objs[x].phase = "set"}}
    [] c = "get" -> {[op |-> "get", o |-> o] : o \in {x \in FftObjs : objs[x].phase = "set"}}
    [] c = "del" -> {[op |-> "del", o |-> o] : o \in Live}
    [] c = "bad" -> {e \in UNION {{Problem(o, p) : p \in {q \in Probs : Fits(o, q)}} : o \in FftObjs}
                          \cup {[op |-> x[1], o |-> x[2]] : x \in {"compute", "onlyremaps", "oneremap", "only1d", "setupmem"} \X FftObjs}
                          \cup {[op |-> "remap", o |-> o] : o \in RemObjs}
                          \cup UNION {{[op |-> "tune", o |-> o, p |-> p, n |-> Pool.probs[p].n, inb |-> Pool.probs[p].inb, outb |-> Pool.probs[p].outb,
                                        flag |-> t[1], niter |-> t[2], tmax |-> t[3], tflag |-> t[4]]
                                        : p \in {q \in Probs : Fits(o, q)}, t \in BadTune} : o \in FftObjs}
                     : CallError(e, 2) # ""}

Content(e) ==
  LET o == objs[e.o]
      lay == Side(o, e.side)
  IN CASE e.fill = "zero" -> Zero
       [] e.fill = "tok" -> [k |-> "tok", nq |-> o.nq, lay |-> lay]
       [] OTHER -> [k |-> "dft", e |-> 0, r |-> 0, pw |-> 0, n |-> o.n, lay |-> lay]

Made(e, opt) == LET p == Pool.probs[e.p] IN Setup(e.o, p.n, p.perm, p.inb, p.outb, 2, objs[e.o].opt.memory, <<>>, <<>>, <<>>, opt, NotTuned)

Apply(c, e) ==
  IF c = "bad" THEN Fail
  ELSE CASE e.op = "new" -> New(e.o, e.kind, e.api, Pool.comms[e.comm])
         [] e.op = "set" -> e.val \in Vals(e.key) /\ Set(e.o, e.key, e.val)
         [] e.op = "setup" -> Made(e, objs[e.o].opt)
         [] e.op = "tune" -> Made(e, objs[e.o].opt)          \* the settings found are not known here and do not matter below
         [] e.op = "rsetup" -> LET p == Pool.probs[e.p] IN Setup(e.o, p.n, p.perm, p.inb, p.outb, e.nq, e.mem, <<>>, <<>>, <<>>, objs[e.o].opt, NotTuned)
         [] e.op = "mem" -> SetupMemory(e.o)
         [] e.op = "alloc" -> Alloc(e.a, e.o)
         [] e.op = "free" -> Free(e.a)
         [] e.op = "fill" -> Fill(e.a, Content(e))
         [] e.op = "compute" -> Compute(e.o, e.a, e.b, e.dir)
         [] e.op = "onlyremaps" -> OnlyRemaps(e.o, e.a, e.b, e.dir)
         [] e.op = "oneremap" -> OneRemap(e.o, e.a, e.b, e.dir, e.which)
         [] e.op = "only1d" -> Only1d(e.o, e.a)
         [] e.op = "remap" -> Remap(e.o, e.a, e.b)
         [] e.op = "del" -> Delete(e.o)
         [] OTHER -> UNCHANGED sysvars

Init == SysInit /\ hist = <<>> /\ pick = "" /\ names = 1

Over == ~alive \/ Len(hist) >= MaxLen

Choose == /\ pick = "" /\ ~Over
          /\ \E i \in 1..Len(Cats) : /\ Cands(Cats[i]) # {}
                                     /\ pick' = Cats[i]
          /\ UNCHANGED <<objs, arrs, marks, alive, hist, names>>

Call == /\ pick \notin {"", "done"}
        /\ \E e \in Cands(pick) : Apply(pick, e) /\ hist' = Append(hist, [cat |-> pick, e |-> e])
        /\ pick' = "" /\ names' = names + 1

Stop == /\ pick = "" /\ Over
        /\ PrintT("HIST " \o ToJson(hist))
        /\ pick' = "done"
        /\ UNCHANGED <<objs, arrs, marks, alive, hist, names>>

Next == Choose \/ Call \/ Stop
Spec == Init /\ [][Next]_gvars

-----------------------------------------------------------------------------
(* what holds in every reachable state of the specification *)
TypeOK ==
  /\ \A o \in Live : /\ objs[o].phase \in {"new", "set"}
                     /\ objs[o].memset \in 0..1
                     /\ objs[o].bufs => objs[o].phase = "set" /\ objs[o].memset = 0
                     /\ objs[o].phase = "set" => Tiling(objs[o].inb, objs[o].n) /\ Tiling(objs[o].outb, objs[o].n)
  /\ \A a \in Arrays : arrs[a].c.k \in {"none", "zero", "tok", "dft", "mid"}

(* known data is held completely, on the members of one communicator *)
DataHeld == \A a \in Arrays : arrs[a].c.k \in {"tok", "dft"} =>
              Len(arrs[a].c.lay.b) = Len(arrs[a].c.lay.mem)

(* nothing happens after a call that ended the program *)
Final == ~alive => pick \in {"", "done"}
=============================================================================
