------------------------------ MODULE TuneRules -----------------------------
(***************************************************************************)
(* What tuning may decide.  A tune event carries, per rank,                *)
(*   best   <<collective, exchange, pack>> in use afterwards               *)
(*   cf, ef, pf   the settings of the trials, tf their times in ns         *)
(*   nt, np  number of trials and transforms per trial                     *)
(* The trial plans are the documented ones.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Plan9(c, e) == <<<<0,0,2>>, <<0,1,2>>, <<1,0,2>>, <<1,1,2>>, <<2,0,2>>, <<2,1,2>>, <<c,e,0>>, <<c,e,1>>, <<c,e,2>>>>
Plan6 == SubSeq(Plan9(0, 0), 1, 6)
Plan3 == <<<<0,0,2>>, <<1,0,2>>, <<2,0,2>>>>
Plan2 == <<<<1,0,2>>, <<2,0,2>>>>
Default == <<2, 0, 2>>

(* first index of the smallest time in lo..hi *)
Fastest(t, lo, hi) == CHOOSE i \in lo..hi : /\ \A j \in lo..hi : t[i] <= t[j]
                                            /\ \A j \in lo..(i - 1) : t[j] > t[i]
(* times are recorded after scaling and rounding: any trial within the rounding is acceptable *)
NearFastest(t, lo, hi, i) == \A j \in lo..hi : t[i] <= t[j] + 1

Trials(r) == [i \in 1..r.nt |-> <<r.cf[i], r.ef[i], r.pf[i]>>]

(* the decision explained by the trial times of one rank's report *)
Explains(r, start) ==
  LET tr == Trials(r)
      b == r.best
  IN \/ /\ r.nt = 9
        /\ \E i \in 1..6 : /\ NearFastest(r.tf, 1, 6, i)
                           /\ tr = Plan9(tr[i][1], tr[i][2])
                           /\ b[1] = tr[i][1] /\ b[2] = tr[i][2]
                           /\ \E j \in 7..9 : NearFastest(r.tf, 7, 9, j) /\ b[3] = tr[j][3]
     \/ r.nt = 6 /\ tr = Plan6 /\ \E i \in 1..6 : NearFastest(r.tf, 1, 6, i) /\ b = tr[i]
     \/ r.nt = 3 /\ tr = Plan3 /\ \E i \in 1..3 : NearFastest(r.tf, 1, 3, i) /\ b = tr[i]
     \/ r.nt = 2 /\ tr = Plan2 /\ \E i \in 1..2 : NearFastest(r.tf, 1, 2, i) /\ b = tr[i]
     \/ r.nt = 2 /\ tr = <<start, Default>> /\ b = Default
     \/ r.nt = 1 /\ tr = <<Default>> /\ b = Default
     \/ r.nt = 1 /\ tr = <<start>> /\ b = start

Abs1(x) == IF x < 0 THEN 0 - x ELSE x

Detail(r, i) == <<r.t1[i], r.tr[i], r.tr1[i], r.tr2[i], r.tr3[i], r.tr4[i]>>

(* Times of the parts are reported exactly when asked for.  A clock that   *)
(* counts communication only gives the 1d transforms no time, the remaps   *)
(* together that of a full transform, and the single remaps that of all.   *)
TimesWhy(e, r) ==
  (IF \A x \in {r.t1, r.tr, r.tr1, r.tr2, r.tr3, r.tr4} : Len(x) = r.nt /\ \A i \in 1..r.nt : x[i] >= 0 THEN {}
   ELSE {"times of the parts are missing"})
  \cup (IF e.tflag = 0 /\ \E i \in 1..r.nt : Detail(r, i) # <<0, 0, 0, 0, 0, 0>>
        THEN {"times of the parts reported though not asked for"} ELSE {})
  \cup (IF e.work = 1 /\ e.tflag = 1
           /\ \E i \in 1..r.nt :
                LET d == Detail(r, i)
                    one == d[3] + d[4] + d[5] + (IF e.n[3] > 1 THEN d[6] ELSE 0)
                IN ~(\/ d = <<0, 0, 0, 0, 0, 0>> /\ (e.tmax > 0 \/ r.tf[i] = 0)
                     \/ d[1] = 0 /\ Abs1(d[2] - r.tf[i]) <= 2 /\ Abs1(one - d[2]) <= 5)
        THEN {"times of the parts do not add up"} ELSE {})
  \cup (IF e.work = 2 /\ e.tflag = 1
           /\ \E i \in 1..r.nt :
                LET d == Detail(r, i)
                IN ~(\/ d = <<0, 0, 0, 0, 0, 0>> /\ (e.tmax > 0 \/ r.tf[i] = 0)
                     \/ Abs1(d[1] - r.tf[i]) <= 2 /\ \A x \in 2..6 : d[x] = 0)
        THEN {"time of the 1d transforms is not that of the transform"} ELSE {})
  \cup (IF \E i \in (IF r.nt = 9 THEN 7 ELSE 1)..r.nt : <<r.cf[i], r.ef[i], r.pf[i]>> = r.best /\ Abs1(r.bt - r.tf[i]) <= 1 THEN {}
        ELSE {"best time is not that of the trial with the best settings"})

(* The time limit, when no trial costs more than the first transform did.  *)
(* The plan made afterwards, whose time is reported, comes on top.         *)
LimitWhy(e, r) ==
  IF e.budget = 1 /\ r.dt > e.tmax + r.st + 100 THEN {"tuning took longer than its time limit"} ELSE {}

(* Under a clock that counts 1d transforms only, setups are free and every *)
(* transform costs the same, so that the documented reduction is exact:    *)
(* fewer transforms per trial, no times of the parts, then fewer trials.   *)
(* <<trials, transforms per trial>> for a transform of cost c.             *)
Min2(x, y) == IF x < y THEN x ELSE y
Fits(e, c, start) ==
  LET k == IF e.tflag = 1 THEN 3 ELSE 1
      n1 == e.tmax \div (10 * k * c)
      n2 == e.tmax \div (10 * c)
      room == e.tmax \div c - 1
  IN IF e.tmax = 0 \/ c = 0 \/ n1 >= e.niter THEN <<9, e.niter>>
     ELSE IF n1 >= 1 THEN <<9, n1>>
     ELSE IF n2 >= 1 THEN <<9, Min2(n2, e.niter)>>
     ELSE IF room >= 9 THEN <<9, 1>>
     ELSE IF room >= 6 THEN <<6, 1>>
     ELSE IF room >= 3 THEN <<3, 1>>
     ELSE IF room = 2 THEN <<2, 1>>
     ELSE IF room = 1 /\ start # Default THEN <<2, 1>>
     ELSE <<1, 1>>

(* The setup time reported is that of the plan made at the end: within the *)
(* time tuning took, apart from the trials.                                *)
RECURSIVE Total(_, _)
Total(t, i) == IF i = 0 THEN 0 ELSE t[i] + Total(t, i - 1)
SetupTimeWhy(e, r) ==
  IF e.work = 0 THEN {}
  ELSE LET spent == r.np * (IF e.flag = 0 THEN 2 ELSE 1) * Total(r.tf, r.nt)
       IN IF r.st >= 0 /\ r.st + spent <= r.dt + 4 * r.nt * r.np + 10 THEN {}
          ELSE {"setup time reported is not that of the final setup"}

ExactWhy(e, r, start) ==
  IF e.work # 2 THEN {}
  ELSE LET c == r.tf[1] * (IF e.flag = 0 THEN 2 ELSE 1)
       IN (IF <<r.nt, r.np>> = Fits(e, c, start) THEN {}
                ELSE {"trials performed are not those the time limit leaves room for"})
          \cup (IF e.tmax > 0 /\ c > 0 /\ e.tmax >= c /\ r.dt > e.tmax + 100 THEN {"tuning took longer than its time limit"} ELSE {})

TuneWhy(e, o) ==
  LET first == e.res[o.mem[1] + 1]
      start == <<o.opt.collective, o.opt.exchange, o.opt.pack>>
  IN (IF \A m \in 1..Len(o.mem) : e.res[o.mem[m] + 1].best = first.best THEN {} ELSE {"tuned settings differ between ranks"})
     \cup (IF \A m \in 1..Len(o.mem) : LET x == e.res[o.mem[m] + 1]
                                       IN x.nt = first.nt /\ x.np = first.np /\ x.cf = first.cf /\ x.ef = first.ef /\ x.pf = first.pf
           THEN {} ELSE {"trials differ between ranks"})
     \cup (IF \E m \in 1..Len(o.mem) : Explains(e.res[o.mem[m] + 1], start) THEN {}
           ELSE {"tuned settings are not the fastest of a documented plan of trials"})
     \cup (IF \A m \in 1..Len(o.mem) : LET x == e.res[o.mem[m] + 1] IN x.np >= 1 /\ x.np <= e.niter THEN {}
           ELSE {"more transforms per trial than requested"})
     \cup (IF e.tmax = 0 /\ (first.nt # 9 \/ first.np # e.niter) THEN {"unlimited tuning did not run all trials"} ELSE {})
     \cup (IF \A m \in 1..Len(o.mem) : LET x == e.res[o.mem[m] + 1] IN Len(x.tf) = x.nt /\ \A i \in 1..x.nt : x.tf[i] >= 0
           THEN {} ELSE {"trial times missing"})
     \cup (IF \A m \in 1..Len(o.mem) : LET x == e.res[o.mem[m] + 1] IN x.found = x.best THEN {}
           ELSE {"best settings reported are not those in use"})
     \cup TimesWhy(e, first) \cup LimitWhy(e, first) \cup ExactWhy(e, first, start) \cup SetupTimeWhy(e, first)

(* After tuning, under the clock that counts communication only, a         *)
(* transform in the tuned direction costs what tuning reported.            *)
CostWhy(e, o) ==
  IF o.tuned[1] \in {1, 2} /\ o.tuned[2] = e.dir /\ Abs1(e.res[o.mem[1] + 1].dt - o.tuned[3]) > 2
  THEN {"the reported time is not that of the settings chosen"} ELSE {}
=============================================================================
