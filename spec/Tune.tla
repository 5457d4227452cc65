-------------------------------- MODULE Tune --------------------------------
(***************************************************************************)
(* Tuning as it is carried out: every rank times a first transform and     *)
(* then the trials with its own clock, which may show anything; the first  *)
(* rank's reading is passed to all; from the readings each rank decides by *)
(* itself how many trials fit the time limit, which trial comes next and   *)
(* which settings to use.  Trials are collective: ranks that do not agree  *)
(* on the next trial wait for each other for ever.                         *)
(*                                                                         *)
(* Share = FALSE leaves out the passing on: Agreement and NoDeadlock fail. *)
(* The decisions are those TuneRules accepts from recorded runs.           *)
(***************************************************************************)
EXTENDS TuneRules, TLC

CONSTANTS Ranks,       \* 1..P
          Times,       \* readings a clock may give for one transform
          Limits,      \* time limits, 0: none
          Iters,       \* transforms per trial asked for
          Share

VARIABLES arg,         \* [tmax, niter, tflag, start]: what the caller asked for
          seen,        \* per rank: the times it goes by, one per trial, after the first transform's
          first,       \* per rank: its time of the first transform, -1 not yet known
          told,        \* readings of the first rank: position -> time
          at,          \* per rank: number of trials entered
          res          \* per rank: settings in use at the end, <<>> before
vars == <<arg, seen, first, told, at, res>>

Other == <<0, 1, 0>>
Root == 1

Init == /\ arg \in [tmax : Limits, niter : Iters, tflag : {0, 1}, start : {Default, Other}]
        /\ seen = [r \in Ranks |-> <<>>]
        /\ first = [r \in Ranks |-> -1]
        /\ told = <<>>
        /\ at = [r \in Ranks |-> 0]
        /\ res = [r \in Ranks |-> <<>>]

(* what rank r has decided on: <<trials, transforms per trial>> *)
Decided(r) == Fits(arg, first[r], arg.start)

(* the k-th trial as rank r sees it *)
Plan(r) ==
  LET nt == Decided(r)[1]
      room == IF first[r] = 0 THEN 9 ELSE arg.tmax \div first[r] - 1
      b == IF Len(seen[r]) >= 6 THEN Plan6[Fastest(seen[r], 1, 6)] ELSE <<0, 0, 2>>
  IN CASE nt = 9 -> Plan9(b[1], b[2])
       [] nt = 6 -> Plan6
       [] nt = 3 -> Plan3
       [] nt = 2 -> IF room = 2 THEN Plan2 ELSE <<arg.start, Default>>
       [] nt = 1 -> IF room >= 1 THEN <<Default>> ELSE <<arg.start>>

Choice(r) ==
  LET p == Plan(r)
      nt == Len(p)
      t == seen[r]
  IN CASE nt = 9 -> p[6 + Fastest(SubSeq(t, 7, 9), 1, 3)]
       [] nt \in {6, 3} -> p[Fastest(t, 1, nt)]
       [] nt = 2 -> IF p = Plan2 THEN p[Fastest(t, 1, 2)] ELSE p[2]
       [] nt = 1 -> p[1]

(* a reading is taken by every rank; the first rank's is what counts *)
Reading(r, k, m) ==
  IF ~Share THEN [v |-> m, ok |-> TRUE]
  ELSE IF r = Root THEN [v |-> m, ok |-> TRUE]
  ELSE [v |-> IF k \in DOMAIN told THEN told[k] ELSE 0, ok |-> k \in DOMAIN told]

TimeFirst(r) ==
  /\ first[r] = -1
  /\ \E m \in Times :
       LET x == Reading(r, 0, m)
       IN /\ x.ok
          /\ first' = [first EXCEPT ![r] = x.v]
          /\ told' = IF r = Root THEN (0 :> m) @@ told ELSE told
  /\ UNCHANGED <<arg, seen, at, res>>

(* entering trial k: everyone has to *)
Enter(r) ==
  /\ first[r] >= 0 /\ res[r] = <<>>
  /\ at[r] = Len(seen[r])
  /\ at[r] < Len(Plan(r))
  /\ at' = [at EXCEPT ![r] = @ + 1]
  /\ UNCHANGED <<arg, seen, first, told, res>>

Joined(k) == \A q \in Ranks : at[q] >= k
(* the trial someone is in, by its settings *)
Setting(q, k) == Plan(q)[k]
Agree(k) == \A q, s \in Ranks : at[q] >= k /\ at[s] >= k => Setting(q, k) = Setting(s, k) /\ Decided(q)[2] = Decided(s)[2]

TimeTrial(r) ==
  /\ at[r] = Len(seen[r]) + 1
  /\ Joined(at[r]) /\ Agree(at[r])
  /\ \E m \in Times :
       LET x == Reading(r, at[r], m)
       IN /\ x.ok
          /\ seen' = [seen EXCEPT ![r] = Append(@, x.v)]
          /\ told' = IF r = Root THEN (at[r] :> m) @@ told ELSE told
  /\ UNCHANGED <<arg, first, at, res>>

(* the plan for good is made together as well *)
Finish(r) ==
  /\ first[r] >= 0 /\ res[r] = <<>> /\ Len(seen[r]) = Len(Plan(r))
  /\ res' = [res EXCEPT ![r] = Choice(r)]
  /\ UNCHANGED <<arg, seen, first, told, at>>

Next == \E r \in Ranks : TimeFirst(r) \/ Enter(r) \/ TimeTrial(r) \/ Finish(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
AllDone == \A r \in Ranks : res[r] # <<>>
NoDeadlock == AllDone \/ ENABLED Next
Agreement == /\ \A r, q \in Ranks : res[r] # <<>> /\ res[q] # <<>> => res[r] = res[q]
             /\ AllDone => \A r, q \in Ranks : Plan(r) = Plan(q) /\ Decided(r) = Decided(q)

(* what a finished rank reports is what TuneRules accepts of a recorded run *)
Report(r) == LET p == Plan(r)
             IN [nt |-> Len(p), np |-> Decided(r)[2], cf |-> [i \in 1..Len(p) |-> p[i][1]], ef |-> [i \in 1..Len(p) |-> p[i][2]],
                 pf |-> [i \in 1..Len(p) |-> p[i][3]], tf |-> seen[r], best |-> res[r]]
Explained == \A r \in Ranks : res[r] # <<>> => Explains(Report(r), arg.start)

(* Each transform costing what the first one did, and the parts of one     *)
(* together twice as much again, the limit is kept when it leaves room for *)
(* the first transform.                                                    *)
Parts(r) == arg.tflag = 1 /\ arg.tmax \div (30 * first[r]) >= 1
Spent(r) == LET d == Decided(r)
                more == IF Plan(r)[1] = arg.start /\ d[1] < 3 /\ Plan(r) # Plan2 THEN d[1] - 1 ELSE d[1]
            IN first[r] * (1 + more * d[2] * (IF Parts(r) THEN 3 ELSE 1))
Within == \A r \in Ranks : first[r] > 0 /\ arg.tmax >= first[r] => Spent(r) <= arg.tmax
MoreTrials == \A r \in Ranks : first[r] >= 0 => Decided(r)[2] >= 1 /\ Decided(r)[2] <= arg.niter
Unlimited == \A r \in Ranks : first[r] >= 0 /\ arg.tmax = 0 => Decided(r) = <<9, arg.niter>>
=============================================================================
