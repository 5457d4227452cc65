------------------------------ MODULE CommProg ------------------------------
(***************************************************************************)
(* The communication of one recorded run of the library, under every       *)
(* timing.  A program is what the ranks asked of MPI, in order: sends,     *)
(* receives and collectives that are started, and waits for all, for any   *)
(* or for some of them.  The recording fixes what each rank asks for; here *)
(* the ranks proceed at any relative speed, a wait for any request returns *)
(* any request that is complete, and a standard send may complete at once  *)
(* (the message was buffered) or only with its receive (it was not): MPI   *)
(* promises no more.                                                       *)
(*                                                                         *)
(* A program is a sequence of blocks per rank: the requests started, then  *)
(* one wait.  Starting a request never blocks and only helps others, so a  *)
(* rank starts everything up to its next wait in one step.                 *)
(*                                                                         *)
(*   NoDeadlock  in every reachable state some rank can go on without any  *)
(*               help from buffering, unless all are done                  *)
(*   Matched     every send has its receive and the reverse, within the    *)
(*               same call of the library, with room for the message       *)
(*   Ends        no collective waits for ever: every member starts it      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Progs == JsonDeserialize(IOEnv.FFT_PROGS)

VARIABLES sid, pc, got
vars == <<sid, pc, got>>

(* request: [k |-> "S"|"R"|"C", id, c (communicator), me, peer, tag, mode, len, call, blk, n, seq] *)
Reqs(p, r) == Progs[p].req[r]
Blocks(p, r) == Progs[p].wait[r]
Ranks(p) == 1..Progs[p].P

(* which rank is member m of communicator c in program p *)
Holder == [p \in 1..Len(Progs) |->
            [x \in {<<q.c, q.me>> : q \in UNION {{Reqs(p, r)[i] : i \in 1..Len(Reqs(p, r))} : r \in Ranks(p)}} |->
               CHOOSE r \in Ranks(p) : \E i \in 1..Len(Reqs(p, r)) : Reqs(p, r)[i].c = x[1] /\ Reqs(p, r)[i].me = x[2]]]

(* the position among the requests of a rank with the same kind, communicator, peer and tag *)
Ord == [p \in 1..Len(Progs) |-> [r \in Ranks(p) |-> [i \in 1..Len(Reqs(p, r)) |->
         LET q == Reqs(p, r)[i]
         IN Cardinality({j \in 1..i : LET u == Reqs(p, r)[j] IN u.k = q.k /\ u.c = q.c /\ u.peer = q.peer /\ u.tag = q.tag /\ u.seq = q.seq})]]]

None == <<0, 0>>

(* messages between two ranks on one communicator with one tag are received in the order in which they are sent *)
Partner == [p \in 1..Len(Progs) |-> [r \in Ranks(p) |-> [i \in 1..Len(Reqs(p, r)) |->
             LET q == Reqs(p, r)[i]
                 h == IF <<q.c, q.peer>> \in DOMAIN Holder[p] THEN Holder[p][<<q.c, q.peer>>] ELSE 0
                 c == IF h = 0 \/ q.k = "C" THEN {}
                      ELSE {j \in 1..Len(Reqs(p, h)) : LET u == Reqs(p, h)[j]
                                                       IN u.k # q.k /\ u.k # "C" /\ u.c = q.c /\ u.peer = q.me /\ u.me = q.peer /\ u.tag = q.tag
                                                          /\ Ord[p][h][j] = Ord[p][r][i]}
             IN IF c = {} THEN None ELSE <<h, CHOOSE j \in c : TRUE>>]]]

(* the other members' entries into the same collective *)
Fellows == [p \in 1..Len(Progs) |-> [r \in Ranks(p) |-> [i \in 1..Len(Reqs(p, r)) |->
             LET q == Reqs(p, r)[i]
             IN IF q.k # "C" THEN {}
                ELSE {<<h, j>> \in UNION {{<<x, y>> : y \in 1..Len(Reqs(p, x))} : x \in Ranks(p)} :
                        LET u == Reqs(p, h)[j] IN u.k = "C" /\ u.c = q.c /\ u.seq = q.seq}]]]

Posted(x) == Reqs(sid, x[1])[x[2]].blk <= pc[x[1]]

Complete(r, i, help) ==
  LET q == Reqs(sid, r)[i]
      m == Partner[sid][r][i]
      f == Fellows[sid][r][i]
  IN CASE q.k = "S" -> q.mode = 2 \/ (help /\ q.mode = 0) \/ (m # None /\ Posted(m))
       [] q.k = "R" -> m # None /\ Posted(m)
       [] q.k = "C" -> Cardinality(f) = q.n /\ \A x \in f : Posted(x)

Over(r) == pc[r] > Len(Blocks(sid, r))
Wait(r) == Blocks(sid, r)[pc[r]]
Open(r) == {i \in {Wait(r).ids[k] : k \in 1..Len(Wait(r).ids)} : i \notin got[r]}

(* the results a wait can have *)
Results(r, help) ==
  LET w == Wait(r)
      d == {i \in Open(r) : Complete(r, i, help)}
  IN CASE w.mode = "all" -> IF d = Open(r) THEN {d} ELSE {}
       [] w.mode = "any" -> {{i} : i \in d}
       [] w.mode = "some" -> SUBSET d \ {{}}

Go(r) ==
  /\ ~Over(r)
  /\ \E d \in Results(r, TRUE) :
       got' = [got EXCEPT ![r] = IF Wait(r).last = 1 THEN {} ELSE @ \cup d]
  /\ pc' = [pc EXCEPT ![r] = @ + 1]
  /\ UNCHANGED sid

Init == /\ sid \in 1..Len(Progs)
        /\ pc = [r \in Ranks(sid) |-> 1]
        /\ got = [r \in Ranks(sid) |-> {}]
Next == \E r \in Ranks(sid) : Go(r)
Spec == Init /\ [][Next]_vars

NoDeadlock == (\A r \in Ranks(sid) : Over(r)) \/ (\E r \in Ranks(sid) : ~Over(r) /\ Results(r, FALSE) # {})

Matched == \A r \in Ranks(sid) : \A i \in 1..Len(Reqs(sid, r)) :
             LET q == Reqs(sid, r)[i]
                 m == Partner[sid][r][i]
             IN q.k \in {"S", "R"} =>
                  /\ m # None
                  /\ Reqs(sid, m[1])[m[2]].call = q.call
                  /\ IF q.k = "S" THEN q.len <= Reqs(sid, m[1])[m[2]].len ELSE TRUE
Ends == \A r \in Ranks(sid) : \A i \in 1..Len(Reqs(sid, r)) : Reqs(sid, r)[i].k = "C" => Cardinality(Fellows[sid][r][i]) = Reqs(sid, r)[i].n

(* pairings do not depend on the state: looked at once per program *)
Static == pc = [r \in Ranks(sid) |-> 1] => Matched /\ Ends
=============================================================================
