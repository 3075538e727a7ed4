-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* Goroutines that use the registry at the same time.  A call takes effect *)
(* at one point; a caller whose checker is parked holds nothing that other *)
(* callers need, so that every other call goes on.  Every complete         *)
(* behaviour is printed and replayed in the implementation.                *)
(***************************************************************************)
EXTENDS Registry, Json, IOUtils

\* << [progs |-> << << call, ... >>, ... >>] , ... >>
Programs == JsonDeserialize(IOEnv.PROGS)

VARIABLES k, pc, fm, st, sched
vars == <<k, pc, fm, st, sched>>

P == Programs[k].progs
G == 1..Len(P)
Idle == [st |-> "idle"]

Init == /\ k \in 1..Len(Programs)
        /\ pc = [g \in G |-> 1]
        /\ fm = ("ipv4" :> <<"std", "ipv4">>)
        /\ st = [g \in G |-> Idle]
        /\ sched = <<>>

Start(g) ==
    /\ st[g].st = "idle" /\ pc[g] <= Len(P[g])
    /\ LET e == Exec(P[g][pc[g]], fm)
       IN  /\ fm' = e.fm
           /\ st' = [st EXCEPT ![g] = IF e.st = "done" THEN Idle ELSE [st |-> "parked", r |-> e.r, n |-> e.n]]
           /\ sched' = Append(sched, <<"s", g, e.st, e.r, e.n>>)
    /\ pc' = [pc EXCEPT ![g] = @ + 1]
    /\ UNCHANGED k

Release(g) ==
    /\ st[g].st = "parked"
    /\ st' = [st EXCEPT ![g] = Idle]
    /\ sched' = Append(sched, <<"r", g, "done", st[g].r, st[g].n>>)
    /\ UNCHANGED <<k, pc, fm>>

Next == \E g \in G : Start(g) \/ Release(g)
Spec == Init /\ [][Next]_vars

Complete == \A g \in G : st[g].st = "idle" /\ pc[g] > Len(P[g])

\* no caller ever waits for another one
NeverBlocked == \A g \in G : ENABLED Start(g) \/ ENABLED Release(g) \/ (st[g].st = "idle" /\ pc[g] > Len(P[g]))
\* what a parked caller will return is settled
Settled == [][\A g \in G : st[g].st = "parked" /\ st'[g].st = "parked" => st'[g] = st[g]]_vars
Report == Complete => PrintT(<<"B", k, ToJson(sched)>>)
=============================================================================
