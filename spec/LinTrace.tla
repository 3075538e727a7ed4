------------------------------ MODULE LinTrace ------------------------------
(***************************************************************************)
(* Linearizability: a recorded history of overlapping calls is accepted    *)
(* iff there is an order of the calls that is consistent with real time    *)
(* and in which every call returns what was observed.  The search for the  *)
(* order is TLC's exploration of the points at which calls take effect;    *)
(* <<"DONE", session>> is printed for every history that has one.          *)
(***************************************************************************)
EXTENDS Registry, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, pos, fm, pend
vars == <<h, pos, fm, pend>>

Ev == Hist[h].ev
None == [st |-> "none"]

Init == /\ h \in 1..Len(Hist)
        /\ pos = 1
        /\ fm = ("ipv4" :> <<"std", "ipv4">>)
        /\ pend = [g \in 1..Hist[h].n |-> None]

Invoke ==
    /\ pos <= Len(Ev) /\ Ev[pos].e = "inv"
    /\ pend' = [pend EXCEPT ![Ev[pos].g] = [st |-> "open", c |-> Ev[pos].c]]
    /\ pos' = pos + 1 /\ UNCHANGED <<h, fm>>

TakeEffect(g) ==
    /\ pend[g].st = "open"
    /\ LET e == Exec(pend[g].c, fm)
       IN  fm' = e.fm /\ pend' = [pend EXCEPT ![g] = [st |-> "done", r |-> e.r]]
    /\ UNCHANGED <<h, pos>>

Return ==
    /\ pos <= Len(Ev) /\ Ev[pos].e = "ret"
    /\ LET p == pend[Ev[pos].g] IN p.st = "done" /\ p.r = Ev[pos].r
    /\ pend' = [pend EXCEPT ![Ev[pos].g] = None]
    /\ pos' = pos + 1 /\ UNCHANGED <<h, fm>>

Next == Invoke \/ Return \/ \E g \in DOMAIN pend : TakeEffect(g)
Spec == Init /\ [][Next]_vars

Report == pos = Len(Ev) + 1 => PrintT(<<"DONE", Hist[h].id>>)
=============================================================================
