---------------------------- MODULE RegistryLock ----------------------------
(***************************************************************************)
(* The design of the registry: a map under a readers-writer lock with      *)
(* waiting writers blocking new readers (sync.RWMutex), and checkers that  *)
(* are called after the lock has been released.  It is checked that        *)
(*   - the lock excludes writers from everyone else,                       *)
(*   - every call returns what the atomic registry (variable abs, changed  *)
(*     in the step marked as the linearization point) returns,             *)
(*   - checkers may use the registry themselves: nobody is ever stuck.     *)
(* With Hold = TRUE the checker is called under the read lock instead; TLC *)
(* then finds the deadlock that the design avoids.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Procs, Names, Cks, Hold, MaxCalls

\* a checker is a boolean, or "has": it queries the registry before it answers TRUE
VARIABLES map, abs, readers, writer, waiting, pc, call, val, res, calls
vars == <<map, abs, readers, writer, waiting, pc, call, val, res, calls>>

Calls == [op : {"add"}, name : Names, ck : Cks] \union [op : {"del", "has", "is"}, name : Names]
None == "none"

Init == /\ map = [n \in Names |-> None] /\ abs = map
        /\ readers = {} /\ writer = {} /\ waiting = {}
        /\ pc = [p \in Procs |-> "idle"]
        /\ call = [p \in Procs |-> [op |-> "has", name |-> CHOOSE n \in Names : TRUE]]
        /\ val = [p \in Procs |-> None]
        /\ res = [p \in Procs |-> None]
        /\ calls = [p \in Procs |-> 0]

Go(p, l) == pc' = [pc EXCEPT ![p] = l]

Invoke(p) ==
    /\ pc[p] = "idle" /\ calls[p] < MaxCalls
    /\ \E c \in Calls :
         /\ call' = [call EXCEPT ![p] = c]
         /\ Go(p, IF c.op \in {"add", "del"} THEN "lock" ELSE "rlock")
         /\ waiting' = IF c.op \in {"add", "del"} THEN waiting \union {p} ELSE waiting
    /\ calls' = [calls EXCEPT ![p] = @ + 1]
    /\ UNCHANGED <<map, abs, readers, writer, val, res>>

Lock(p) ==
    /\ pc[p] = "lock" /\ readers = {} /\ writer = {}
    /\ writer' = {p} /\ waiting' = waiting \ {p} /\ Go(p, "write")
    /\ UNCHANGED <<map, abs, readers, call, val, res, calls>>

\* linearization point of Add and Remove
Write(p) ==
    /\ pc[p] = "write"
    /\ map' = [map EXCEPT ![call[p].name] = IF call[p].op = "add" THEN call[p].ck ELSE None]
    /\ abs' = [abs EXCEPT ![call[p].name] = IF call[p].op = "add" THEN call[p].ck ELSE None]
    /\ Go(p, "unlock")
    /\ UNCHANGED <<readers, writer, waiting, call, val, res, calls>>

Unlock(p) ==
    /\ pc[p] = "unlock" /\ writer' = {} /\ Go(p, "idle")
    /\ UNCHANGED <<map, abs, readers, waiting, call, val, res, calls>>

RLock(p) ==
    /\ pc[p] = "rlock" /\ writer = {} /\ waiting = {}
    /\ readers' = readers \union {p} /\ Go(p, "read")
    /\ UNCHANGED <<map, abs, writer, waiting, call, val, res, calls>>

\* linearization point of Has and IsFormat
Read(p) ==
    /\ pc[p] = "read"
    /\ val' = [val EXCEPT ![p] = map[call[p].name]]
    /\ res' = [res EXCEPT ![p] = abs[call[p].name]]
    /\ Go(p, IF Hold /\ call[p].op = "is" THEN "check" ELSE "runlock")
    /\ UNCHANGED <<map, abs, readers, writer, waiting, call, calls>>

RUnlock(p) ==
    /\ pc[p] = "runlock" /\ readers' = readers \ {p}
    /\ Go(p, IF call[p].op = "is" /\ ~Hold THEN "check" ELSE "return")
    /\ UNCHANGED <<map, abs, writer, waiting, call, val, res, calls>>

\* the checker runs; "has" takes the read lock itself
Check(p) ==
    /\ pc[p] = "check"
    /\ Go(p, IF val[p] = "has" THEN "nested" ELSE IF Hold THEN "runlock" ELSE "return")
    /\ UNCHANGED <<map, abs, readers, writer, waiting, call, val, res, calls>>
Nested(p) ==
    /\ pc[p] = "nested" /\ writer = {} /\ waiting = {}
    /\ Go(p, IF Hold THEN "runlock" ELSE "return")
    /\ UNCHANGED <<map, abs, readers, writer, waiting, call, val, res, calls>>

Return(p) ==
    /\ pc[p] = "return" /\ Go(p, "idle")
    /\ UNCHANGED <<map, abs, readers, writer, waiting, call, val, res, calls>>

Next == \E p \in Procs : Invoke(p) \/ Lock(p) \/ Write(p) \/ Unlock(p) \/ RLock(p) \/ Read(p) \/ RUnlock(p)
                          \/ Check(p) \/ Nested(p) \/ Return(p)
Fair == \A p \in Procs : WF_vars(Lock(p) \/ Write(p) \/ Unlock(p) \/ RLock(p) \/ Read(p) \/ RUnlock(p) \/ Check(p) \/ Nested(p) \/ Return(p))
Spec == Init /\ [][Next]_vars /\ Fair

Exclusion == Cardinality(writer) <= 1 /\ (writer # {} => readers = {})
Linearizable == \A p \in Procs : pc[p] = "return" => val[p] = res[p]
Agree == map = abs
\* someone can always move unless all calls have returned
NotStuck == (\E p \in Procs : pc[p] # "idle") =>
              \E p \in Procs : ENABLED (Lock(p) \/ Write(p) \/ Unlock(p) \/ RLock(p) \/ Read(p) \/ RUnlock(p) \/ Check(p) \/ Nested(p) \/ Return(p))
Returns == \A p \in Procs : pc[p] # "idle" ~> pc[p] = "idle"
=============================================================================
