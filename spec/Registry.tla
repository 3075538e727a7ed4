------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The format registry as seen by one caller at a time: what a call does   *)
(* to the registry and what it returns.                                    *)
(*                                                                         *)
(* A call is [op |-> "add", name, ck], [op |-> "del" or "has", name] or    *)
(* [op |-> "is" or "val", name, v]: a query of the registry, or the        *)
(* validation of v with a schema whose only assertion is the format.       *)
(* Besides those of module Formats there are two kinds of checkers:        *)
(*   <<"park", b>>      waits until it is released, then answers b         *)
(*   <<"do", call, b>>  makes a call of its own, then answers b            *)
(* Values are sequences of code points.                                    *)
(***************************************************************************)
EXTENDS Formats

Bind(fm, name, ck) == [n \in DOMAIN fm \union {name} |-> IF n = name THEN ck ELSE fm[n]]
Unbind(fm, name)   == [n \in DOMAIN fm \ {name} |-> fm[n]]

\* fm: the registry afterwards; st: "done", or "parked" inside a checker; r: the result when it returns;
\* n: the results of the calls that checkers made
RECURSIVE Exec(_, _)
Exec(c, fm) ==
    LET Done(f, r) == [fm |-> f, st |-> "done", r |-> r, n |-> <<>>]
    IN  CASE c.op = "add" -> Done(Bind(fm, c.name, c.ck), TRUE)
          [] c.op = "del" -> Done(Unbind(fm, c.name), TRUE)
          [] c.op = "has" -> Done(fm, c.name \in DOMAIN fm)
          [] c.op \in {"is", "val"} ->
               IF c.name \notin DOMAIN fm THEN Done(fm, TRUE)
               ELSE LET ck == fm[c.name]
                    IN  CASE ck[1] = "const" -> Done(fm, ck[2])
                          [] ck[1] = "std"   -> Done(fm, Lang(ck[2], c.v, <<"unknown">>) = "y")
                          [] ck[1] = "park"  -> [Done(fm, ck[2]) EXCEPT !.st = "parked"]
                          [] ck[1] = "do"    -> LET e == Exec(ck[2], fm)
                                                IN  [e EXCEPT !.r = ck[3], !.n = <<e.r>> \o e.n]
=============================================================================
