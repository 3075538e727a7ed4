------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: every session recorded from the implementation must   *)
(* be a behaviour of the specification.  A session is a sequence of calls  *)
(* with their observed outcomes; the state of the specification is that of *)
(* its loaders, compiled schemas and the format registry.  A step whose    *)
(* observation the specification does not allow is printed as              *)
(*     <<"MISMATCH", session, step, what>>                                 *)
(* and the rest of the session is still checked where that is meaningful.  *)
(***************************************************************************)
EXTENDS Loader, Messages, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
MetaFile == JsonDeserialize(IOEnv.META)
MetaDocs == (4 :> MetaFile.d4) @@ (6 :> MetaFile.d6) @@ (7 :> MetaFile.d7)

VARIABLES sid, pc, lds, sch, fm
vars == <<sid, pc, lds, sch, fm>>

S == Sessions[sid]
Op == S.ops[pc]
Asp(a) == \E i \in 1..Len(S.asp) : S.asp[i] = a

Init ==
    /\ sid \in 1..Len(Sessions)
    /\ pc = 1
    /\ lds = <<>>
    /\ sch = <<>>
    /\ fm = StdFormats

Complain(what) == PrintT(<<"MISMATCH", S.id, pc, what>>)
\* record a disagreement unless b holds (always TRUE)
Expect(b, what) == IF b THEN TRUE ELSE Complain(what)
Goto(next) == pc' = next /\ UNCHANGED sid
Step == Goto(pc + 1)
Stop == Goto(Len(S.ops) + 1)

NewLoaderStep ==
    /\ Op.op = "new"
    /\ lds' = Append(lds, [NewLoader EXCEPT !.auto = Op.auto, !.vali = Op.vali, !.dr = Op.dr])
    /\ Step /\ UNCHANGED <<sch, fm>>

OptionsStep ==
    /\ Op.op = "opts"
    /\ lds' = [lds EXCEPT ![Op.l].auto = Op.auto, ![Op.l].vali = Op.vali, ![Op.l].dr = Op.dr]
    /\ Step /\ UNCHANGED <<sch, fm>>

AddStep ==
    /\ Op.op = "add"
    /\ LET r == IF "bad" \in DOMAIN Op THEN [ok |-> FALSE, ld |-> lds[Op.l], got |-> {}]
                ELSE AddSchema(lds[Op.l], S.uri[Op.u], Op.v, S.world, S, fm)
       IN  /\ lds' = [lds EXCEPT ![Op.l] = r.ld]
           /\ Expect(r.ok = Op.ok, "add")
           /\ IF r.ok = Op.ok THEN Step ELSE Stop
    /\ UNCHANGED <<sch, fm>>

AddsStep ==
    /\ Op.op = "adds"
    /\ LET r == AddSchemas(lds[Op.l], Op.vs, 1, {}, S.world, S, fm)
       IN  /\ lds' = [lds EXCEPT ![Op.l] = r.ld]
           /\ Expect(r.ok = Op.ok, "adds")
           /\ IF r.ok = Op.ok THEN Step ELSE Stop
    /\ UNCHANGED <<sch, fm>>

Got == [i \in 1..Len(Op.got) |-> Op.got[i]]
GotSet == {Got[i] : i \in 1..Len(Got)}
FetchOk(r) ==
    /\ Distinct(Got)                                          \* nothing is fetched twice
    /\ Op.ok => GotSet = r.got
    \* what is known is not fetched
    /\ \A b \in GotSet : Key(b, "") \notin DOMAIN lds[Op.l].pool

World == IF "w" \in DOMAIN Op THEN S.world2 ELSE S.world

\* When a compilation fails, it depends on the order of the fetches what has been fetched before.
RECURSIVE AfterFailure(_, _)
AfterFailure(ld, bs) ==
    IF bs = {} THEN ld
    ELSE LET b == CHOOSE b \in bs : TRUE
         IN  AfterFailure(IF InWorld(b, World) /\ Fetched(b, World).k = "doc" /\ Key(b, "") \notin DOMAIN ld.pool
                             /\ DocOk(ld, Fetched(b, World).v, Ctx(ld, S, StdFormats))
                          THEN Register(ld, Fetched(b, World).v, b, TRUE, Ctx(ld, S, StdFormats)) ELSE ld,
                          bs \ {b})
Start == IF "v" \in DOMAIN Op THEN AddUnder(lds[Op.l], EmptyBase, Op.v, S, TRUE).ld ELSE lds[Op.l]

CompileStep ==
    /\ Op.op = "compile"
    /\ LET r == IF "bad" \in DOMAIN Op THEN [ok |-> FALSE, ld |-> lds[Op.l], got |-> {}]
                ELSE IF "u" \in DOMAIN Op THEN CompileRef(lds[Op.l], S.uri[Op.u], World, S, fm)
                ELSE CompileDoc(lds[Op.l], Op.v, World, S, fm)
       IN  /\ lds' = [lds EXCEPT ![Op.l] = IF r.ok \/ ~Asp("fetch") \/ "bad" \in DOMAIN Op THEN r.ld ELSE AfterFailure(Start, GotSet)]
           /\ sch' = Append(sch, IF r.ok THEN r.s ELSE [v |-> 0])
           /\ Expect(r.ok = Op.ok, "compile")
           /\ Asp("fetch") /\ r.ok = Op.ok => Expect(FetchOk(r), "fetch")
           /\ Asp("leak") => Expect(Op.leak = 0, "leak")
           /\ IF r.ok = Op.ok THEN Step ELSE Stop
    /\ UNCHANGED fm

\* what the checker of the format at the root of schema s is given
GoTypeOf(v) == CASE IsNull(v) -> "<nil>" [] IsBool(v) -> "bool" [] IsNum(v) -> "json.Number" [] IsStr(v) -> "string"
                 [] IsArr(v) -> "[]interface {}" [] IsObj(v) -> "map[string]interface {}"
SeenOk(s) ==
    LET f == Str(Members(s.v)["format"])
    IN  {Op.seen[i] : i \in 1..Len(Op.seen)} =
            IF f \in DOMAIN fm /\ fm[f][1] # "std" THEN {<<GoTypeOf(Op.v), Op.canon>>} ELSE {}

ValidateStep ==
    /\ Op.op = "validate"
    /\ LET s == sch[Op.s]
       IN  IF "bad" \in DOMAIN Op THEN Expect(~Op.ok, "not JSON")
           ELSE /\ Expect(Op.ok, "validate")
                /\ Asp("verdict") /\ Op.ok => Expect(Accepts(s, Op.v, S, fm) = Op.valid, "verdict")
                /\ Asp("errs") /\ Op.ok =>
                     LET es == Reports(s, Op.v, S, fm)
                     IN  /\ Expect(SameBag(es, Op.errs), "errs")
                         /\ Expect(Op.valid = (Op.n = 0), "valid")
                         \* the two semantics of the specification agree
                         /\ Expect((es = <<>>) = Accepts(s, Op.v, S, fm), "SPEC")
                \* a failed choice is summed up before its closest alternative
                /\ Asp("lead") /\ Op.ok /\ ~Op.valid =>
                     LET ks == DOMAIN Members(s.v) \cap KeywordOf(s.dr)
                         lead == CASE ks = {"anyOf"} -> {"number_any_of"}
                                   [] ks = {"oneOf"} -> {"number_one_of"}
                                   [] ks = {"contains"} -> {"contains"}
                                   [] OTHER -> {}
                     IN  Expect(lead = {} \/ Op.errs[1].t \in lead, "order")
                /\ Asp("pure") => Expect(~Op.mut, "document changed")
                /\ Asp("seen") => Expect(SeenOk(s), "seen")
                /\ Asp("msg") /\ Op.ok =>
                     Expect(\A i \in 1..Len(Op.msgs) : MessageOk(Op.msgs[i], S.tpl[Op.tp]), "message")
                /\ Asp("fetch") => Expect(Op.got = <<>>, "fetch")
                /\ Asp("leak") => Expect(Op.leak = 0, "leak")
    /\ Step /\ UNCHANGED <<lds, sch, fm>>

RereadStep ==
    /\ Op.op = "reread"
    /\ Expect(Op.same, "earlier result changed")
    /\ Step /\ UNCHANGED <<lds, sch, fm>>

AddErrorStep ==
    /\ Op.op = "adderror"
    /\ Expect(Op.ok /\ Op.same /\ ~Op.valid, "adderror")
    /\ Expect(Op.m.t = Op.t /\ Op.m.p = Op.p /\ Op.m.v = Op.v /\ Op.m.det = Op.own, "added error changed")
    /\ Expect(IF "nowhere" \in DOMAIN Op THEN Op.m.desc = Fill(Op.tpl, Op.given) ELSE AddedOk(Op.m, Op.tpl, Op.given, S.tpl[Op.tp]), "added message")
    /\ Step /\ UNCHANGED <<lds, sch, fm>>

SkipStep ==
    /\ Op.op = "skip"
    /\ Step /\ UNCHANGED <<lds, sch, fm>>

\* a call of which only matters that it returned
CallStep ==
    /\ Op.op = "call"
    /\ Expect(Op.ret \in {"result", "error"}, "no return")
    /\ Step /\ UNCHANGED <<lds, sch, fm>>

FormatStep ==
    /\ Op.op \in {"fadd", "fdel", "fhas", "fis", "flang"}
    /\ CASE Op.op = "fadd" -> fm' = [n \in DOMAIN fm \union {Op.name} |-> IF n = Op.name THEN Op.ck ELSE fm[n]]
         [] Op.op = "fdel" -> fm' = [n \in DOMAIN fm \ {Op.name} |-> fm[n]]
         [] Op.op = "fis" -> fm' = fm /\ Expect(FormatOk(Op.name, Op.v, Ctx(NewLoader, S, fm)) = Op.r, "isformat")
         [] Op.op = "flang" ->          \* many strings at once; the registry is in its initial state
              /\ fm' = fm
              /\ Expect(\A i \in 1..Len(Op.strs) :
                           LET want == Lang(Op.name, S.str[Op.strs[i]], ReOf(Op.strs[i], S))
                           IN  IF Op.r[i] = want \/ (want = "u" /\ Op.r[i] # "d") THEN TRUE
                               ELSE PrintT(<<"DISAGREE", Op.name, Op.strs[i], want, Op.r[i]>>) /\ FALSE, "language of " \o Op.name)
         [] Op.op = "fhas" -> fm' = fm /\ Expect((Op.name \in DOMAIN fm) = Op.r, "has")
    /\ Step /\ UNCHANGED <<lds, sch>>

Next ==
    /\ pc <= Len(S.ops)
    /\ \/ NewLoaderStep \/ OptionsStep \/ AddStep \/ AddsStep \/ CompileStep
       \/ ValidateStep \/ FormatStep \/ RereadStep \/ AddErrorStep \/ SkipStep \/ CallStep

\* sessions are deterministic: the position identifies the state
View == <<sid, pc>>

Spec == Init /\ [][Next]_vars
=============================================================================
