------------------------------ MODULE MCLoader ------------------------------
(***************************************************************************)
(* All histories, up to a given length, of the calls of a small vocabulary *)
(* on one loader and the format registry.  What must hold of histories is  *)
(* checked on every step; every complete history is printed for the replay *)
(* in the implementation.                                                  *)
(***************************************************************************)
EXTENDS Loader, Json, IOUtils

\* sequence of [calls, depth, insts, auto, vali, dr, str, re, uri, world]
Groups == JsonDeserialize(IOEnv.VOCAB)
MetaFile == JsonDeserialize(IOEnv.META)
MetaDocs == (4 :> MetaFile.d4) @@ (6 :> MetaFile.d6) @@ (7 :> MetaFile.d7)

VARIABLES g,        \* vocabulary
          hist,     \* calls so far
          ld,       \* the loader
          sch,      \* schemas compiled so far
          got,      \* documents fetched so far
          last,     \* [ok, got] of the last call
          fm        \* the format registry
vars == <<g, hist, ld, sch, got, last, fm>>

G == Groups[g]

Init ==
    /\ g \in 1..Len(Groups)
    /\ hist = <<>>
    /\ ld = [NewLoader EXCEPT !.auto = Groups[g].auto, !.vali = Groups[g].vali, !.dr = Groups[g].dr]
    /\ sch = <<>>
    /\ got = {}
    /\ last = [ok |-> TRUE, got |-> {}]
    /\ fm = StdFormats

Call(c) ==
    LET keep == [ok |-> TRUE, ld |-> ld, got |-> {}, fm |-> fm]
        With(r) == [fm |-> fm] @@ r
    IN  CASE c.op = "add" -> With(AddSchema(ld, G.uri[c.u], c.v, G.world, G, fm))
          [] c.op = "adds" -> With(AddSchemas(ld, c.vs, 1, {}, G.world, G, fm))
          [] c.op = "compile" -> With(IF "u" \in DOMAIN c THEN CompileRef(ld, G.uri[c.u], G.world, G, fm) ELSE CompileDoc(ld, c.v, G.world, G, fm))
          [] c.op = "opts" -> [keep EXCEPT !.ld = [ld EXCEPT !.auto = c.auto, !.vali = c.vali, !.dr = c.dr]]
          [] c.op = "fadd" -> [keep EXCEPT !.fm = [n \in DOMAIN fm \union {c.name} |-> IF n = c.name THEN c.ck ELSE fm[n]]]
          [] c.op = "fdel" -> [keep EXCEPT !.fm = [n \in DOMAIN fm \ {c.name} |-> fm[n]]]

Next ==
    /\ Len(hist) < G.depth
    /\ \E i \in 1..Len(G.calls) :
         LET c == G.calls[i]
             r == Call(c)
         IN  /\ hist' = Append(hist, i)
             /\ ld' = r.ld
             /\ got' = got \union r.got
             /\ last' = [ok |-> r.ok, got |-> r.got]
             /\ fm' = r.fm
             /\ sch' = IF c.op = "compile" THEN Append(sch, IF r.ok THEN r.s ELSE [v |-> 0]) ELSE sch
    /\ UNCHANGED g
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What a call may do                                                      *)
(***************************************************************************)
Now == G.calls[hist'[Len(hist')]]

\* what an identifier designates never changes
Bound == \A k \in DOMAIN ld.pool : k \in DOMAIN ld'.pool /\ ld'.pool[k] = ld.pool[k]
\* a registered URL is not registered again
NoRebind == Now.op = "add" /\ Key(ResolveBase(EmptyBase, G.uri[Now.u]), "") \in DOMAIN ld.pool => ~last'.ok
\* a compiled schema does not change its meaning, and the meaning does not depend on what is known besides
Stable ==
    \A n \in 1..Len(sch) : "dr" \in DOMAIN sch[n] =>
        \A i \in 1..Len(G.insts) :
            LET x == G.insts[i]
            IN  Accepts(sch[n], x, G, fm') = Accepts([sch[n] EXCEPT !.ld = [ld' EXCEPT !.dr = sch[n].ld.dr]], x, G, fm')
\* what is known is not fetched, and nothing is fetched by a registration without validation
Once == /\ \A b \in last'.got : Key(b, "") \notin DOMAIN ld.pool
        /\ Now.op \in {"add", "adds"} /\ ~ld.vali => last'.got = {}
\* compiling what has just been compiled changes nothing
Repeatable ==
    Now.op = "compile" /\ "u" \in DOMAIN Now /\ last'.ok =>
        LET r == CompileRef(ld', G.uri[Now.u], <<>>, G, fm')
        IN  r.ok /\ r.ld = ld' /\ r.got = {} /\ r.s = sch'[Len(sch')]
\* formats: the last registration counts, for schemas compiled before, too
Formats_ == Now.op = "fadd" => fm'[Now.name] = Now.ck
Others == Now.op \in {"fadd", "fdel"} => /\ ld' = ld
                                         /\ \A n \in (DOMAIN fm \union DOMAIN fm') \ {Now.name} : n \in DOMAIN fm /\ n \in DOMAIN fm' /\ fm[n] = fm'[n]

Steps == [][Bound /\ NoRebind /\ Stable /\ Once /\ Repeatable /\ Formats_ /\ Others]_vars

Report_ == Len(hist) = G.depth => PrintT(<<"H", g, hist>>)
=============================================================================
