------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* The schema loader: a registry of identified schemas that grows by       *)
(* AddSchema, AddSchemas, Compile and the documents Compile fetches.       *)
(*                                                                         *)
(* The state of a loader is a record                                       *)
(*   pool   identified schemas (Key -> target)                             *)
(*   auto   AutoDetect      vali  Validate      dr  Draft                  *)
(* A context C of schema evaluation is built from a loader state, the      *)
(* tables of a session (str, re, uri) and the registered formats fm.       *)
(*                                                                         *)
(* The world a loader fetches documents from is W: a sequence of records   *)
(* [at, k, v]: base URI, kind ("doc" or "fault") and document.             *)
(***************************************************************************)
EXTENDS WellFormed

CONSTANT Meta       \* draft -> published meta-schema (a JSON value)

MetaDrafts == {4, 6, 7}
MetaBase(d) == [sch |-> "http", au |-> "json-schema.org", abs |-> TRUE,
                segs |-> <<IF d = 4 THEN "draft-04" ELSE IF d = 6 THEN "draft-06" ELSE "draft-07", "schema">>,
                q |-> ""]
MetaTarget(d) == [v |-> Meta[d], base |-> MetaBase(d), dr |-> d]
\* the built-in meta-schemas need not be fetched
MetaPool == [k \in {Key(MetaBase(d), "") : d \in MetaDrafts} |->
               MetaTarget(CHOOSE d \in MetaDrafts : k = Key(MetaBase(d), ""))]

NewLoader == [pool |-> [k \in {} |-> 0], auto |-> TRUE, vali |-> FALSE, dr |-> HYBRID]

Ctx(ld, T, fm) == [str |-> T.str, re |-> T.re, uri |-> T.uri, fm |-> fm,
                   pool |-> ld.pool @@ MetaPool, dr |-> ld.dr]

(***************************************************************************)
(* Drafts                                                                  *)
(***************************************************************************)
SchemaUri(v, C) == C.uri[Str(Members(v)["$schema"])]
HasSchemaKw(v) == IsObj(v) /\ "$schema" \in DOMAIN Members(v)
\* "$schema" must be a URI reference
SchemaKwOk(v, C) == HasSchemaKw(v) => GoodUri(Members(v)["$schema"], C)
NamedDraft(v, C) ==
    IF ~HasSchemaKw(v) THEN 0
    ELSE LET u == SchemaUri(v, C)
             b == ResolveBase(EmptyBase, u)
         IN  IF u.f = NoFrag /\ \E d \in MetaDrafts : b = MetaBase(d)
             THEN CHOOSE d \in MetaDrafts : b = MetaBase(d) ELSE 0
\* the draft a document declares, 0 if none (or not looked for)
Detected(v, auto, C) == IF auto THEN NamedDraft(v, C) ELSE 0

\* documents that can be schemas at all
DocOk(ld, v, C) == ld.auto => (IsObj(v) \/ IsBool(v)) /\ SchemaKwOk(v, C)

(***************************************************************************)
(* Registration                                                            *)
(***************************************************************************)
\* all identified parts of v: a set of [k, t]
RECURSIVE IdsIn(_, _, _, _, _)
IdsIn(v, base, scan, dr, C) ==
    CASE IsArr(v) -> UNION {IdsIn(Elems(v)[i], base, scan, dr, C) : i \in 1..Len(Elems(v))}
      [] IsObj(v) ->
           LET m == Members(v)
               b == InnerBase(m, base, scan, C)
               u == C.uri[Str(m[IdKey(scan, m)])]
               own == IF HasId(scan, m, C)
                      THEN {[k |-> Key(b, IF u.f[1] = "name" THEN u.f[2] ELSE ""),
                             t |-> [v |-> v, base |-> base, dr |-> dr]]}
                      ELSE {}
               Of(k) == IF k \in MapKeywords
                        THEN IF IsObj(m[k])
                             THEN UNION {IdsIn(Members(m[k])[n], b, scan, dr, C) : n \in DOMAIN Members(m[k])}
                             ELSE {}
                        ELSE IdsIn(m[k], b, scan, dr, C)
           IN  own \union UNION {Of(k) : k \in DOMAIN m \ LiteralKeywords}
      [] OTHER -> {}

PoolOf(S) == [k \in {e.k : e \in S} |-> (CHOOSE e \in S : e.k = k).t]

\* key of the identifier of the root of v, or the empty set
RootKeys(v, base, scan, C) ==
    IF IsObj(v) /\ HasId(scan, Members(v), C)
    THEN LET u == C.uri[Str(Members(v)[IdKey(scan, Members(v))])]
         IN  {Key(ResolveBase(base, u), IF u.f[1] = "name" THEN u.f[2] ELSE "")}
    ELSE {}

ScanDraft(d, ld) == IF d = 0 THEN ld.dr ELSE d

\* register document v under base (if pooled) and its identifiers; existing entries stay
Register(ld, v, base, pooled, C) ==
    LET d   == Detected(v, ld.auto, C)
        ids == PoolOf(IdsIn(v, base, ScanDraft(d, ld), d, C))
        own == [k \in {Key(base, "")} |-> [v |-> v, base |-> base, dr |-> d]]
    IN  [ld EXCEPT !.pool = IF pooled THEN ld.pool @@ (own @@ ids) ELSE ld.pool @@ ids]

(***************************************************************************)
(* Compilation: all schemas reachable from the root must be well-formed    *)
(* and all references must designate a schema, for which missing documents *)
(* are fetched.  Result: [ok, ld, got] with the loader state after it and  *)
(* the set of the fetched base URIs.                                       *)
(***************************************************************************)
Canonical(b) == IF b.sch = "file" THEN b.abs ELSE b.sch # "" /\ b.au # ""
InWorld(b, W) == \E i \in 1..Len(W) : W[i].at = b
Fetched(b, W) == W[CHOOSE i \in 1..Len(W) : W[i].at = b]

RECURSIVE Crawl(_, _, _, _, _, _)
\* todo: references still to be followed; seen: followed ones (resolved); got: fetched documents
Crawl(todo, seen, got, ld, W, T) ==
    IF todo = {} THEN [ok |-> TRUE, ld |-> ld, got |-> got]
    ELSE
    LET C == Ctx(ld, T, StdFormats)
        r == CHOOSE r \in todo : TRUE
        u == C.uri[r.u]
        d == Designates(u, r.base, r.dr, C)
        mark == <<d.at, u.f, r.dr>>
        Fail == [ok |-> FALSE, ld |-> ld, got |-> got]
    IN  IF mark \in seen THEN Crawl(todo \ {r}, seen, got, ld, W, T)
        ELSE IF d.st = "dangling" THEN Fail
        ELSE IF d.st = "nodoc"
        THEN IF ~Canonical(d.at) THEN Fail
             ELSE IF ~InWorld(d.at, W) \/ Fetched(d.at, W).k # "doc" \/ ~DocOk(ld, Fetched(d.at, W).v, C)
             THEN [Fail EXCEPT !.got = got \union {d.at}]
             ELSE Crawl(todo, seen, got \union {d.at}, Register(ld, Fetched(d.at, W).v, d.at, TRUE, C), W, T)
        ELSE IF ~Wf(d.v, d.dr, C) THEN Fail
        ELSE Crawl((todo \ {r}) \union Refs(d.v, d.base, d.dr, C), seen \union {mark}, got, ld, W, T)

CompileFrom(ld, v, base, dr, got, W, T) ==
    LET C == Ctx(ld, T, StdFormats)
    IN  IF ~Wf(v, dr, C) THEN [ok |-> FALSE, ld |-> ld, got |-> got]
        ELSE Crawl(Refs(v, base, dr, C), {}, got, ld, W, T)

(***************************************************************************)
(* Obtaining the document at a reference: [ok, t, ld, got]                 *)
(***************************************************************************)
Obtain(ld, u, W, T) ==
    LET C == Ctx(ld, T, StdFormats)
        d == Designates(u, EmptyBase, 0, C)
        Fail(g) == [ok |-> FALSE, ld |-> ld, got |-> g]
    IN  IF d.st = "ok" THEN [ok |-> TRUE, t |-> d, ld |-> ld, got |-> {}]
        ELSE IF d.st = "dangling" \/ ~Canonical(d.at) THEN Fail({})
        ELSE IF ~InWorld(d.at, W) \/ Fetched(d.at, W).k # "doc" \/ ~DocOk(ld, Fetched(d.at, W).v, C) THEN Fail({d.at})
        ELSE LET ld2 == Register(ld, Fetched(d.at, W).v, d.at, TRUE, C)
                 d2  == Designates(u, EmptyBase, 0, Ctx(ld2, T, StdFormats))
             IN  IF d2.st = "ok" THEN [ok |-> TRUE, t |-> d2, ld |-> ld2, got |-> {d.at}]
                 ELSE [ok |-> FALSE, ld |-> ld2, got |-> {d.at}]

(***************************************************************************)
(* Meta-schema validation of document v: [ok, ld, got].                    *)
(***************************************************************************)
MetaCheck(ld, v, W, T, fm) ==
    LET C == Ctx(ld, T, fm)
        named == ld.auto /\ HasSchemaKw(v)
    IN  IF ld.auto /\ (~(IsObj(v) \/ IsBool(v)) \/ ~SchemaKwOk(v, C)) THEN [ok |-> FALSE, ld |-> ld, got |-> {}]
        ELSE IF ~named /\ ld.dr = HYBRID THEN [ok |-> TRUE, ld |-> ld, got |-> {}]
        ELSE IF ~named \/ NamedDraft(v, C) # 0
        THEN LET d == IF named THEN NamedDraft(v, C) ELSE ld.dr
             IN  [ok |-> Ok(Meta[d], MetaBase(d), d, v, C), ld |-> ld, got |-> {}]
        ELSE \* a meta-schema of the user's
             LET o == Obtain(ld, SchemaUri(v, C), W, T)
             IN  IF ~o.ok THEN [ok |-> FALSE, ld |-> o.ld, got |-> o.got]
                 ELSE LET dr == IF o.t.dr = 0 THEN ld.dr ELSE o.t.dr
                          c == CompileFrom(o.ld, o.t.v, o.t.base, dr, o.got, W, T)
                      IN  IF ~c.ok THEN c
                          ELSE [c EXCEPT !.ok = Ok(o.t.v, o.t.base, dr, v, Ctx(c.ld, T, fm))]

(***************************************************************************)
(* The operations.  Each yields [ok, ld, got]; Compile also [s], the       *)
(* compiled schema: [v, base, dr, ld].                                     *)
(***************************************************************************)
AddUnder(ld, base, v, T, pooled) ==
    LET C  == Ctx(ld, T, StdFormats)
        d  == Detected(v, ld.auto, C)
        rk == RootKeys(v, base, ScanDraft(d, ld), C)
    IN  IF pooled /\ Key(base, "") \in DOMAIN ld.pool THEN [ok |-> FALSE, ld |-> ld]
        ELSE IF ~DocOk(ld, v, C) THEN [ok |-> FALSE, ld |-> ld]
        \* the identifier of the root is taken: the document is only known under its URL
        ELSE IF rk \cap DOMAIN ld.pool # {}
        THEN [ok |-> FALSE,
              ld |-> IF pooled THEN [ld EXCEPT !.pool = ld.pool @@ [k \in {Key(base, "")} |-> [v |-> v, base |-> base, dr |-> d]]] ELSE ld]
        ELSE [ok |-> TRUE, ld |-> Register(ld, v, base, pooled, C)]

AddSchema(ld, u, v, W, T, fm) ==
    LET mc == IF ld.vali THEN MetaCheck(ld, v, W, T, fm) ELSE [ok |-> TRUE, ld |-> ld, got |-> {}]
    IN  IF u.bad THEN [ok |-> FALSE, ld |-> ld, got |-> {}]
        ELSE IF ~mc.ok THEN mc
        ELSE LET a == AddUnder(mc.ld, ResolveBase(EmptyBase, u), v, T, TRUE)
             IN  [ok |-> a.ok, ld |-> a.ld, got |-> mc.got]

RECURSIVE AddSchemas(_, _, _, _, _, _, _)
AddSchemas(ld, vs, i, got, W, T, fm) ==
    IF i > Len(vs) THEN [ok |-> TRUE, ld |-> ld, got |-> got]
    ELSE LET mc == IF ld.vali THEN MetaCheck(ld, vs[i], W, T, fm) ELSE [ok |-> TRUE, ld |-> ld, got |-> {}]
         IN  IF ~mc.ok THEN [mc EXCEPT !.got = got \union mc.got]
             ELSE LET a == AddUnder(mc.ld, EmptyBase, vs[i], T, FALSE)
                  IN  IF ~a.ok THEN [ok |-> FALSE, ld |-> a.ld, got |-> got \union mc.got]
                      ELSE AddSchemas(a.ld, vs, i + 1, got \union mc.got, W, T, fm)

\* root t = [v, base, dr] already in the pool of ld
CompileRoot(ld, t, got, W, T, fm) ==
    LET C  == Ctx(ld, T, fm)
        mc == IF ld.vali THEN MetaCheck(ld, t.v, W, T, fm) ELSE [ok |-> TRUE, ld |-> ld, got |-> {}]
        det == Detected(t.v, ld.auto, C)
        dr == IF det # 0 THEN det ELSE IF ld.auto /\ t.dr # 0 THEN t.dr ELSE ld.dr
    IN  IF ~mc.ok THEN [ok |-> FALSE, ld |-> mc.ld, got |-> got \union mc.got]
        ELSE IF ~DocOk(ld, t.v, C) THEN [ok |-> FALSE, ld |-> mc.ld, got |-> got \union mc.got]
        ELSE LET c == CompileFrom(mc.ld, t.v, t.base, dr, got \union mc.got, W, T)
             IN  IF c.ok THEN [ok |-> TRUE, ld |-> c.ld, got |-> c.got,
                               s |-> [v |-> t.v, base |-> t.base, dr |-> dr, ld |-> c.ld]]
                 ELSE [ok |-> FALSE, ld |-> c.ld, got |-> c.got]

\* a document without location
CompileDoc(ld, v, W, T, fm) ==
    LET a == AddUnder(ld, EmptyBase, v, T, TRUE)
    IN  IF ~a.ok THEN [ok |-> FALSE, ld |-> a.ld, got |-> {}]
        ELSE CompileRoot(a.ld, [v |-> v, base |-> EmptyBase, dr |-> 0], {}, W, T, fm)

\* the document (or part) at a URI
CompileRef(ld, u, W, T, fm) ==
    IF u.bad THEN [ok |-> FALSE, ld |-> ld, got |-> {}]
    ELSE LET o == Obtain(ld, u, W, T)
         IN  IF ~o.ok THEN [ok |-> FALSE, ld |-> o.ld, got |-> o.got]
             ELSE CompileRoot(o.ld, o.t, o.got, W, T, fm)

(***************************************************************************)
(* Validation with a compiled schema                                       *)
(***************************************************************************)
Accepts(s, x, T, fm) == Ok(s.v, s.base, s.dr, x, Ctx(s.ld, T, fm))
Reports(s, x, T, fm) == R(s.v, s.base, s.dr, x, <<>>, Ctx(s.ld, T, fm)).e
=============================================================================
