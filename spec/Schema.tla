------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* What a JSON Schema means: the predicate Ok(S, base, dr, x, C) holds iff *)
(* instance x satisfies schema S.                                          *)
(*                                                                         *)
(* dr is the draft in force: 4, 6, 7 or 99 (hybrid).  base is the base URI *)
(* in force outside S.  C is the context:                                  *)
(*   C.str   code points of every string            (string -> Seq(Nat))   *)
(*   C.re    the expression every pattern denotes    (string -> Regex)     *)
(*   C.uri   components of every URI reference       (string -> Uri)       *)
(*   C.pool  identified schemas                      (Key -> target)       *)
(*   C.fm    registered format checkers              (name -> checker)     *)
(* A target is a record [v, base, dr]: a schema, the base URI in force     *)
(* around it and the draft its document declares (0: none).                *)
(***************************************************************************)
EXTENDS JSON, Regex, Uri, Formats

HYBRID == 99

Str(v) == v[2]              \* payload of a string, boolean, array or object
Members(v) == v[2]
Elems(v) == v[2]

\* the keyword that identifies a schema depends on the draft
IdKey(dr, m) == IF dr = 4 \/ (dr = HYBRID /\ "id" \in DOMAIN m) THEN "id" ELSE "$id"

HasId(dr, m, C) ==
    LET k == IdKey(dr, m)
    IN  k \in DOMAIN m /\ IsStr(m[k]) /\ ~C.uri[Str(m[k])].bad

\* base URI inside a schema object
InnerBase(m, base, dr, C) ==
    IF HasId(dr, m, C) THEN ResolveBase(base, C.uri[Str(m[IdKey(dr, m)])]) ELSE base

\* members whose value is a map from arbitrary names to schemas
MapKeywords == {"properties", "dependencies", "patternProperties", "definitions"}
\* members whose value is literal data
LiteralKeywords == {"const", "enum"}

(***************************************************************************)
(* Following a JSON pointer from a schema, keeping track of the base URI.  *)
(* Result: [ok, v, base].                                                  *)
(***************************************************************************)
RECURSIVE Walk(_, _, _, _, _, _, _)
\* isSchema: v is in a position where an identifier keyword counts
Walk(v, toks, i, isSchema, base, dr, C) ==
    IF i > Len(toks) THEN [ok |-> TRUE, v |-> v, base |-> base]
    ELSE LET b2 == IF isSchema /\ IsObj(v) THEN InnerBase(Members(v), base, dr, C) ELSE base
         IN  IF IsObj(v) /\ toks[i] \in DOMAIN Members(v)
             THEN Walk(Members(v)[toks[i]], toks, i + 1,
                       ~(isSchema /\ toks[i] \in MapKeywords \union LiteralKeywords), b2, dr, C)
             ELSE IF IsArr(v) /\ \E n \in 1..Len(Elems(v)) : toks[i] = ToString(n - 1)
             THEN LET n == CHOOSE n \in 1..Len(Elems(v)) : toks[i] = ToString(n - 1)
                  IN  Walk(Elems(v)[n], toks, i + 1, isSchema, b2, dr, C)
             ELSE [ok |-> FALSE, v |-> v, base |-> base]

(***************************************************************************)
(* The schema a reference designates: [st, v, base, dr], st one of         *)
(*   "ok"       found in the pool                                          *)
(*   "nodoc"    the document (base URI res) is not in the pool             *)
(*   "dangling" the document is there but has no such part                 *)
(***************************************************************************)
Designates(u, base, dr, C) ==
    LET b    == ResolveBase(base, u)
        name == IF u.f[1] = "name" THEN u.f[2] ELSE ""
    IN  IF Key(b, name) \in DOMAIN C.pool
        THEN LET t == C.pool[Key(b, name)]
                 d == IF t.dr = 0 THEN dr ELSE t.dr
             IN  IF u.f[1] # "ptr" THEN [st |-> "ok", v |-> t.v, base |-> t.base, dr |-> d, at |-> b]
                 ELSE LET w == Walk(t.v, u.f[2], 1, TRUE, t.base, IF t.dr = 0 THEN C.dr ELSE t.dr, C)
                      IN  IF w.ok THEN [st |-> "ok", v |-> w.v, base |-> w.base, dr |-> d, at |-> b]
                          ELSE [st |-> "dangling", at |-> b]
        ELSE IF Key(b, "") \in DOMAIN C.pool THEN [st |-> "dangling", at |-> b]
        ELSE [st |-> "nodoc", at |-> b]

(***************************************************************************)
(* Keyword operands.                                                       *)
(***************************************************************************)
TypeList(v) == IF IsStr(v) THEN <<Str(v)>> ELSE [i \in 1..Len(Elems(v)) |-> Str(Elems(v)[i])]

Cps(s, C) == C.str[s]
PatternMatches(p, s, C) == Search(C.re[p], Cps(s, C))

\* minimum/maximum are exclusive if the boolean form of exclusive* says so
BoolExcl(m, k, dr) == dr \in {4, HYBRID} /\ k \in DOMAIN m /\ IsBool(m[k]) /\ Str(m[k])

\* keywords that a draft defines
KeywordOf(dr) ==
    {"type", "enum", "multipleOf", "maximum", "exclusiveMaximum", "minimum", "exclusiveMinimum",
     "maxLength", "minLength", "pattern", "additionalItems", "items", "maxItems", "minItems",
     "uniqueItems", "maxProperties", "minProperties", "required", "properties",
     "patternProperties", "additionalProperties", "dependencies", "allOf", "anyOf", "oneOf",
     "not", "format", "definitions"}
    \union (IF dr >= 6 THEN {"const", "contains", "propertyNames"} ELSE {})
    \union (IF dr >= 7 THEN {"if", "then", "else"} ELSE {})

PropNames(m)   == IF "properties" \in DOMAIN m THEN DOMAIN Members(m["properties"]) ELSE {}
Patterns(m)    == IF "patternProperties" \in DOMAIN m
                  THEN DOMAIN Members(m["patternProperties"]) ELSE {}
\* members of an object that additionalProperties constrains
Additional(m, o, C) ==
    {n \in DOMAIN o : /\ n \notin PropNames(m)
                      /\ \A p \in Patterns(m) : ~PatternMatches(p, n, C)}

\* number of elements that the list form of items covers
Covered(m) == IF "items" \in DOMAIN m /\ IsArr(m["items"]) THEN Len(Elems(m["items"])) ELSE 0

(***************************************************************************)
(* Satisfaction.                                                           *)
(***************************************************************************)
RECURSIVE Ok(_, _, _, _, _)

KwOk(k, m, base, dr, x, C) ==
    LET arg == m[k]
        Sub(S, y) == Ok(S, base, dr, y, C)
    IN
    CASE k = "type" ->
            LET ts == TypeList(arg)
            IN  Len(ts) = 0 \/ \E i \in 1..Len(ts) : HasType(x, ts[i])
      \* ----- any type
      [] k = "enum"  -> Len(Elems(arg)) = 0 \/ \E i \in 1..Len(Elems(arg)) : Elems(arg)[i] = x
      [] k = "const" -> arg = x
      [] k = "format" -> FormatOk(Str(arg), x, C)
      [] k = "allOf" -> \A i \in 1..Len(Elems(arg)) : Sub(Elems(arg)[i], x)
      [] k = "anyOf" -> Len(Elems(arg)) = 0 \/ \E i \in 1..Len(Elems(arg)) : Sub(Elems(arg)[i], x)
      [] k = "oneOf" -> \/ Len(Elems(arg)) = 0
                        \/ Cardinality({i \in 1..Len(Elems(arg)) : Sub(Elems(arg)[i], x)}) = 1
      [] k = "not"   -> ~Sub(arg, x)
      [] k = "if"    -> IF Sub(arg, x)
                        THEN "then" \in DOMAIN m => Sub(m["then"], x)
                        ELSE "else" \in DOMAIN m => Sub(m["else"], x)
      \* ----- numbers
      [] k = "multipleOf" -> IsNum(x) => MultipleOf(x, arg)
      [] k = "minimum" -> IsNum(x) => IF BoolExcl(m, "exclusiveMinimum", dr) THEN NLt(arg, x) ELSE NLe(arg, x)
      [] k = "maximum" -> IsNum(x) => IF BoolExcl(m, "exclusiveMaximum", dr) THEN NLt(x, arg) ELSE NLe(x, arg)
      [] k = "exclusiveMinimum" -> IsNum(x) /\ IsNum(arg) => NLt(arg, x)
      [] k = "exclusiveMaximum" -> IsNum(x) /\ IsNum(arg) => NLt(x, arg)
      \* ----- strings
      [] k = "minLength" -> IsStr(x) => NLe(arg, FromNat(Len(Cps(Str(x), C))))
      [] k = "maxLength" -> IsStr(x) => NLe(FromNat(Len(Cps(Str(x), C))), arg)
      [] k = "pattern"   -> IsStr(x) => PatternMatches(Str(arg), Str(x), C)
      \* ----- arrays
      [] k = "items" -> IsArr(x) =>
            IF IsArr(arg) THEN \A i \in 1..Min2(Len(Elems(arg)), Len(Elems(x))) : Sub(Elems(arg)[i], Elems(x)[i])
            ELSE \A i \in 1..Len(Elems(x)) : Sub(arg, Elems(x)[i])
      [] k = "additionalItems" -> IsArr(x) /\ Covered(m) > 0 =>
            IF IsBool(arg) THEN Str(arg) \/ Len(Elems(x)) <= Covered(m)
            ELSE \A i \in (Covered(m) + 1)..Len(Elems(x)) : Sub(arg, Elems(x)[i])
      [] k = "contains" -> IsArr(x) => \E i \in 1..Len(Elems(x)) : Sub(arg, Elems(x)[i])
      [] k = "minItems" -> IsArr(x) => NLe(arg, FromNat(Len(Elems(x))))
      [] k = "maxItems" -> IsArr(x) => NLe(FromNat(Len(Elems(x))), arg)
      [] k = "uniqueItems" -> IsArr(x) /\ Str(arg) => Distinct(Elems(x))
      \* ----- objects
      [] k = "properties" -> IsObj(x) =>
            \A n \in DOMAIN Members(arg) \cap DOMAIN Members(x) : Sub(Members(arg)[n], Members(x)[n])
      [] k = "patternProperties" -> IsObj(x) =>
            \A p \in DOMAIN Members(arg) : \A n \in DOMAIN Members(x) :
                PatternMatches(p, n, C) => Sub(Members(arg)[p], Members(x)[n])
      [] k = "additionalProperties" -> IsObj(x) =>
            IF IsBool(arg) THEN Str(arg) \/ Additional(m, Members(x), C) = {}
            ELSE \A n \in Additional(m, Members(x), C) : Sub(arg, Members(x)[n])
      [] k = "propertyNames" -> IsObj(x) => \A n \in DOMAIN Members(x) : Sub(arg, <<"s", n>>)
      [] k = "required" -> IsObj(x) =>
            \A i \in 1..Len(Elems(arg)) : Str(Elems(arg)[i]) \in DOMAIN Members(x)
      [] k = "minProperties" -> IsObj(x) => NLe(arg, FromNat(Cardinality(DOMAIN Members(x))))
      [] k = "maxProperties" -> IsObj(x) => NLe(FromNat(Cardinality(DOMAIN Members(x))), arg)
      [] k = "dependencies" -> IsObj(x) =>
            \A n \in DOMAIN Members(arg) \cap DOMAIN Members(x) :
                LET d == Members(arg)[n]
                IN  IF IsArr(d) THEN \A i \in 1..Len(Elems(d)) : Str(Elems(d)[i]) \in DOMAIN Members(x)
                    ELSE Sub(d, x)
      [] OTHER -> TRUE

Ok(S, base, dr, x, C) ==
    IF IsBool(S) THEN Str(S)
    ELSE LET m == Members(S)
             b == InnerBase(m, base, dr, C)
         IN  IF "$ref" \in DOMAIN m
             THEN LET t == Designates(C.uri[Str(m["$ref"])], b, dr, C)
                  IN  Ok(t.v, t.base, t.dr, x, C)
             ELSE \A k \in DOMAIN m \cap KeywordOf(dr) : KwOk(k, m, b, dr, x, C)
=============================================================================
