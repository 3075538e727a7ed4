----------------------------- MODULE WellFormed -----------------------------
(***************************************************************************)
(* Which JSON values are well-formed schemas of a draft, and which         *)
(* references they contain.                                                *)
(***************************************************************************)
EXTENDS Report

IsSchemaShape(v, dr) == IsObj(v) \/ (dr >= 6 /\ IsBool(v))

AllStr(v) == IsArr(v) /\ \A i \in 1..Len(Elems(v)) : IsStr(Elems(v)[i])
Strings(v) == [i \in 1..Len(Elems(v)) |-> Str(Elems(v)[i])]
IsCount(v) == IsNum(v) /\ IsInteger(v) /\ NSign(v) >= 0
GoodRe(p, C) == C.re[p][1] # "bad"
GoodUri(v, C) == IsStr(v) /\ ~C.uri[Str(v)].bad
AllIn(v, P(_)) == \A i \in 1..Len(Elems(v)) : P(Elems(v)[i])
AllMem(v, P(_)) == \A n \in DOMAIN Members(v) : P(Members(v)[n])

RECURSIVE Wf(_, _, _)

\* the operand of keyword k in schema object m
WfKw(k, m, dr, C) ==
    LET a == m[k]
        Sch(v) == Wf(v, dr, C)
        \* operands that are a schema, or a boolean in every draft
        BoolOr(v) == IsBool(v) \/ (IsObj(v) /\ Sch(v))
        ExclOk(lim) == IF dr = 4 THEN IsBool(a) /\ lim \in DOMAIN m
                       ELSE IF dr = HYBRID THEN IsNum(a) \/ (IsBool(a) /\ lim \in DOMAIN m)
                       ELSE IsNum(a)
    IN
    CASE k = "type" -> \/ IsStr(a) /\ Str(a) \in TypeNames
                       \/ AllStr(a) /\ Distinct(Strings(a)) /\ \A i \in 1..Len(Strings(a)) : Strings(a)[i] \in TypeNames
      [] k = "enum" -> IsArr(a) /\ Distinct(Elems(a))
      [] k = "multipleOf" -> IsNum(a) /\ NSign(a) > 0
      [] k \in {"minimum", "maximum"} -> IsNum(a)
      [] k = "exclusiveMinimum" -> ExclOk("minimum")
      [] k = "exclusiveMaximum" -> ExclOk("maximum")
      [] k \in {"minItems", "maxItems"} -> IsCount(a)
      [] k = "minLength" -> IsCount(a) /\ ("maxLength" \in DOMAIN m /\ IsCount(m["maxLength"]) => NLe(a, m["maxLength"]))
      [] k = "maxLength" -> IsCount(a)
      [] k = "minProperties" -> IsCount(a) /\ ("maxProperties" \in DOMAIN m /\ IsCount(m["maxProperties"]) => NLe(a, m["maxProperties"]))
      [] k = "maxProperties" -> IsCount(a)
      [] k = "pattern" -> IsStr(a) /\ GoodRe(Str(a), C)
      [] k = "format" -> IsStr(a)
      [] k = "uniqueItems" -> IsBool(a)
      [] k = "required" -> AllStr(a) /\ Distinct(Strings(a))
      [] k = "items" -> IF IsArr(a) THEN AllIn(a, Sch) ELSE Sch(a)
      [] k \in {"additionalItems", "additionalProperties"} -> BoolOr(a)
      [] k \in {"contains", "propertyNames", "not", "if", "then", "else"} -> Sch(a)
      [] k \in {"allOf", "anyOf", "oneOf"} -> IsArr(a) /\ AllIn(a, Sch)
      [] k \in {"properties", "definitions"} -> IsObj(a) /\ AllMem(a, Sch)
      [] k = "patternProperties" -> IsObj(a) /\ AllMem(a, Sch) /\ \A p \in DOMAIN Members(a) : GoodRe(p, C)
      [] k = "dependencies" -> IsObj(a) /\ AllMem(a, LAMBDA d : IF IsArr(d) THEN AllStr(d) ELSE Sch(d))
      [] OTHER -> TRUE

Wf(S, dr, C) ==
    IF IsBool(S) THEN dr >= 6
    ELSE /\ IsObj(S)
         /\ LET m == Members(S)
                idk == IdKey(dr, m)
            IN  /\ idk \in DOMAIN m => GoodUri(m[idk], C)
                /\ \A k \in {"title", "description"} \cap DOMAIN m : IsStr(m[k])
                /\ IF "$ref" \in DOMAIN m
                   \* keywords beside $ref are ignored, but definitions can be referred to
                   THEN GoodUri(m["$ref"], C) /\ ("definitions" \in DOMAIN m => WfKw("definitions", m, dr, C))
                   ELSE \A k \in DOMAIN m \cap KeywordOf(dr) : WfKw(k, m, dr, C)

(***************************************************************************)
(* References in a well-formed schema: a set of [u, base, dr]              *)
(***************************************************************************)
RECURSIVE Refs(_, _, _, _)
Refs(S, base, dr, C) ==
    IF ~IsObj(S) THEN {}
    ELSE LET m == Members(S)
             b == InnerBase(m, base, dr, C)
             In(v) == Refs(v, b, dr, C)
             OfArr(v) == UNION {In(Elems(v)[i]) : i \in 1..Len(Elems(v))}
             OfMap(v) == UNION {In(Members(v)[n]) : n \in DOMAIN Members(v)}
             OfKw(k) ==
                CASE k \in {"allOf", "anyOf", "oneOf"} -> OfArr(m[k])
                  [] k = "items" -> IF IsArr(m[k]) THEN OfArr(m[k]) ELSE In(m[k])
                  [] k \in {"properties", "patternProperties", "dependencies", "definitions"} -> OfMap(m[k])
                  [] k \in {"additionalItems", "additionalProperties", "contains", "propertyNames",
                            "not", "if", "then", "else"} -> In(m[k])
                  [] OTHER -> {}
         IN  IF "$ref" \in DOMAIN m
             THEN {[u |-> Str(m["$ref"]), base |-> b, dr |-> dr]}
                  \union (IF "definitions" \in DOMAIN m THEN OfKw("definitions") ELSE {})
             ELSE UNION {OfKw(k) : k \in DOMAIN m \cap KeywordOf(dr)}
=============================================================================
