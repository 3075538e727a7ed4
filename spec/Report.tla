------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What a validation reports: the errors, and the score by which the       *)
(* closest alternative of a failed anyOf, oneOf or contains is chosen.     *)
(*                                                                         *)
(* R(S, base, dr, x, p, C) = [e, sc]: e is the sequence of errors (its     *)
(* order is not part of the contract, except that it determines nothing    *)
(* else), sc the score.  An error is a record                              *)
(*   t  the error type            p  the path of the value (names/indices) *)
(*   v  the value it is about     d  the details documented for the type   *)
(*   f  the field                 c  the context, as strings               *)
(* Every satisfied check of a value scores 1, every violated one -1 in     *)
(* total (-2 for the error, +1 for the completed check of its group).      *)
(***************************************************************************)
EXTENDS Schema

None == [e |-> <<>>, sc |-> 0]
Point == [e |-> <<>>, sc |-> 1]
NoDetails == [x \in {} |-> x]

\* the context of a value, and the same without the root
RECURSIVE Join(_, _)
Join(p, i) == IF i > Len(p) THEN "" ELSE "." \o p[i] \o Join(p, i + 1)
ContextOf(p) == "(root)" \o Join(p, 1)
FieldOf(p) == IF p = <<>> THEN "(root)" ELSE p[1] \o Join(p, 2)

Error(t, p, v, d) ==
    [e |-> <<[t |-> t, p |-> p, v |-> v, d |-> d, f |-> FieldOf(p), c |-> ContextOf(p)]>>, sc |-> -2]
Plus2(a, b) == [e |-> a.e \o b.e, sc |-> a.sc + b.sc]

RECURSIVE SumFrom(_, _, _)
SumFrom(rs, i, acc) == IF i > Len(rs) THEN acc ELSE SumFrom(rs, i + 1, Plus2(acc, rs[i]))
Sum(rs) == SumFrom(rs, 1, None)
\* over a finite set, in any order
Over(S, Op(_)) == LET s == SetToSeq(S) IN Sum([i \in 1..Len(s) |-> Op(s[i])])
OverSeq(n, Op(_)) == Sum([i \in 1..n |-> Op(i)])

When(b, r) == IF b THEN r ELSE None
Valid(r) == r.e = <<>>

\* first result with the highest score
Best(rs) == rs[CHOOSE i \in 1..Len(rs) :
                 /\ \A j \in 1..Len(rs) : rs[j].sc <= rs[i].sc
                 /\ \A j \in 1..(i - 1) : rs[j].sc < rs[i].sc]

Has(m, k) == k \in DOMAIN m
Idx(i) == ToString(i - 1)          \* array positions are reported from 0
NatDetail(v) == v                  \* limits are reported as numbers

TypeString(ts) ==
    IF Len(ts) = 1 THEN ts[1]
    ELSE "[" \o FoldLeft(LAMBDA a, b : a \o "," \o b, ts[1], Tail(ts)) \o "]"

\* indices i < j such that element j equals element i and no element between
Duplicates(xs) == {<<i, j>> \in (1..Len(xs)) \X (1..Len(xs)) :
                     i < j /\ xs[i] = xs[j] /\ \A k \in (i + 1)..(j - 1) : xs[k] # xs[j]}

RECURSIVE R(_, _, _, _, _, _)

\* combinators, dependencies and conditions
RSchema(m, base, dr, x, p, C) ==
    LET Sub(S) == R(S, base, dr, x, p, C)
        E(t) == Error(t, p, x, NoDetails)
        n(k) == IF Has(m, k) THEN Len(Elems(m[k])) ELSE 0
        rs(k) == [i \in 1..n(k) |-> Sub(Elems(m[k])[i])]
        ok(l) == Cardinality({i \in 1..Len(l) : Valid(l[i])})
        any == LET l == rs("anyOf")
               IN  When(Len(l) > 0 /\ ok(l) = 0, Plus2(E("number_any_of"), Best(l)))
        one == LET l == rs("oneOf")
               IN  When(Len(l) > 0 /\ ok(l) # 1,
                        Plus2(E("number_one_of"), IF ok(l) = 0 THEN Best(l) ELSE None))
        all == LET l == rs("allOf")
               IN  Plus2(Sum(l), When(ok(l) # Len(l), E("number_all_of")))
        not == When(Has(m, "not") /\ Valid(Sub(m["not"])), E("number_not"))
        Dep(k) == LET d == Members(m["dependencies"])[k]
                  IN  IF IsArr(d)
                      THEN OverSeq(Len(Elems(d)), LAMBDA i :
                             When(Str(Elems(d)[i]) \notin DOMAIN Members(x),
                                  Error("missing_dependency", p, x, [dependency |-> Str(Elems(d)[i])])))
                      ELSE Sub(d)
        deps == IF Has(m, "dependencies") /\ IsObj(x)
                THEN Over(DOMAIN Members(m["dependencies"]) \cap DOMAIN Members(x), Dep)
                ELSE None
        Branch(k, t) == IF Has(m, k)
                        THEN LET r == Sub(m[k]) IN When(~Valid(r), Plus2(E(t), r))
                        ELSE None
        cond == IF dr >= 7 /\ Has(m, "if")
                THEN IF Valid(Sub(m["if"])) THEN Branch("then", "condition_then")
                     ELSE Branch("else", "condition_else")
                ELSE None
    IN  Sum(<<any, one, all, not, deps, cond, Point>>)

RCommon(m, base, dr, x, p, C) ==
    Sum(<<When(dr >= 6 /\ Has(m, "const") /\ m["const"] # x,
               Error("const", p, x, [allowed |-> <<m["const"]>>])),
          When(Has(m, "enum") /\ Len(Elems(m["enum"])) > 0 /\ ~\E i \in 1..Len(Elems(m["enum"])) : Elems(m["enum"])[i] = x,
               Error("enum", p, x, [allowed |-> Elems(m["enum"])])),
          When(Has(m, "format") /\ ~FormatOk(Str(m["format"]), x, C),
               Error("format", p, x, [format |-> Str(m["format"])])),
          Point>>)

RNumber(m, base, dr, x, p, C) ==
    LET exMax == BoolExcl(m, "exclusiveMaximum", dr)
        exMin == BoolExcl(m, "exclusiveMinimum", dr)
        numEx(k) == Has(m, k) /\ IsNum(m[k]) /\ dr # 4
    IN  Sum(<<When(Has(m, "multipleOf") /\ ~MultipleOf(x, m["multipleOf"]),
                   Error("multiple_of", p, x, [multiple |-> m["multipleOf"]])),
              When(Has(m, "maximum") /\ ~exMax /\ ~NLe(x, m["maximum"]),
                   Error("number_lte", p, x, [max |-> m["maximum"]])),
              \* a numeric exclusive limit replaces the boolean form
              When(Has(m, "maximum") /\ exMax /\ ~NLt(x, m["maximum"]),
                   Error("number_lt", p, x, [max |-> m["maximum"]])),
              When(numEx("exclusiveMaximum") /\ ~NLt(x, m["exclusiveMaximum"]),
                   Error("number_lt", p, x, [max |-> m["exclusiveMaximum"]])),
              When(Has(m, "minimum") /\ ~exMin /\ ~NLe(m["minimum"], x),
                   Error("number_gte", p, x, [min |-> m["minimum"]])),
              When(Has(m, "minimum") /\ exMin /\ ~NLt(m["minimum"], x),
                   Error("number_gt", p, x, [min |-> m["minimum"]])),
              When(numEx("exclusiveMinimum") /\ ~NLt(m["exclusiveMinimum"], x),
                   Error("number_gt", p, x, [min |-> m["exclusiveMinimum"]])),
              Point>>)

RString(m, base, dr, x, p, C) ==
    LET n == FromNat(Len(Cps(Str(x), C)))
    IN  Sum(<<When(Has(m, "minLength") /\ ~NLe(m["minLength"], n),
                   Error("string_gte", p, x, [min |-> m["minLength"]])),
              When(Has(m, "maxLength") /\ ~NLe(n, m["maxLength"]),
                   Error("string_lte", p, x, [max |-> m["maxLength"]])),
              When(Has(m, "pattern") /\ ~PatternMatches(Str(m["pattern"]), Str(x), C),
                   Error("pattern", p, x, [pattern |-> Str(m["pattern"])])),
              Point>>)

RArray(m, base, dr, x, p, C) ==
    LET xs == Elems(x)
        At(S, i) == R(S, base, dr, xs[i], Append(p, Idx(i)), C)
        items ==
            IF ~Has(m, "items") THEN None
            ELSE IF ~IsArr(m["items"]) THEN OverSeq(Len(xs), LAMBDA i : At(m["items"], i))
            ELSE OverSeq(Min2(Covered(m), Len(xs)), LAMBDA i : At(Elems(m["items"])[i], i))
        more ==
            IF Has(m, "additionalItems") /\ Covered(m) > 0 /\ Len(xs) > Covered(m)
            THEN IF IsBool(m["additionalItems"])
                 THEN When(~Str(m["additionalItems"]), Error("array_no_additional_items", p, x, NoDetails))
                 ELSE OverSeq(Len(xs) - Covered(m), LAMBDA i : At(m["additionalItems"], Covered(m) + i))
            ELSE None
        uniq == IF Has(m, "uniqueItems") /\ Str(m["uniqueItems"])
                THEN Over(Duplicates(xs), LAMBDA d :
                       Error("unique", p, x, [type |-> "array", i |-> FromNat(d[1] - 1), j |-> FromNat(d[2] - 1)]))
                ELSE None
        cont == IF dr >= 6 /\ Has(m, "contains")
                THEN LET l == [i \in 1..Len(xs) |-> At(m["contains"], i)]
                     IN  When(~\E i \in 1..Len(l) : Valid(l[i]),
                              Plus2(Error("contains", p, x, NoDetails),
                                    IF Len(l) > 0 THEN Best(l) ELSE None))
                ELSE None
        n == FromNat(Len(xs))
    IN  Sum(<<items, more,
              When(Has(m, "minItems") /\ ~NLe(m["minItems"], n), Error("array_min_items", p, x, [min |-> m["minItems"]])),
              When(Has(m, "maxItems") /\ ~NLe(n, m["maxItems"]), Error("array_max_items", p, x, [max |-> m["maxItems"]])),
              uniq, cont, Point>>)

RObject(m, base, dr, x, p, C) ==
    LET o == Members(x)
        n == FromNat(Cardinality(DOMAIN o))
        At(S, k) == R(S, base, dr, o[k], Append(p, k), C)
        req == IF ~Has(m, "required") THEN None
               ELSE OverSeq(Len(Elems(m["required"])), LAMBDA i :
                      LET k == Str(Elems(m["required"])[i])
                      IN  IF k \in DOMAIN o THEN Point ELSE Error("required", p, x, [property |-> k]))
        Matching(k) == {q \in Patterns(m) : PatternMatches(q, k, C)}
        Pat(k) == IF Matching(k) = {} THEN None
                  ELSE Plus2(Over(Matching(k), LAMBDA q : At(Members(m["patternProperties"])[q], k)), Point)
        pats == IF Patterns(m) = {} THEN None ELSE Over(DOMAIN o, Pat)
        addl == IF ~Has(m, "additionalProperties") THEN None
                ELSE Over(Additional(m, o, C), LAMBDA k :
                       IF IsBool(m["additionalProperties"])
                       THEN When(~Str(m["additionalProperties"]),
                                 Error("additional_property_not_allowed", p, o[k], [property |-> k]))
                       ELSE At(m["additionalProperties"], k))
        names == IF ~(dr >= 6 /\ Has(m, "propertyNames")) THEN None
                 ELSE Over(DOMAIN o, LAMBDA k :
                        LET r == R(m["propertyNames"], base, dr, <<"s", k>>, p, C)
                        IN  When(~Valid(r), Plus2(Error("invalid_property_name", p, x, [property |-> k]), r)))
    IN  Sum(<<When(Has(m, "minProperties") /\ ~NLe(m["minProperties"], n),
                   Error("array_min_properties", p, x, [min |-> m["minProperties"]])),
              When(Has(m, "maxProperties") /\ ~NLe(n, m["maxProperties"]),
                   Error("array_max_properties", p, x, [max |-> m["maxProperties"]])),
              req, pats, addl, names, Point>>)

RProps(m, base, dr, x, p, C) ==
    IF ~Has(m, "properties") THEN None
    ELSE Over(DOMAIN Members(m["properties"]) \cap DOMAIN Members(x), LAMBDA k :
           R(Members(m["properties"])[k], base, dr, Members(x)[k], Append(p, k), C))

R(S, base, dr, x, p, C) ==
    IF IsBool(S) THEN IF Str(S) THEN None ELSE Error("false", p, x, NoDetails)
    ELSE LET m == Members(S)
             b == InnerBase(m, base, dr, C)
             ts == IF Has(m, "type") THEN TypeList(m["type"]) ELSE <<>>
         IN
         IF Has(m, "$ref")
         THEN LET t == Designates(C.uri[Str(m["$ref"])], b, dr, C)
              IN  R(t.v, t.base, t.dr, x, p, C)
         ELSE IF Len(ts) > 0 /\ ~\E i \in 1..Len(ts) : HasType(x, ts[i])
         THEN Error("invalid_type", p, x, [expected |-> TypeString(ts), given |-> GivenType(x)])
         ELSE Sum(<<RSchema(m, b, dr, x, p, C),
                    CASE IsNum(x) -> RNumber(m, b, dr, x, p, C)
                      [] IsStr(x) -> RString(m, b, dr, x, p, C)
                      [] IsArr(x) -> RArray(m, b, dr, x, p, C)
                      [] IsObj(x) -> Plus2(RObject(m, b, dr, x, p, C), RProps(m, b, dr, x, p, C))
                      [] OTHER    -> None,
                    RCommon(m, b, dr, x, p, C),
                    Point>>)

(***************************************************************************)
(* Equality of error reports: as bags                                      *)
(***************************************************************************)
Count(s, e) == Cardinality({i \in 1..Len(s) : s[i] = e})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
=============================================================================
