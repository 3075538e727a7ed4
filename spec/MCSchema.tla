------------------------------ MODULE MCSchema ------------------------------
(***************************************************************************)
(* All schemas that are formed from the atoms of a small vocabulary by the *)
(* forms below, in each of the given drafts, with all instances of the     *)
(* vocabulary.  Laws that relate the forms, and the two semantics          *)
(* (satisfaction and report), are checked on every schema; every schema is *)
(* printed with its verdicts for the replay in the implementation.         *)
(***************************************************************************)
EXTENDS Loader, Json, IOUtils

\* sequence of [drafts, forms, atoms, insts, str, re, uri, laws]
Groups == JsonDeserialize(IOEnv.VOCAB)
NoMeta == [d \in MetaDrafts |-> <<"b", TRUE>>]

VARIABLES g, dr, f, i, j
vars == <<g, dr, f, i, j>>

G == Groups[g]
A == G.atoms[i]
B == G.atoms[j]

Ob(m) == <<"o", m>>
O1(k, v) == Ob(k :> v)
O2(k, v, l, w) == Ob((k :> v) @@ (l :> w))
O3(k, v, l, w, n, u) == Ob((k :> v) @@ (l :> w) @@ (n :> u))
Ar(s) == <<"a", s>>
St(s) == <<"s", s>>
TrueS == <<"b", TRUE>>
FalseS == <<"b", FALSE>>
EmptyS == Ob([k \in {} |-> 0])
FalseO == O1("not", EmptyS)
Neg(S) == O1("not", S)
AllS(s) == O1("allOf", Ar(s))
AnyS(s) == O1("anyOf", Ar(s))
OneS(s) == O1("oneOf", Ar(s))

UnaryForms == {"self", "not", "items", "contains", "properties", "patternProperties", "additionalProperties",
               "propertyNames", "dependency", "ref", "recursive", "notnot", "deepref", "any1", "one1", "all1"}

Form(h, S, T) ==
    CASE h = "self" -> S
      [] h = "not" -> Neg(S)
      [] h = "notnot" -> Neg(Neg(S))
      [] h = "all1" -> AllS(<<S>>)
      [] h = "any1" -> AnyS(<<S>>)
      [] h = "one1" -> OneS(<<S>>)
      [] h = "items" -> O1("items", S)
      [] h = "contains" -> O1("contains", S)
      [] h = "properties" -> O1("properties", O1("a", S))
      [] h = "patternProperties" -> O1("patternProperties", O1("^a", S))
      [] h = "additionalProperties" -> O1("additionalProperties", S)
      [] h = "propertyNames" -> O1("propertyNames", S)
      [] h = "dependency" -> O1("dependencies", O1("a", S))
      [] h = "ref" -> O2("definitions", O1("d", S), "$ref", St("#/definitions/d"))
      [] h = "deepref" -> O2("definitions", O2("d", S, "e", O1("$ref", St("#/definitions/d"))), "allOf", Ar(<<O1("$ref", St("#/definitions/e"))>>))
      \* S at the leaves of nested arrays and objects
      [] h = "recursive" -> LET again == O1("$ref", St("#/definitions/r"))
                            IN  O2("definitions", O1("r", Ob(("if" :> O1("type", Ar(<<St("array"), St("object")>>))) @@
                                                             ("then" :> O2("items", again, "additionalProperties", again)) @@
                                                             ("else" :> S))),
                                   "$ref", St("#/definitions/r"))
      [] h = "both" -> Ob(Members(S) @@ Members(T))
      [] h = "allOf" -> AllS(<<S, T>>)
      [] h = "anyOf" -> AnyS(<<S, T>>)
      [] h = "oneOf" -> OneS(<<S, T>>)
      [] h = "one3" -> OneS(<<S, T, S>>)
      [] h = "any3" -> AnyS(<<S, FalseO, T>>)
      [] h = "anyone" -> AnyS(<<OneS(<<S, T>>), T>>)
      [] h = "deepany" -> O1("properties", O1("a", AnyS(<<S, T>>)))
      [] h = "then" -> O2("if", S, "then", T)
      [] h = "else" -> O2("if", S, "else", T)
      [] h = "thenelse" -> O3("if", S, "then", T, "else", Neg(T))
      [] h = "any-all" -> AnyS(<<Neg(S), AllS(<<S, T>>)>>)
      [] h = "not-any" -> Neg(AnyS(<<Neg(S), T>>))
      [] h = "tuple" -> O1("items", Ar(<<S, T>>))
      [] h = "tuple+" -> O2("items", Ar(<<S>>), "additionalItems", T)
      [] h = "contains+" -> O2("items", S, "contains", T)
      [] h = "props" -> O1("properties", O2("a", S, "b", T))
      [] h = "props+" -> O2("properties", O1("a", S), "additionalProperties", T)
      [] h = "pattern+" -> O2("patternProperties", O1("b", S), "additionalProperties", T)
      [] h = "props-pattern" -> O3("properties", O1("a", S), "patternProperties", O1("^a", T), "additionalProperties", FalseS)
      [] h = "deps" -> O1("dependencies", O2("a", S, "b", T))

Joinable(S, T) == IsObj(S) /\ IsObj(T) /\ DOMAIN Members(S) \cap DOMAIN Members(T) = {}

Init == g \in 1..Len(Groups) /\ dr = 0 /\ f = "" /\ i = 0 /\ j = 0
Next ==
    \/ /\ i = 0
       /\ \E d \in 1..Len(G.drafts), h \in 1..Len(G.forms) : dr' = G.drafts[d] /\ f' = G.forms[h]
       /\ i' \in 1..Len(G.atoms)
       /\ j' = IF f' \in UnaryForms THEN 1 ELSE 0
       /\ UNCHANGED g
    \/ /\ i > 0 /\ j = 0
       /\ j' \in {n \in 1..Len(G.atoms) : f = "both" => Joinable(A, G.atoms[n]) /\ n > i}
       /\ UNCHANGED <<g, dr, f, i>>
Spec == Init /\ [][Next]_vars

Done == i > 0 /\ j > 0

Compile(S) == CompileDoc([NewLoader EXCEPT !.dr = dr], S, <<>>, G, StdFormats)
\* verdicts for all instances; empty if the schema is malformed
Verdicts(S) ==
    LET c == Compile(S)
    IN  IF c.ok THEN [n \in 1..Len(G.insts) |-> Accepts(c.s, G.insts[n], G, StdFormats)] ELSE <<>>

\* keywords whose meaning depends on other keywords
Interplay == {"properties", "patternProperties", "additionalProperties", "items", "additionalItems",
              "if", "then", "else", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum",
              "minLength", "maxLength", "minProperties", "maxProperties", "$ref", "id", "$id"}
Independent(S, T) == DOMAIN Members(S) \cap Interplay = {} \/ DOMAIN Members(T) \cap Interplay = {}

\* a different schema with the same meaning, or the schema itself
Equivalent(h, S, T) ==
    CASE h \in {"notnot", "all1", "any1", "one1"} -> S
      [] h = "ref" -> AllS(<<S>>)
      [] h = "deepref" -> Neg(Neg(S))
      [] h = "both" -> IF Independent(S, T) THEN AllS(<<T, S>>) ELSE Ob(Members(T) @@ Members(S))
      [] h = "allOf" -> Neg(AnyS(<<Neg(S), Neg(T)>>))
      [] h = "anyOf" -> Neg(AllS(<<Neg(T), Neg(S)>>))
      [] h = "oneOf" -> AllS(<<AnyS(<<S, T>>), Neg(AllS(<<S, T>>))>>)
      [] h = "one3" -> AllS(<<Neg(S), T>>)
      [] h = "any3" -> AnyS(<<T, S>>)
      [] h = "anyone" -> AnyS(<<T, S>>)
      [] h = "then" -> AnyS(<<Neg(S), T>>)
      [] h = "else" -> AnyS(<<S, T>>)
      [] h = "thenelse" -> Neg(OneS(<<S, T>>))
      [] h = "any-all" -> AnyS(<<Neg(S), T>>)
      [] h = "not-any" -> AllS(<<S, Neg(T)>>)
      [] h = "tuple" -> AllS(<<O1("items", Ar(<<S>>)), O1("items", Ar(<<EmptyS, T>>))>>)
      [] h = "tuple+" -> AllS(<<O1("items", Ar(<<S>>)), O2("items", Ar(<<EmptyS>>), "additionalItems", T)>>)
      [] h = "contains" -> AnyS(<<Neg(O1("type", St("array"))), Neg(O1("items", Neg(S)))>>)
      [] h = "contains+" -> AllS(<<O1("items", S), O1("contains", AllS(<<S, T>>))>>)
      [] h = "props" -> AllS(<<O1("properties", O1("a", S)), O1("properties", O1("b", T))>>)
      [] h = "properties" -> O1("patternProperties", O1("^a$", S))
      [] h = "patternProperties" -> O2("patternProperties", O1("^a", S), "additionalProperties", TrueS)
      [] h = "additionalProperties" -> O1("patternProperties", O1("", S))
      [] h = "dependency" -> AnyS(<<S, Neg(O1("required", Ar(<<St("a")>>))), Neg(O1("type", St("object")))>>)
      [] h = "deps" -> AllS(<<O1("dependencies", O1("a", S)), O1("dependencies", O1("b", T))>>)
      [] OTHER -> Form(h, S, T)
\* forms that some draft does not have have no equivalent there
Known(h) == IF h \in {"contains", "contains+", "propertyNames"} THEN dr >= 6
            ELSE IF h \in {"then", "else", "thenelse", "recursive"} THEN dr >= 7 ELSE TRUE

Law ==
    (Done /\ G.laws) =>
    LET S == Form(f, A, B)
        c == Compile(S)
        v == Verdicts(S)
    IN  /\ Known(f) /\ Compile(A).ok /\ Compile(B).ok /\ c.ok => Verdicts(Equivalent(f, A, B)) = v
        /\ c.ok => \A n \in 1..Len(G.insts) : (Reports(c.s, G.insts[n], G, StdFormats) = <<>>) = v[n]
        \* a malformed part makes the whole malformed
        /\ Known(f) /\ f # "both" /\ ((IsObj(A) /\ ~Compile(A).ok) \/ (f \notin UnaryForms /\ IsObj(B) /\ ~Compile(B).ok)) => ~c.ok

Report ==
    Done => LET S == Form(f, A, B)
                v == Verdicts(S)
            IN  PrintT(<<"V", g, dr, ToJson(S), [n \in 1..Len(v) |-> IF v[n] THEN 1 ELSE 0]>>)
=============================================================================
