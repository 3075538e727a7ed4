-------------------------------- MODULE JSON --------------------------------
(***************************************************************************)
(* JSON values are tagged tuples:                                          *)
(*   <<"z">>                    null                                       *)
(*   <<"b", TRUE>>              a boolean                                  *)
(*   <<"n", s, digits, exp>>    a number (module Num)                      *)
(*   <<"s", str>>               a string                                   *)
(*   <<"a", <<v, ...>>>>        an array                                   *)
(*   <<"o", [name |-> v, ...]>> an object                                  *)
(* Equality of JSON values is equality of these TLA+ values: numbers are   *)
(* normalised and objects are functions from names, so neither notation    *)
(* nor member order matters.                                               *)
(***************************************************************************)
EXTENDS Num, FiniteSets, SequencesExt, TLC

IsNull(v) == v[1] = "z"
IsBool(v) == v[1] = "b"
IsNum(v)  == v[1] = "n"
IsStr(v)  == v[1] = "s"
IsArr(v)  == v[1] = "a"
IsObj(v)  == v[1] = "o"

TypeNames == {"array", "boolean", "integer", "number", "null", "object", "string"}

\* does value v have the JSON Schema type t
HasType(v, t) ==
    CASE t = "null"    -> IsNull(v)
      [] t = "boolean" -> IsBool(v)
      [] t = "number"  -> IsNum(v)
      [] t = "integer" -> IsNum(v) /\ IsInteger(v)
      [] t = "string"  -> IsStr(v)
      [] t = "array"   -> IsArr(v)
      [] t = "object"  -> IsObj(v)
      [] OTHER         -> FALSE

\* the name under which a type error reports the type of v
GivenType(v) ==
    CASE IsNull(v) -> "null"
      [] IsBool(v) -> "boolean"
      [] IsNum(v)  -> IF IsInteger(v) THEN "integer" ELSE "number"
      [] IsStr(v)  -> "string"
      [] IsArr(v)  -> "array"
      [] IsObj(v)  -> "object"

Distinct(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
=============================================================================
