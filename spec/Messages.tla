------------------------------ MODULE Messages ------------------------------
(***************************************************************************)
(* Messages of errors.  A template is a sequence of tokens                 *)
(*   <<"lit", text>>       literal text                                    *)
(*   <<"var", name>>       the string form of the detail `name'            *)
(*   <<"fn", name>>        the same, through the user's template function  *)
(* Details are given by their string forms.                                *)
(***************************************************************************)
EXTENDS Report

Apply(s) == "<" \o s \o ">"        \* the template function of the harness

RECURSIVE FillFrom(_, _, _)
FillFrom(tpl, det, i) ==
    IF i > Len(tpl) THEN ""
    ELSE LET t == tpl[i]
             D(n) == IF n \in DOMAIN det THEN det[n] ELSE "<no value>"
         IN  (CASE t[1] = "lit" -> t[2]
                [] t[1] = "var" -> D(t[2])
                [] t[1] = "fn"  -> Apply(D(t[2])))
             \o FillFrom(tpl, det, i + 1)
Fill(tpl, det) == FillFrom(tpl, det, 1)

\* the template of the locale an error type uses
TemplateName ==
    [false |-> "False", required |-> "Required", invalid_type |-> "InvalidType",
     number_any_of |-> "NumberAnyOf", number_one_of |-> "NumberOneOf", number_all_of |-> "NumberAllOf",
     number_not |-> "NumberNot", missing_dependency |-> "MissingDependency", const |-> "Const",
     enum |-> "Enum", array_no_additional_items |-> "ArrayNoAdditionalItems",
     array_min_items |-> "ArrayMinItems", array_max_items |-> "ArrayMaxItems", unique |-> "Unique",
     contains |-> "ArrayContains", array_min_properties |-> "ArrayMinProperties",
     array_max_properties |-> "ArrayMaxProperties",
     additional_property_not_allowed |-> "AdditionalPropertyNotAllowed",
     invalid_property_name |-> "InvalidPropertyName", string_gte |-> "StringGTE",
     string_lte |-> "StringLTE", pattern |-> "DoesNotMatchPattern", format |-> "DoesNotMatchFormat",
     multiple_of |-> "MultipleOf", number_gte |-> "NumberGTE", number_gt |-> "NumberGT",
     number_lte |-> "NumberLTE", number_lt |-> "NumberLT", condition_then |-> "ConditionThen",
     condition_else |-> "ConditionElse"]

(* An observed message: [t, p, det, desc, str, vs] - type, path, string    *)
(* forms of the details, description, string form, JSON text of the value. *)
(* tpls: the templates of the locale in force.                             *)
ErrorString(m, tpls) ==
    Fill(tpls["ErrorFormat"], [context |-> ContextOf(m.p), field |-> FieldOf(m.p),
                               description |-> m.desc, value |-> m.vs])
MessageOk(m, tpls) ==
    /\ m.t \in DOMAIN TemplateName
    /\ "field" \in DOMAIN m.det /\ m.det["field"] = FieldOf(m.p)
    /\ "context" \in DOMAIN m.det /\ m.det["context"] = ContextOf(m.p)
    /\ m.desc = Fill(tpls[TemplateName[m.t]], m.det)
    /\ m.str = ErrorString(m, tpls)

(* AddError: an error of the user's with the given details. *)
AddedOk(m, tpl, given, tpls) ==
    /\ m.desc = Fill(tpl, given @@ [context |-> ContextOf(m.p)])
    /\ m.str = ErrorString(m, tpls)
=============================================================================
