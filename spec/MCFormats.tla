----------------------------- MODULE MCFormats -----------------------------
(***************************************************************************)
(* All strings that consist of up to n tokens of a small vocabulary, per   *)
(* built-in format.  The laws that relate the languages of the formats are *)
(* checked on every string, and the language membership of every string is *)
(* printed for the replay in the implementation.                           *)
(***************************************************************************)
EXTENDS Formats, TLC, Json, IOUtils

\* [format |-> [n |-> bound, tok |-> << code point sequences >>]]
Vocab == JsonDeserialize(IOEnv.VOCAB)

VARIABLES form, toks
vars == <<form, toks>>

Text(ts) == FlattenSeq([i \in 1..Len(ts) |-> Vocab[form].tok[ts[i]]])
word == Text(toks)

Init == form \in DOMAIN Vocab /\ toks = <<>>
Next == /\ Len(toks) < Vocab[form].n
        /\ \E i \in 1..Len(Vocab[form].tok) : toks' = Append(toks, i)
        /\ UNCHANGED form
Spec == Init /\ [][Next]_vars

In(g) == Lang(g, word, <<"unknown">>)
Implies(a, b) == a = "y" => b = "y"

Laws ==
    /\ \A g \in {form} : In(g) \in {"y", "n", "u"}
    /\ form \in {"date", "time", "date-time"} =>
         Implies(In("date"), In("date-time")) /\ Implies(In("time"), In("date-time")) /\ ~(In("date") = "y" /\ In("time") # "n")
    /\ form \in {"ipv4", "ipv6", "hostname"} =>
         Implies(In("ipv4"), In("hostname")) /\ ~(In("ipv4") = "y" /\ In("ipv6") = "y") /\ ~(In("ipv6") = "y" /\ In("hostname") = "y")
    /\ form \in {"uri", "uri-reference", "iri", "iri-reference", "uri-template"} =>
         /\ Implies(In("uri"), In("uri-reference")) /\ Implies(In("uri"), In("iri"))
         /\ Implies(In("uri-reference"), In("iri-reference")) /\ Implies(In("uri-reference"), In("uri-template"))
         /\ ~(In("uri-reference") = "n" /\ In("uri") = "y")
    /\ form \in {"json-pointer", "relative-json-pointer"} =>
         /\ (In("json-pointer") = "y") = (Lang("relative-json-pointer", <<48>> \o word, <<"unknown">>) = "y" /\ word # <<35>>)
         /\ ~(In("json-pointer") = "y" /\ In("relative-json-pointer") = "y")
    /\ (form = "uuid" /\ In("uuid") = "y") => Len(word) = 36
    /\ form \in {"email", "idn-email"} => Implies(In("email"), In("idn-email"))

Report == PrintT(<<"L", form, toks, In(form)>>)
=============================================================================
