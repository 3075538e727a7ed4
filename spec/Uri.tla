-------------------------------- MODULE Uri --------------------------------
(***************************************************************************)
(* URI references as components, and reference resolution (RFC 3986 5.2).  *)
(* A reference is a record                                                 *)
(*   bad   not a URI reference at all                                      *)
(*   sch   scheme ("" if absent)          au  authority ("" if absent)     *)
(*   abs   the path starts with a slash   segs  its segments               *)
(*   q     query ("" if absent)                                            *)
(*   f     fragment: <<"none">>, <<"ptr", tokens>> for a JSON pointer with *)
(*         decoded tokens, or <<"name", n>> for a plain name               *)
(* A base URI has no fragment.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

NoFrag == <<"none">>
EmptyBase == [sch |-> "", au |-> "", abs |-> FALSE, segs |-> <<>>, q |-> ""]

RECURSIVE DropDots(_, _, _)
DropDots(s, i, out) ==
    IF i > Len(s) THEN out
    ELSE IF s[i] = "."
         THEN DropDots(s, i + 1, IF i = Len(s) THEN Append(out, "") ELSE out)
    ELSE IF s[i] = ".."
         THEN LET up == IF out = <<>> THEN <<>> ELSE SubSeq(out, 1, Len(out) - 1)
              IN  DropDots(s, i + 1, IF i = Len(s) THEN Append(up, "") ELSE up)
    ELSE DropDots(s, i + 1, Append(out, s[i]))
RemoveDots(s) == DropDots(s, 1, <<>>)

ButLast(s) == IF s = <<>> THEN <<>> ELSE SubSeq(s, 1, Len(s) - 1)

\* the URI (without fragment) that reference r designates relative to base b
ResolveBase(b, r) ==
    IF r.sch # ""
    THEN [sch |-> r.sch, au |-> r.au, abs |-> r.abs, segs |-> RemoveDots(r.segs), q |-> r.q]
    ELSE IF r.au # ""
    THEN [sch |-> b.sch, au |-> r.au, abs |-> r.abs, segs |-> RemoveDots(r.segs), q |-> r.q]
    ELSE IF r.segs = <<>>
    THEN [b EXCEPT !.q = IF r.q # "" THEN r.q ELSE b.q]
    ELSE IF r.abs
    THEN [b EXCEPT !.abs = TRUE, !.segs = RemoveDots(r.segs), !.q = r.q]
    ELSE [b EXCEPT !.abs = TRUE, !.segs = RemoveDots(ButLast(b.segs) \o r.segs), !.q = r.q]

\* key of an identifier: a base URI and a plain name ("" for the resource itself)
Key(b, name) == <<b, name>>
=============================================================================
