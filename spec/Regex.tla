------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* Regular expressions over code points, by sets of end positions.         *)
(* Expressions:                                                            *)
(*   <<"chr", c>>  <<"any">>  <<"set", negated, <<<<lo, hi>>, ...>>>>      *)
(*   <<"cat", <<r, ...>>>>  <<"alt", <<r, ...>>>>                          *)
(*   <<"rep", min, max, r>>   (max = -1: unbounded)                        *)
(*   <<"bol">>  <<"eol">>  <<"wb">> <<"nwb">>                              *)
(*   <<"bad">>: a string that is not a regular expression                  *)
(* Ends(r, s, i) is the set of all positions j such that r matches the     *)
(* part of s after position i up to and including position j.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

IsWord(c) == c \in 48..57 \/ c \in 65..90 \/ c = 95 \/ c \in 97..122
WordAt(s, i) == i >= 1 /\ i <= Len(s) /\ IsWord(s[i])
Boundary(s, i) == WordAt(s, i) # WordAt(s, i + 1)

RECURSIVE Ends(_, _, _), CatEnds(_, _, _, _), RepMin(_, _, _, _), RepMore(_, _, _, _, _)

EndsFrom(r, s, I) == UNION {Ends(r, s, i) : i \in I}

CatEnds(rs, k, s, I) ==
    IF k > Len(rs) \/ I = {} THEN I ELSE CatEnds(rs, k + 1, s, EndsFrom(rs[k], s, I))

RepMin(r, n, s, I) == IF n = 0 \/ I = {} THEN I ELSE RepMin(r, n - 1, s, EndsFrom(r, s, I))

\* `all' collects the positions after 0, 1, ... further repetitions
RepMore(r, n, s, new, all) ==
    IF n = 0 \/ new = {} THEN all
    ELSE LET next == EndsFrom(r, s, new) \ all
         IN  RepMore(r, n - 1, s, next, all \union next)

Ends(r, s, i) ==
    CASE r[1] = "chr" -> IF i < Len(s) /\ s[i + 1] = r[2] THEN {i + 1} ELSE {}
      [] r[1] = "any" -> IF i < Len(s) /\ s[i + 1] # 10 THEN {i + 1} ELSE {}
      [] r[1] = "set" -> IF i < Len(s) /\ ((\E k \in 1..Len(r[3]) :
                               r[3][k][1] <= s[i + 1] /\ s[i + 1] <= r[3][k][2]) # r[2])
                         THEN {i + 1} ELSE {}
      [] r[1] = "cat" -> CatEnds(r[2], 1, s, {i})
      [] r[1] = "alt" -> UNION {Ends(r[2][k], s, i) : k \in 1..Len(r[2])}
      [] r[1] = "rep" -> LET base == RepMin(r[4], r[2], s, {i})
                         IN  IF r[3] = -1 THEN RepMore(r[4], -1, s, base, base)
                             ELSE RepMore(r[4], r[3] - r[2], s, base, base)
      [] r[1] = "bol" -> IF i = 0 THEN {i} ELSE {}
      [] r[1] = "eol" -> IF i = Len(s) THEN {i} ELSE {}
      [] r[1] = "wb"  -> IF Boundary(s, i) THEN {i} ELSE {}
      [] r[1] = "nwb" -> IF ~Boundary(s, i) THEN {i} ELSE {}

\* unanchored search
Search(r, s) == \E i \in 0..Len(s) : Ends(r, s, i) # {}
FullMatch(r, s) == Len(s) \in Ends(r, s, 0)
=============================================================================
