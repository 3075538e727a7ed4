------------------------------ MODULE Formats ------------------------------
(***************************************************************************)
(* The languages of the built-in formats, and the format registry's        *)
(* decision.                                                               *)
(*                                                                         *)
(* Lang(f, s, C) is "y" if the code point sequence s is in the language of *)
(* format f, "n" if it is not, and "u" where the documentation leaves the  *)
(* answer open (leniencies of the underlying Go parsers).                  *)
(***************************************************************************)
EXTENDS JSON, Regex

Chr(c)    == <<"chr", c>>
CSet(rs)  == <<"set", FALSE, rs>>
NotIn(rs) == <<"set", TRUE, rs>>
Cat(l)    == <<"cat", l>>
Alt(l)    == <<"alt", l>>
Rep(lo, hi, r) == <<"rep", lo, hi, r>>
Star(r) == Rep(0, -1, r)
Plus(r) == Rep(1, -1, r)
Opt(r)  == Rep(0, 1, r)

Digit == CSet(<<<<48, 57>>>>)
Hex   == CSet(<<<<48, 57>>, <<65, 70>>, <<97, 102>>>>)
Alpha == CSet(<<<<65, 90>>, <<97, 122>>>>)
Alnum == CSet(<<<<48, 57>>, <<65, 90>>, <<97, 122>>>>)
YN(b) == IF b THEN "y" ELSE "n"

(***************************************************************************)
(* Dates and times (RFC 3339, section 5.6)                                 *)
(***************************************************************************)
IsDigit(c) == c \in 48..57
Two(s, i)  == (s[i] - 48) * 10 + (s[i + 1] - 48)
Four(s, i) == Two(s, i) * 100 + Two(s, i + 2)

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
                  [] m \in {4, 6, 9, 11} -> 30
                  [] m = 2 -> IF Leap(y) THEN 29 ELSE 28

RxDate == Cat(<<Rep(4, 4, Digit), Chr(45), Rep(2, 2, Digit), Chr(45), Rep(2, 2, Digit)>>)
IsDate(s) ==
    /\ Len(s) = 10
    /\ FullMatch(RxDate, s)
    /\ Two(s, 6) \in 1..12
    /\ Two(s, 9) \in 1..DaysIn(Four(s, 1), Two(s, 6))

\* zone: Z or a numeric offset with hours 00-23 and minutes 00-59
IsZone(s) ==
    \/ s = <<90>>
    \/ /\ Len(s) = 6 /\ s[1] \in {43, 45} /\ s[4] = 58
       /\ IsDigit(s[2]) /\ IsDigit(s[3]) /\ IsDigit(s[5]) /\ IsDigit(s[6])
       /\ Two(s, 2) \in 0..23 /\ Two(s, 5) \in 0..59
\* the same, also admitting what the documentation leaves open
IsZoneLax(s) ==
    \/ s \in {<<90>>, <<122>>}
    \/ /\ Len(s) = 6 /\ s[1] \in {43, 45} /\ s[4] = 58
       /\ IsDigit(s[2]) /\ IsDigit(s[3]) /\ IsDigit(s[5]) /\ IsDigit(s[6])
       /\ Two(s, 2) \in 0..24 /\ Two(s, 5) \in 0..60

\* length of the digits of s from position i on
RECURSIVE DigitRun(_, _)
DigitRun(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN 1 + DigitRun(s, i + 1) ELSE 0

\* rest of s after "HH:MM:SS" and an optional fraction; <<0>> if there is no such prefix
AfterClock(s, maxSec, seps) ==
    IF /\ Len(s) >= 8
       /\ \A i \in {1, 2, 4, 5, 7, 8} : IsDigit(s[i])
       /\ s[3] = 58 /\ s[6] = 58
       /\ Two(s, 1) \in 0..23 /\ Two(s, 4) \in 0..59 /\ Two(s, 7) \in 0..maxSec
    THEN IF Len(s) > 9 /\ s[9] \in seps /\ DigitRun(s, 10) > 0
         THEN SubSeq(s, 10 + DigitRun(s, 10), Len(s))
         ELSE SubSeq(s, 9, Len(s))
    ELSE <<0>>

IsPartialTime(s) == AfterClock(s, 59, {46}) = <<>>
IsFullTime(s)    == LET r == AfterClock(s, 59, {46}) IN r # <<0>> /\ IsZone(r)

\* one-digit hours, leap seconds, comma fractions, extreme offsets, lower case z
Pad(s) == IF Len(s) >= 2 /\ s[2] = 58 THEN <<48>> \o s ELSE s
LaxTime(s) == LET r == AfterClock(Pad(s), 60, {44, 46}) IN r = <<>> \/ (r # <<0>> /\ IsZoneLax(r))
LaxFullTime(s) == LET r == AfterClock(Pad(s), 60, {44, 46}) IN r # <<0>> /\ IsZoneLax(r)

TimeLang(s) ==
    IF IsPartialTime(s) \/ IsFullTime(s) THEN "y" ELSE IF LaxTime(s) THEN "u" ELSE "n"

IsDateTime(s, sep, Tm(_)) ==
    Len(s) > 11 /\ s[11] \in sep /\ IsDate(SubSeq(s, 1, 10)) /\ Tm(SubSeq(s, 12, Len(s)))

DateTimeLang(s) ==
    IF IsDate(s) \/ IsPartialTime(s) \/ IsFullTime(s) \/ IsDateTime(s, {84}, IsFullTime) THEN "y"
    ELSE IF LaxTime(s) \/ IsDateTime(s, {84, 116}, LaxFullTime) THEN "u"
    ELSE "n"

(***************************************************************************)
(* Network names and addresses                                             *)
(***************************************************************************)
\* split s at every occurrence of code point c
RECURSIVE Split(_, _, _, _, _)
Split(s, c, i, cur, acc) ==
    IF i > Len(s) THEN Append(acc, cur)
    ELSE IF s[i] = c THEN Split(s, c, i + 1, <<>>, Append(acc, cur))
    ELSE Split(s, c, i + 1, Append(cur, s[i]), acc)
Fields(s, c) == Split(s, c, 1, <<>>, <<>>)

IsOctet(s) ==
    /\ Len(s) \in 1..3
    /\ \A i \in 1..Len(s) : IsDigit(s[i])
    /\ Len(s) > 1 => s[1] # 48
    /\ NatOf([i \in 1..Len(s) |-> s[i] - 48], 1, 0) <= 255
IsIPv4(s) == LET f == Fields(s, 46) IN Len(f) = 4 /\ \A i \in 1..4 : IsOctet(f[i])

IsHextet(s) == Len(s) \in 1..4 /\ \A i \in 1..Len(s) : s[i] \in (48..57) \union (65..70) \union (97..102)

\* number of 16 bit groups a list of colon separated fields stands for, -1 if malformed;
\* the last field may be an IPv4 address if v4 is set
GroupCount(f, v4) ==
    IF f = <<>> THEN 0
    ELSE IF \A i \in 1..Len(f) : IsHextet(f[i]) THEN Len(f)
    ELSE IF v4 /\ (\A i \in 1..(Len(f) - 1) : IsHextet(f[i])) /\ IsIPv4(f[Len(f)]) THEN Len(f) + 1
    ELSE -1

IsIPv6(s) ==
    LET f == Fields(s, 58)
        \* empty fields; "::" shows as one (or two at the ends, three for "::" itself)
        gaps == {i \in 1..(Len(s) - 1) : s[i] = 58 /\ s[i + 1] = 58}
        tripled == \E i \in gaps : i + 1 \in gaps
        FieldsOf(t) == IF t = <<>> THEN <<>> ELSE Fields(t, 58)
    IN  /\ \E i \in 1..Len(s) : s[i] = 58
        /\ IF gaps = {} THEN GroupCount(f, TRUE) = 8
           ELSE /\ Cardinality(gaps) = 1 /\ ~tripled
                /\ LET g == CHOOSE i \in gaps : TRUE
                       l == GroupCount(FieldsOf(SubSeq(s, 1, g - 1)), FALSE)
                       r == GroupCount(FieldsOf(SubSeq(s, g + 2, Len(s))), TRUE)
                   IN  l >= 0 /\ r >= 0 /\ l + r <= 7

AlnumC(c) == IsDigit(c) \/ c \in 65..90 \/ c \in 97..122
IsLabel(l) ==
    /\ Len(l) \in 1..63
    /\ AlnumC(l[1]) /\ AlnumC(l[Len(l)])
    /\ \A i \in 1..Len(l) : AlnumC(l[i]) \/ l[i] = 45
HostnameLang(s) ==
    LET f == Fields(s, 46)
    IN  IF ~(\A i \in 1..Len(f) : IsLabel(f[i])) \/ Len(s) > 255 THEN "n"
        ELSE IF Len(s) <= 253 THEN "y" ELSE "u"

RxUUID == Cat(<<Rep(8, 8, Hex), Chr(45), Rep(4, 4, Hex), Chr(45), Rep(4, 4, Hex), Chr(45),
                Rep(4, 4, Hex), Chr(45), Rep(12, 12, Hex)>>)

(***************************************************************************)
(* Pointers                                                                *)
(***************************************************************************)
RECURSIVE IsPointerFrom(_, _)
\* every ~ is followed by 0 or 1
IsPointerFrom(s, i) ==
    IF i > Len(s) THEN TRUE
    ELSE IF s[i] = 126 THEN i < Len(s) /\ s[i + 1] \in {48, 49} /\ IsPointerFrom(s, i + 2)
    ELSE IsPointerFrom(s, i + 1)
IsPointer(s) == s = <<>> \/ (s[1] = 47 /\ IsPointerFrom(s, 1))
IsRelPointer(s) ==
    LET n == DigitRun(s, 1)
        rest == SubSeq(s, n + 1, Len(s))
    IN  n > 0 /\ (s[1] = 48 => n = 1) /\ (rest = <<35>> \/ IsPointer(rest))

(***************************************************************************)
(* E-mail addresses (addr-spec with dot-atoms)                             *)
(***************************************************************************)
\* ! # $ % & ' * + - / = ? ^ _ ` { | } ~ and alphanumerics
AtextC(c) == AlnumC(c) \/ c \in {33, 35, 36, 37, 38, 39, 42, 43, 45, 47, 61, 63, 94, 95, 96, 123, 124, 125, 126}
IsDotAtom(s) == LET f == Fields(s, 46)
                IN  \A i \in 1..Len(f) : Len(f[i]) > 0 /\ \A j \in 1..Len(f[i]) : AtextC(f[i][j])
\* a quoted local part without escapes
IsQuoted(s) == /\ Len(s) > 2 /\ s[1] = 34 /\ s[Len(s)] = 34
               /\ \A i \in 2..(Len(s) - 1) : s[i] \in 33..126 /\ s[i] \notin {34, 92}
\* intl: letters outside ASCII are letters
Letters(s, intl) == [i \in 1..Len(s) |-> IF intl /\ s[i] >= 192 /\ s[i] < 55296 THEN 97 ELSE s[i]]
EmailLang(s0, intl) ==
    LET s == Letters(s0, intl)
        f == Fields(s, 64)
        n == Len(f[Len(f)])
        local == SubSeq(s, 1, Len(s) - n - 1)      \* before the last @, which a quoted part may contain
    IN  IF Len(f) >= 2 /\ (IsDotAtom(local) \/ IsQuoted(local)) /\ IsDotAtom(f[Len(f)]) THEN "y"
        ELSE IF \A i \in 1..Len(s) : AtextC(s[i]) \/ s[i] \in {46, 64} THEN "n"
        ELSE "u"

(***************************************************************************)
(* URIs (RFC 3986)                                                         *)
(***************************************************************************)
Pct == Cat(<<Chr(37), Hex, Hex>>)
\* unreserved and sub-delims
UnresSub == CSet(<<<<48, 57>>, <<65, 90>>, <<97, 122>>, <<45, 46>>, <<95, 95>>, <<126, 126>>,
                   <<33, 33>>, <<36, 36>>, <<38, 44>>, <<59, 59>>, <<61, 61>>>>)
PChar   == Alt(<<UnresSub, Pct, CSet(<<<<58, 58>>, <<64, 64>>>>)>>)
PCharNC == Alt(<<UnresSub, Pct, Chr(64)>>)      \* no colon
HostC   == CSet(<<<<48, 57>>, <<65, 90>>, <<97, 122>>, <<45, 46>>, <<95, 95>>, <<126, 126>>>>)
Segs    == Star(Cat(<<Chr(47), Star(PChar)>>))
Tail1   == Cat(<<Opt(Cat(<<Chr(63), Star(Alt(<<PChar, CSet(<<<<47, 47>>, <<63, 63>>>>)>>))>>)),
                 Opt(Cat(<<Chr(35), Star(Alt(<<PChar, CSet(<<<<47, 47>>, <<63, 63>>>>)>>))>>))>>)
Userinfo == Opt(Cat(<<Plus(HostC), Opt(Cat(<<Chr(58), Star(HostC)>>)), Chr(64)>>))
Author  == Cat(<<Chr(47), Chr(47), Userinfo, Plus(HostC), Opt(Cat(<<Chr(58), Star(Digit)>>)), Segs>>)
Scheme  == Cat(<<Alpha, Star(CSet(<<<<48, 57>>, <<65, 90>>, <<97, 122>>, <<43, 43>>, <<45, 46>>>>)), Chr(58)>>)
AbsPath == Cat(<<Chr(47), Opt(Cat(<<Plus(PChar), Segs>>))>>)
RootlessPath == Cat(<<Plus(PChar), Segs>>)
NoSchemePath == Cat(<<Plus(PCharNC), Segs>>)
RxURI == Cat(<<Scheme, Alt(<<Author, AbsPath, RootlessPath>>), Tail1>>)
RxRel == Cat(<<Alt(<<Author, AbsPath, NoSchemePath, Cat(<<>>)>>), Tail1>>)

HasCtl(s) == \E i \in 1..Len(s) : s[i] < 32 \/ s[i] = 127
HasBackslash(s) == \E i \in 1..Len(s) : s[i] = 92
IsHexC(c) == c \in (48..57) \union (65..70) \union (97..102)
BadEscape(s) == \E i \in 1..Len(s) : s[i] = 37 /\ ~(i + 2 <= Len(s) /\ IsHexC(s[i + 1]) /\ IsHexC(s[i + 2]))
\* s up to and from the first c on
RECURSIVE PosOf(_, _, _)
PosOf(s, c, i) == IF i > Len(s) THEN Len(s) + 1 ELSE IF s[i] = c THEN i ELSE PosOf(s, c, i + 1)
Before(s, c) == SubSeq(s, 1, PosOf(s, c, 1) - 1)
After(s, c)  == SubSeq(s, PosOf(s, c, 1) + 1, Len(s))
HasScheme(s) == \E i \in 0..Len(s) : i \in Ends(Scheme, s, 0)
\* the first segment of a reference without scheme contains a colon
ColonFirst(s) ==
    ~HasScheme(s) /\ \E i \in 1..Len(s) : s[i] = 58 /\ \A j \in 1..i : s[j] \notin {47, 63, 35}

\* a malformed escape in the path (or authority) of a hierarchical reference, or in the fragment
Hier(s)    == LET b == Before(Before(s, 35), 63)
              IN  IF HasScheme(b) THEN After(b, 58) ELSE b
BadPath(s) ==
    \/ BadEscape(After(s, 35))
    \/ LET h == Hier(s) IN BadEscape(h) /\ (HasScheme(s) => h # <<>> /\ h[1] = 47)
\* a port that is not a number, after a plain host name
RxBadPort == Cat(<<Opt(Scheme), Chr(47), Chr(47), Plus(HostC), Chr(58), Star(Digit), HostC, Star(HostC), Opt(Cat(<<Chr(47), Star(NotIn(<<>>))>>))>>)
RxGoodPort == Cat(<<Opt(Scheme), Chr(47), Chr(47), Plus(HostC), Chr(58), Star(Digit), Opt(Cat(<<Chr(47), Star(NotIn(<<>>))>>))>>)
BadPort(s) == FullMatch(RxBadPort, s) /\ ~FullMatch(RxGoodPort, s)

UriLang(s) ==
    IF FullMatch(RxURI, s) THEN "y"
    ELSE IF ~HasScheme(s) \/ HasBackslash(s) \/ HasCtl(Before(s, 35)) \/ BadPath(s) \/ BadPort(s) THEN "n" ELSE "u"
UriRefLang(s) ==
    IF FullMatch(RxURI, s) \/ FullMatch(RxRel, s) THEN "y"
    ELSE IF HasBackslash(s) \/ HasCtl(Before(s, 35)) \/ ColonFirst(s) \/ BadPath(s) \/ BadPort(s) THEN "n" ELSE "u"
\* internationalised forms: additional code points from 160 on
Asciied(s) == [i \in 1..Len(s) |-> IF s[i] >= 160 THEN 126 ELSE s[i]]
\* (left open in the user information, the part of the authority before its last @)
UserPart(s) == LET h == Hier(s)
                   a == IF Len(h) > 1 /\ h[1] = 47 /\ h[2] = 47 THEN Before(SubSeq(h, 3, Len(h)), 47) ELSE <<>>
                   e == {i \in 1..Len(a) : a[i] = 64}
               IN  IF e = {} THEN <<>> ELSE SubSeq(a, 1, (CHOOSE i \in e : \A j \in e : j <= i) - 1)
OnlyPathIntl(s) == /\ \A i \in 1..Len(s) : s[i] < 128 \/ s[i] >= 160
                   /\ \A i \in 1..Len(UserPart(s)) : UserPart(s)[i] < 128
IriLang(s) == IF \E i \in 1..Len(s) : s[i] > 127
              THEN IF UriLang(Asciied(s)) = "y" /\ OnlyPathIntl(s) /\ HasScheme(s) THEN "y"
                   ELSE IF UriLang(Asciied(s)) = "n" THEN "n" ELSE "u"
              ELSE UriLang(s)
IriRefLang(s) == IF \E i \in 1..Len(s) : s[i] > 127
              THEN IF UriRefLang(Asciied(s)) = "y" /\ OnlyPathIntl(s) THEN "y"
                   ELSE IF UriRefLang(Asciied(s)) = "n" THEN "n" ELSE "u"
              ELSE UriRefLang(s)

(* URI templates (RFC 6570): literals and {operator variable-list} *)
VarChar == CSet(<<<<48, 57>>, <<65, 90>>, <<97, 122>>, <<95, 95>>>>)
VarName == Cat(<<Plus(VarChar), Star(Cat(<<Chr(46), Plus(VarChar)>>))>>)
VarSpec == Cat(<<VarName, Opt(Alt(<<Chr(42), Cat(<<Chr(58), CSet(<<<<49, 57>>>>), Rep(0, 3, Digit)>>)>>))>>)
Oper    == CSet(<<<<43, 43>>, <<35, 35>>, <<46, 47>>, <<59, 59>>, <<63, 63>>, <<38, 38>>>>)
Expr    == Cat(<<Chr(123), Opt(Oper), VarSpec, Star(Cat(<<Chr(44), VarSpec>>)), Chr(125)>>)

\* s without its brace expressions; <<0>> marks unbalanced braces
RECURSIVE Literals(_, _, _, _, _)
Literals(s, i, open, cur, out) ==
    IF i > Len(s) THEN IF open THEN [ok |-> FALSE, lit |-> out, ex |-> <<>>] ELSE [ok |-> TRUE, lit |-> out, ex |-> cur]
    ELSE IF s[i] = 123 THEN IF open THEN [ok |-> FALSE, lit |-> out, ex |-> <<>>]
                            ELSE Literals(s, i + 1, TRUE, Append(cur, <<123>>), out)
    ELSE IF s[i] = 125 THEN IF ~open THEN [ok |-> FALSE, lit |-> out, ex |-> <<>>]
                            ELSE Literals(s, i + 1, FALSE,
                                          [cur EXCEPT ![Len(cur)] = Append(cur[Len(cur)], 125)], out)
    ELSE IF open THEN Literals(s, i + 1, TRUE, [cur EXCEPT ![Len(cur)] = Append(cur[Len(cur)], s[i])], out)
    ELSE Literals(s, i + 1, FALSE, cur, Append(out, s[i]))

UriTemplateLang(s) ==
    LET t == Literals(s, 1, FALSE, <<>>, <<>>)
    IN  IF ~t.ok \/ HasBackslash(s) THEN "n"
        ELSE IF UriRefLang(t.lit) = "y" /\ \A i \in 1..Len(t.ex) : FullMatch(Expr, t.ex[i]) THEN "y"
        ELSE IF UriRefLang(t.lit) = "n" THEN "n"
        ELSE "u"

(***************************************************************************)
(* The built-in checkers                                                   *)
(***************************************************************************)
BuiltIn == {"date", "time", "date-time", "hostname", "email", "idn-email", "ipv4", "ipv6", "uri",
            "uri-reference", "iri", "iri-reference", "uri-template", "uuid", "regex",
            "json-pointer", "relative-json-pointer"}

\* re: the expression s denotes, <<"unknown">> if not known to the specification
Lang(f, s, re) ==
    CASE f = "date"      -> YN(IsDate(s))
      [] f = "time"      -> TimeLang(s)
      [] f = "date-time" -> DateTimeLang(s)
      [] f = "hostname"  -> HostnameLang(s)
      [] f \in {"email", "idn-email"} -> EmailLang(s, f = "idn-email")
      [] f = "ipv4"      -> YN(IsIPv4(s))
      [] f = "ipv6"      -> YN(IsIPv6(s))
      [] f = "uri"       -> UriLang(s)
      [] f = "uri-reference" -> UriRefLang(s)
      [] f = "iri"       -> IriLang(s)
      [] f = "iri-reference" -> IriRefLang(s)
      [] f = "uri-template"  -> UriTemplateLang(s)
      [] f = "uuid"      -> YN(Len(s) = 36 /\ FullMatch(RxUUID, s))
      [] f = "regex"     -> IF s = <<>> THEN "y" ELSE IF re[1] = "unknown" THEN "u" ELSE YN(re[1] # "bad")
      [] f = "json-pointer"  -> YN(IsPointer(s))
      [] f = "relative-json-pointer" -> YN(IsRelPointer(s))

(***************************************************************************)
(* The registry maps names to checkers:                                    *)
(*   <<"std", f>>      the built-in checker of format f                    *)
(*   <<"const", b>>    a user checker that always answers b                *)
(*   <<"types", T>>    ... that accepts the values of the types T          *)
(*   <<"maxlen", n>>   ... strings of at most n code points, and all else  *)
(*   <<"eq", v>>       ... exactly the value v                             *)
(*   <<"num", n>>      ... numbers greater than n, nothing else            *)
(* A name without checker accepts everything.                              *)
(***************************************************************************)
ReOf(s, C) == IF s \in DOMAIN C.re THEN C.re[s] ELSE <<"unknown">>

CheckerOk(ck, x, C) ==
    CASE ck[1] = "std"    -> IsStr(x) => Lang(ck[2], C.str[x[2]], ReOf(x[2], C)) = "y"
      [] ck[1] = "const"  -> ck[2]
      [] ck[1] = "types"  -> \E i \in 1..Len(ck[2]) : HasType(x, ck[2][i])
      [] ck[1] = "maxlen" -> IsStr(x) => Len(C.str[x[2]]) <= ck[2]
      [] ck[1] = "eq"     -> x = ck[2]
      [] ck[1] = "num"    -> IsNum(x) /\ NLt(ck[2], x)

FormatOk(name, x, C) == name \in DOMAIN C.fm => CheckerOk(C.fm[name], x, C)
StdFormats == [f \in BuiltIn |-> <<"std", f>>]
=============================================================================
