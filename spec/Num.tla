-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact decimal arithmetic on JSON numbers.                               *)
(*                                                                         *)
(* A JSON number is the tuple <<"n", sign, digits, exp>>: its value is     *)
(* sign * d * 10^exp, where d is the natural number whose decimal digits   *)
(* (most significant first) are the sequence `digits'.  The encoding is    *)
(* normalised: zero is <<"n", 0, <<>>, 0>>, otherwise sign is -1 or 1 and  *)
(* neither the first nor the last digit is 0.  Hence two numbers are equal *)
(* iff they are equal as TLA+ values, whatever their JSON notation was.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

NSign(n) == n[2]
NDigs(n) == n[3]
NExp(n)  == n[4]

Zero == <<"n", 0, <<>>, 0>>

NormalNum(n) ==
    /\ NSign(n) \in {-1, 0, 1}
    /\ (NSign(n) = 0) <=> (NDigs(n) = <<>>)
    /\ NSign(n) = 0 => NExp(n) = 0
    /\ NSign(n) # 0 => NDigs(n)[1] # 0 /\ NDigs(n)[Len(NDigs(n))] # 0
    /\ \A i \in 1..Len(NDigs(n)) : NDigs(n)[i] \in 0..9

\* A number is an integer iff it has no fractional part.
IsInteger(n) == NExp(n) >= 0

(* Comparison of magnitudes: 1 if a > b, -1 if a < b, 0 if equal *)
Dig(d, i) == IF i <= Len(d) THEN d[i] ELSE 0

RECURSIVE DigCmp(_, _, _, _)
DigCmp(a, b, i, n) ==
    IF i > n THEN 0
    ELSE IF Dig(a, i) < Dig(b, i) THEN -1
    ELSE IF Dig(a, i) > Dig(b, i) THEN 1
    ELSE DigCmp(a, b, i + 1, n)

Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y

MagCmp(a, b) ==
    LET ma == Len(NDigs(a)) + NExp(a)
        mb == Len(NDigs(b)) + NExp(b)
    IN  IF ma < mb THEN -1
        ELSE IF ma > mb THEN 1
        ELSE DigCmp(NDigs(a), NDigs(b), 1, Max2(Len(NDigs(a)), Len(NDigs(b))))

NCmp(a, b) ==
    IF NSign(a) < NSign(b) THEN -1
    ELSE IF NSign(a) > NSign(b) THEN 1
    ELSE CASE NSign(a) = 0  -> 0
           [] NSign(a) = 1  -> MagCmp(a, b)
           [] NSign(a) = -1 -> 0 - MagCmp(a, b)

NLt(a, b) == NCmp(a, b) < 0
NLe(a, b) == NCmp(a, b) <= 0

(***************************************************************************)
(* Divisibility.  Naturals as digit sequences without leading zeros        *)
(* (zero is the empty sequence).                                           *)
(***************************************************************************)
RECURSIVE StripLead(_)
StripLead(d) == IF d # <<>> /\ d[1] = 0 THEN StripLead(Tail(d)) ELSE d

NatCmp(a, b) ==
    IF Len(a) < Len(b) THEN -1
    ELSE IF Len(a) > Len(b) THEN 1
    ELSE DigCmp(a, b, 1, Len(a))

\* a - b for a >= b
RECURSIVE SubBorrow(_, _, _, _, _)
SubBorrow(a, b, i, borrow, acc) ==
    \* i counts from the least significant digit
    IF i > Len(a) THEN acc
    ELSE LET x == a[Len(a) + 1 - i] - borrow
             y == IF i <= Len(b) THEN b[Len(b) + 1 - i] ELSE 0
             z == x - y
         IN  SubBorrow(a, b, i + 1, IF z < 0 THEN 1 ELSE 0,
                       <<IF z < 0 THEN z + 10 ELSE z>> \o acc)
NatSub(a, b) == StripLead(SubBorrow(a, b, 1, 0, <<>>))

RECURSIVE NatRed(_, _)      \* r mod b by repeated subtraction (r < 10 b)
NatRed(r, b) == IF NatCmp(r, b) < 0 THEN r ELSE NatRed(NatSub(r, b), b)

\* (d * 10^k) mod b by long division
RECURSIVE NatMod(_, _, _, _, _)
NatMod(d, k, b, i, r) ==
    IF i > Len(d) + k THEN r
    ELSE LET x == IF i <= Len(d) THEN d[i] ELSE 0
         IN  IF r = <<>> /\ i > Len(d) THEN <<>>
             ELSE NatMod(d, k, b, i + 1, NatRed(StripLead(Append(r, x)), b))

\* the same for a divisor that fits TLC's integers
RECURSIVE NatOf(_, _, _)
NatOf(d, i, acc) == IF i > Len(d) THEN acc ELSE NatOf(d, i + 1, acc * 10 + d[i])

RECURSIVE SmallMod(_, _, _, _, _)
SmallMod(d, k, b, i, r) ==
    IF i > Len(d) + k THEN r
    ELSE IF r = 0 /\ i > Len(d) THEN 0
    ELSE SmallMod(d, k, b, i + 1, (r * 10 + (IF i <= Len(d) THEN d[i] ELSE 0)) % b)

DivisibleBig(d, k, b)   == NatMod(d, k, b, 1, <<>>) = <<>>
DivisibleSmall(d, k, b) == SmallMod(d, k, NatOf(b, 1, 0), 1, 0) = 0

(* a is an integer multiple of b (b > 0).  With a = s*da*10^ea and         *)
(* b = db*10^eb: if ea >= eb, db must divide da*10^(ea-eb); if ea < eb,    *)
(* db*10^(eb-ea) would have to divide da, which is impossible because da   *)
(* is not divisible by 10.                                                 *)
MultipleOf(a, b) ==
    IF NSign(a) = 0 THEN TRUE
    ELSE IF NExp(a) < NExp(b) THEN FALSE
    ELSE IF Len(NDigs(b)) <= 8 THEN DivisibleSmall(NDigs(a), NExp(a) - NExp(b), NDigs(b))
    ELSE DivisibleBig(NDigs(a), NExp(a) - NExp(b), NDigs(b))

(***************************************************************************)
(* Small naturals as JSON numbers, and clamping of limits.                 *)
(***************************************************************************)
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n = 0 THEN <<>> ELSE Append(DigitsOf(n \div 10), n % 10)

RECURSIVE TrailZeros(_)
TrailZeros(d) == IF d # <<>> /\ d[Len(d)] = 0
                 THEN 1 + TrailZeros(SubSeq(d, 1, Len(d) - 1)) ELSE 0

FromNat(n) ==
    IF n = 0 THEN Zero
    ELSE LET d == DigitsOf(n)
             z == TrailZeros(d)
         IN  <<"n", 1, SubSeq(d, 1, Len(d) - z), z>>
=============================================================================
