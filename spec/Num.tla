--------------------------------- MODULE Num ---------------------------------
(***************************************************************************)
(* Numbers whose double-precision arithmetic is exact and small enough for *)
(* TLC: dyadic rationals <<n, d>> with d a power of two.  Signed zeros are *)
(* <<0,1>> and <<0,-1>>, infinities <<1,0>> and <<-1,0>>, not-a-number     *)
(* <<2,0>>.  Every other double is U, "a number the model does not track". *)
(***************************************************************************)
EXTENDS Text

LIM  == 1073741823
DMAX == 1024
U    == <<0, 0>>
Inf  == <<1, 0>>
NInf == <<-1, 0>>
NaN  == <<2, 0>>
Zero == <<0, 1>>
NZero == <<0, -1>>
One  == <<1, 1>>

Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
FitsMul(a, b) == a = 0 \/ b = 0 \/ Abs(a) <= LIM \div Abs(b)
FitsAdd(a, b) == Abs(a) <= LIM /\ Abs(b) <= LIM /\ Abs(a + b) <= LIM

Known(a)  == a # U
Finite(a) == a[2] # 0
IsZero(a) == Finite(a) /\ a[1] = 0
IsNeg(a)  == a[1] < 0 \/ a = NZero          \* sign bit (not for NaN, U)
IsInt(a)  == a[2] = 1 \/ a = NZero

RECURSIVE PowerOfTwo(_)
PowerOfTwo(d) == d = 1 \/ (d > 1 /\ d % 2 = 0 /\ PowerOfTwo(d \div 2))

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* n, d are integers with d > 0 and n # 0
Mk(n, d) ==
  LET g == Gcd(Abs(n), d)
      nn == IF n < 0 THEN -(Abs(n) \div g) ELSE n \div g
      dd == d \div g
  IN IF Abs(nn) <= LIM /\ dd <= DMAX /\ PowerOfTwo(dd) THEN <<nn, dd>> ELSE U
NInt(n) == IF n = 0 THEN Zero ELSE <<n, 1>>
SZero(neg) == IF neg THEN NZero ELSE Zero

NNeg(a) == IF a = U \/ a = NaN THEN a
           ELSE IF IsZero(a) THEN <<0, -a[2]>> ELSE <<-a[1], a[2]>>
NAbs(a) == IF a = U \/ a = NaN THEN a ELSE IF IsNeg(a) THEN NNeg(a) ELSE a

NAdd(a, b) ==
  CASE a = U \/ b = U -> U
    [] a = NaN \/ b = NaN -> NaN
    [] ~Finite(a) /\ ~Finite(b) -> IF a = b THEN a ELSE NaN
    [] ~Finite(a) -> a
    [] ~Finite(b) -> b
    [] IsZero(a) /\ IsZero(b) -> IF a = NZero /\ b = NZero THEN NZero ELSE Zero
    [] IsZero(a) -> b
    [] IsZero(b) -> a
    [] OTHER ->
       LET d == MaxOf(a[2], b[2])
           fa == d \div a[2]
           fb == d \div b[2]
       IN IF ~FitsMul(a[1], fa) \/ ~FitsMul(b[1], fb) THEN U
          ELSE IF ~FitsAdd(a[1] * fa, b[1] * fb) THEN U
          ELSE LET s == a[1] * fa + b[1] * fb IN IF s = 0 THEN Zero ELSE Mk(s, d)
NSub(a, b) == NAdd(a, NNeg(b))

NMul(a, b) ==
  CASE a = U \/ b = U -> U
    [] a = NaN \/ b = NaN -> NaN
    [] ~Finite(a) \/ ~Finite(b) ->
         IF IsZero(a) \/ IsZero(b) THEN NaN
         ELSE IF IsNeg(a) = IsNeg(b) THEN Inf ELSE NInf
    [] IsZero(a) \/ IsZero(b) -> SZero(IsNeg(a) # IsNeg(b))
    [] OTHER -> IF FitsMul(a[1], b[1]) THEN Mk(a[1] * b[1], a[2] * b[2]) ELSE U

\* b is not zero
NDiv(a, b) ==
  CASE a = U \/ b = U -> U
    [] a = NaN \/ b = NaN -> NaN
    [] ~Finite(a) /\ ~Finite(b) -> NaN
    [] ~Finite(a) -> IF IsNeg(a) = IsNeg(b) THEN Inf ELSE NInf
    [] ~Finite(b) -> SZero(IsNeg(a) # IsNeg(b))
    [] IsZero(a) -> SZero(IsNeg(a) # IsNeg(b))
    [] OTHER ->
       LET bn == Abs(b[1]) IN
       IF ~FitsMul(a[1], b[2]) \/ ~FitsMul(a[2], bn) THEN U
       ELSE Mk((IF b[1] < 0 THEN -1 ELSE 1) * (a[1] * b[2]), a[2] * bn)

RECURSIVE IPow(_, _)
IPow(a, k) == IF k = 0 THEN One ELSE NMul(a, IPow(a, k - 1))

\* comparison of known, ordered numbers: negative, zero or positive
NCmp(a, b) ==
  IF ~Finite(a) \/ ~Finite(b)
  THEN LET w(x) == IF Finite(x) THEN 0 ELSE x[1] IN w(a) - w(b)
  ELSE LET x == NSub(a, b) IN
       IF x # U THEN x[1]
       ELSE (a[1] \div Abs(a[2])) - (b[1] \div Abs(b[2]))
Ordered(a) == a # U /\ a # NaN
NLt(a, b) == Ordered(a) /\ Ordered(b) /\ NCmp(a, b) < 0
NEq(a, b) == Ordered(a) /\ Ordered(b) /\ NCmp(a, b) = 0

\* \div of TLA+ rounds to minus infinity
NFloor(a) == IF a = U \/ ~Finite(a) \/ IsZero(a) THEN a ELSE NInt(a[1] \div a[2])
NCeil(a)  == IF a = U \/ ~Finite(a) \/ IsZero(a) THEN a
             ELSE LET c == -((-a[1]) \div a[2]) IN IF c = 0 THEN SZero(a[1] < 0) ELSE NInt(c)
NTrunc(a) == IF a = U \/ ~Finite(a) \/ IsZero(a) THEN a
             ELSE LET m == Abs(a[1]) \div a[2] IN
                  IF m = 0 THEN SZero(a[1] < 0) ELSE IF a[1] < 0 THEN NInt(-m) ELSE NInt(m)
NRound(a) == IF a = U \/ ~Finite(a) \/ IsZero(a) THEN a   \* halves away from zero
             ELSE LET m == (2 * (Abs(a[1]) \div a[2]) + (2 * (Abs(a[1]) % a[2])) \div a[2] + 1) \div 2 IN
                  IF m = 0 THEN SZero(a[1] < 0) ELSE IF a[1] < 0 THEN NInt(-m) ELSE NInt(m)

(* ----------------------------- literals ------------------------------- *)
RECURSIVE DigitsVal(_, _, _)
DigitsVal(s, i, acc) ==        \* -1 when too large
  IF i > Len(s) THEN acc
  ELSE IF acc > 10000000 THEN -1
  ELSE DigitsVal(s, i + 1, acc * 10 + DigitVal[Ch(s, i)])

Lower == [c \in CharsOf("ABCDEFGHIJKLMNOPQRSTUVWXYZ") |->
            Ch("abcdefghijklmnopqrstuvwxyz", CHOOSE i \in 1..26 : Ch("ABCDEFGHIJKLMNOPQRSTUVWXYZ", i) = c)]
RECURSIVE ToLower(_)
ToLower(s) == IF s = "" THEN "" ELSE
  (IF Ch(s, 1) \in DOMAIN Lower THEN Lower[Ch(s, 1)] ELSE Ch(s, 1)) \o ToLower(From(s, 2))

Dots(s) == {i \in 1..Len(s) : Ch(s, i) = "."}
IsDecimal(s) == /\ \A i \in 1..Len(s) : IsDigit(Ch(s, i))
                /\ \E i \in 1..Len(s) : Ch(s, i) \in Digits
                /\ \A i, j \in Dots(s) : i = j
IsLiteral(s) == IF s = "" THEN FALSE
                ELSE IF IsLetter(Ch(s, 1)) THEN ToLower(s) \in {"inf", "infinity", "nan"}
                ELSE IsDecimal(s)

RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)

RECURSIVE TrimZeros(_)
TrimZeros(s) == IF s # "" /\ Ch(s, Len(s)) = "0" THEN TrimZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s

LiteralVal(s) ==
  IF IsLetter(Ch(s, 1)) THEN (IF ToLower(s) = "nan" THEN NaN ELSE Inf)
  ELSE LET dot == IF Dots(s) = {} THEN Len(s) + 1 ELSE CHOOSE i \in Dots(s) : TRUE
           ip == SubSeq(s, 1, dot - 1)
           fp == TrimZeros(SubSeq(s, dot + 1, Len(s)))
           n == DigitsVal(ip \o fp, 1, 0)
       IN IF n = -1 \/ Len(fp) > 8 THEN U
          ELSE IF n = 0 THEN Zero
          ELSE Mk(n, Pow10(Len(fp)))

(* ------------------- text of a number, 10 significant digits ---------- *)
UText == "?"
RECURSIVE FracText(_, _)
FracText(r, d) == IF r = 0 THEN "" ELSE NatStr((10 * r) \div d) \o FracText((10 * r) % d, d)
RECURSIVE LeadZeros(_)
LeadZeros(s) == IF s # "" /\ Ch(s, 1) = "0" THEN 1 + LeadZeros(From(s, 2)) ELSE 0

NumText(a) ==
  CASE a = U -> UText
    [] a = NaN -> UText              \* printed as nan or -nan
    [] a = Inf -> "inf"
    [] a = NInf -> "-inf"
    [] a = NZero -> "-0"
    [] OTHER ->
       LET ip == Abs(a[1]) \div a[2]
           fr == FracText(Abs(a[1]) % a[2], a[2])
           sig == IF ip > 0 THEN Len(NatStr(ip)) + Len(fr) ELSE Len(fr) - LeadZeros(fr)
       IN IF sig > 10 THEN UText
          ELSE (IF a[1] < 0 THEN "-" ELSE "") \o NatStr(ip) \o (IF fr = "" THEN "" ELSE "." \o fr)
=============================================================================
