------------------------------- MODULE Values -------------------------------
(* The values that cheval computes with, as tagged tuples:                    *)
(*   <<"n", num, den>>  an exact rational in lowest terms, den > 0            *)
(*   <<"nan">> <<"pinf">> <<"ninf">>                                          *)
(*   <<"b", 0 or 1>>    a boolean                                             *)
(*   <<"s", <<codes>>>> text, as the sequence of its character codes          *)
(*   <<"any">>          a value about which the specification says nothing    *)
(* Missing values of every type (None, NaN, NaT, NA) are <<"nan">>.           *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

NaN  == <<"nan">>
PInf == <<"pinf">>
NInf == <<"ninf">>
Unspec  == <<"any">>
Num(n, d) ==
    IF d = 1 THEN <<"n", n, 1>>
    ELSE LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1
         IN <<"n", s * (n \div g), s * (d \div g)>>
IntV(n) == <<"n", n, 1>>
Bool(b) == <<"b", IF b THEN 1 ELSE 0>>

IsNum(v) == v[1] = "n"
IsAny(v) == v[1] = "any"
IsNaN(v) == v[1] = "nan"
IsBool(v) == v[1] = "b"
IsText(v) == v[1] = "s"
IsLn(v) == v[1] = "ln"
IsInf(v) == v[1] \in {"pinf", "ninf"}
IsTrue(v) == v = <<"b", 1>>

\* Booleans count as 0 and 1 where a number is needed
AsNum(v) == IF v[1] = "b" THEN <<"n", v[2], 1>> ELSE v

Sign(v) == CASE v[1] = "n" -> (IF v[2] > 0 THEN 1 ELSE IF v[2] < 0 THEN -1 ELSE 0)
             [] v[1] = "pinf" -> 1
             [] v[1] = "ninf" -> -1
InfOf(sign) == IF sign > 0 THEN PInf ELSE NInf

Neg0(v) == CASE v[1] = "n" -> <<"n", -v[2], v[3]>>
             [] v[1] = "pinf" -> NInf
             [] v[1] = "ninf" -> PInf
             [] OTHER -> v
Neg(v) == Neg0(AsNum(v))

Add0(a, b) ==
    CASE IsAny(a) \/ IsAny(b) -> Unspec
      [] IsNaN(a) \/ IsNaN(b) -> NaN
      [] IsText(a) \/ IsText(b) -> Unspec
      [] IsInf(a) /\ IsInf(b) -> IF a = b THEN a ELSE NaN
      [] IsInf(a) -> a
      [] IsInf(b) -> b
      [] a[3] = b[3] -> Num(a[2] + b[2], a[3])
      [] OTHER -> Num(a[2] * b[3] + b[2] * a[3], a[3] * b[3])
Add(a, b) == Add0(AsNum(a), AsNum(b))
Sub(a, b) == Add0(AsNum(a), Neg(b))

Mul0(a, b) ==
    CASE IsAny(a) \/ IsAny(b) -> Unspec
      [] IsNaN(a) \/ IsNaN(b) -> NaN
      [] IsText(a) \/ IsText(b) -> Unspec
      [] IsInf(a) \/ IsInf(b) ->
            IF Sign(a) * Sign(b) = 0 THEN NaN ELSE InfOf(Sign(a) * Sign(b))
      [] OTHER -> Num(a[2] * b[2], a[3] * b[3])
Mul(a, b) == Mul0(AsNum(a), AsNum(b))

Div0(a, b) ==
    CASE IsAny(a) \/ IsAny(b) -> Unspec
      [] IsNaN(a) \/ IsNaN(b) -> NaN
      [] IsText(a) \/ IsText(b) -> Unspec
      [] IsInf(a) /\ IsInf(b) -> NaN
      [] IsInf(b) -> IntV(0)
      [] IsInf(a) -> IF Sign(b) = 0 THEN Unspec ELSE InfOf(Sign(a) * Sign(b))
      [] b[2] = 0 -> Unspec                      \* depends on the machine types
      [] OTHER -> Num(a[2] * b[3], a[3] * b[2])
Div(a, b) == Div0(AsNum(a), AsNum(b))

RECURSIVE PowInt(_, _)
PowInt(a, k) == IF k = 0 THEN IntV(1) ELSE Mul(a, PowInt(a, k - 1))
Pow(a, b) ==
    LET x == AsNum(a) y == AsNum(b) IN
    CASE IsAny(x) \/ IsAny(y) -> Unspec
      [] IsNum(y) /\ y[3] = 1 /\ y[2] \in 0..4 /\ IsNum(x) -> PowInt(x, y[2])
      [] IsNaN(x) /\ IsNum(y) /\ y[2] > 0 -> NaN
      [] OTHER -> Unspec

\* Remainders and whole quotients, where all conventions agree
Mod(a, b) ==
    LET x == AsNum(a) y == AsNum(b) IN
    IF IsNum(x) /\ IsNum(y) /\ x[3] = 1 /\ y[3] = 1 /\ x[2] >= 0 /\ y[2] > 0 THEN IntV(x[2] % y[2])
    ELSE Unspec
FloorDiv(a, b) ==
    LET x == AsNum(a) y == AsNum(b) IN
    IF IsNum(x) /\ IsNum(y) /\ x[3] = 1 /\ y[3] = 1 /\ x[2] >= 0 /\ y[2] > 0 THEN IntV(x[2] \div y[2])
    ELSE Unspec

NumLess(a, b) == \* neither is NaN
    CASE a = b -> FALSE
      [] a[1] = "ninf" -> TRUE
      [] b[1] = "ninf" -> FALSE
      [] a[1] = "pinf" -> FALSE
      [] b[1] = "pinf" -> TRUE
      [] OTHER -> a[2] * b[3] < b[2] * a[3]

RECURSIVE SeqLess(_, _)
SeqLess(s, t) ==
    CASE Len(t) = 0 -> FALSE
      [] Len(s) = 0 -> TRUE
      [] s[1] # t[1] -> s[1] < t[1]
      [] OTHER -> SeqLess(Tail(s), Tail(t))

Less0(a, b) == IF IsText(a) THEN SeqLess(a[2], b[2]) ELSE NumLess(a, b)

\* A comparison; the result is a boolean value, or Unspec
Compare(op, a0, b0) ==
    LET a == AsNum(a0) b == AsNum(b0) IN
    CASE IsAny(a) \/ IsAny(b) -> Unspec
      [] IsNaN(a) \/ IsNaN(b) -> Bool(op = "!=")
      [] IsText(a) # IsText(b) -> Unspec
      [] op = "==" -> Bool(a = b)
      [] op = "!=" -> Bool(a # b)
      [] op = "<"  -> Bool(Less0(a, b))
      [] op = ">"  -> Bool(Less0(b, a))
      [] op = "<=" -> Bool(a = b \/ Less0(a, b))
      [] op = ">=" -> Bool(a = b \/ Less0(b, a))

Not(a) == IF IsBool(a) THEN <<"b", 1 - a[2]>> ELSE Unspec
And(a, b) == IF IsBool(a) /\ IsBool(b) THEN <<"b", a[2] * b[2]>> ELSE Unspec
Or(a, b) == IF IsBool(a) /\ IsBool(b) THEN <<"b", IF a[2] + b[2] > 0 THEN 1 ELSE 0>> ELSE Unspec
Xor(a, b) == IF IsBool(a) /\ IsBool(b) THEN <<"b", IF a[2] + b[2] = 1 THEN 1 ELSE 0>> ELSE Unspec

MaxV(a0, b0) ==
    LET a == AsNum(a0) b == AsNum(b0) IN
    CASE IsAny(a) \/ IsAny(b) -> Unspec
      [] IsNaN(a) \/ IsNaN(b) -> NaN
      [] OTHER -> IF NumLess(a, b) THEN b ELSE a
MinV(a0, b0) ==
    LET a == AsNum(a0) b == AsNum(b0) IN
    CASE IsAny(a) \/ IsAny(b) -> Unspec
      [] IsNaN(a) \/ IsNaN(b) -> NaN
      [] OTHER -> IF NumLess(b, a) THEN b ELSE a

\* Exact square roots only
RECURSIVE ISqrt(_, _)
ISqrt(n, k) == IF k * k >= n THEN k ELSE ISqrt(n, k + 1)
Sqrt(v) ==
    LET x == AsNum(v) IN
    CASE x[1] # "n" -> Unspec
      [] x[2] < 0 -> Unspec
      [] OTHER -> LET p == ISqrt(x[2], 0) q == ISqrt(x[3], 0)
                  IN IF p * p = x[2] /\ q * q = x[3] THEN Num(p, q) ELSE Unspec

Floor(v) == LET x == AsNum(v) IN IF IsNum(x) THEN IntV(x[2] \div x[3]) ELSE x
Ceil(v) == LET x == AsNum(v) IN IF IsNum(x) THEN IntV(-((-x[2]) \div x[3])) ELSE x
AbsV(v) == LET x == AsNum(v) IN
    IF IsNum(x) THEN <<"n", Abs(x[2]), x[3]>> ELSE IF IsInf(x) THEN PInf ELSE x
Trunc(v) == LET x == AsNum(v) IN IF IsNum(x) /\ x[2] < 0 THEN Ceil(x) ELSE Floor(x)
\* Rounding to the even neighbour when halfway
Round(v) == LET x == AsNum(v) IN
    IF ~IsNum(x) THEN x
    ELSE LET lo == x[2] \div x[3]
             d == 2 * (x[2] - lo * x[3]) - x[3]
         IN IF d < 0 \/ (d = 0 /\ lo % 2 = 0) THEN IntV(lo) ELSE IntV(lo + 1)
\* The remainder with the sign of the dividend
Fmod(a, b) ==
    LET x == AsNum(a) y == AsNum(b) IN
    IF IsNum(x) /\ IsNum(y) /\ y[2] # 0 THEN Sub(x, Mul(y, Trunc(Div(x, y))))
    ELSE IF IsNaN(x) \/ IsNaN(y) THEN NaN ELSE Unspec
\* Logarithms are kept as such
Ln(v) == LET x == AsNum(v) IN
    CASE IsNum(x) -> IF x[2] > 0 THEN <<"ln", x[2], x[3]>> ELSE IF x[2] = 0 THEN NInf ELSE Unspec
      [] OTHER -> IF x = PInf \/ IsNaN(x) THEN x ELSE Unspec
Exp(v) ==
    LET x == AsNum(v) IN
    CASE x[1] = "ln" -> Num(x[2], x[3])
      [] x = NInf -> IntV(0)
      [] x = IntV(0) -> IntV(1)
      [] IsNaN(x) -> NaN
      [] x = PInf -> PInf
      [] OTHER -> Unspec
Log10(v) ==
    LET x == AsNum(v) IN
    CASE x = IntV(1) -> IntV(0) [] x = IntV(10) -> IntV(1) [] x = IntV(100) -> IntV(2) [] x = IntV(0) -> NInf
      [] IsNaN(x) -> NaN [] OTHER -> Unspec
IsPart(s, t) == \E k \in 0..(Len(t) - Len(s)) : SubSeq(t, k + 1, k + Len(s)) = s
Contains(a, b) == IF IsText(a) /\ IsText(b) THEN Bool(IsPart(b[2], a[2])) ELSE Unspec
SignV(v) == LET x == AsNum(v) IN
    IF IsAny(x) THEN Unspec ELSE IF IsNaN(x) \/ IsText(x) THEN x ELSE IntV(Sign(x))

\* Whether an observed value is the expected one. Numbers and booleans may stand for each other here, because an
\* array has one machine type for all of its cells.
Match(exp, obs) == IsAny(exp) \/ AsNum(exp) = AsNum(obs)

-----------------------------------------------------------------------------
\* Sequences of values
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN IntV(0) ELSE Add(Head(s), SumSeq(Tail(s)))
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN IntV(1) ELSE Mul(Head(s), ProdSeq(Tail(s)))
RECURSIVE MaxSeq(_)
MaxSeq(s) == IF Len(s) = 1 THEN AsNum(s[1]) ELSE MaxV(Head(s), MaxSeq(Tail(s)))
RECURSIVE MinSeq(_)
MinSeq(s) == IF Len(s) = 1 THEN AsNum(s[1]) ELSE MinV(Head(s), MinSeq(Tail(s)))
RECURSIVE InsertSorted(_, _)
InsertSorted(v, s) == IF s = <<>> THEN <<v>>
                      ELSE IF NumLess(v, Head(s)) THEN <<v>> \o s ELSE <<Head(s)>> \o InsertSorted(v, Tail(s))
RECURSIVE SortSeqV(_)
SortSeqV(s) == IF s = <<>> THEN <<>> ELSE InsertSorted(AsNum(Head(s)), SortSeqV(Tail(s)))

HasAny(s) == \E i \in DOMAIN s : IsAny(s[i])
HasInf(s) == \E i \in DOMAIN s : IsInf(s[i])

\* The statistic named f of a sequence of values, as pandas defines it (nulls are ignored, except by nth).
\* The standard deviation is given as its square. q is the argument of nth or quantile.
Quantile(s, q) ==
    LET srt == SortSeqV(s)
        pos == Mul(q, IntV(Len(s) - 1))
        lo == pos[2] \div pos[3]
        frac == Sub(pos, IntV(lo))
        a == srt[lo + 1]
        b == IF lo + 2 <= Len(s) THEN srt[lo + 2] ELSE a
    IN Add(a, Mul(frac, Sub(b, a)))
Variance(s) ==
    LET n == Len(s)
        m == Div(SumSeq(s), IntV(n))
        dev == [i \in 1..n |-> LET d == Sub(s[i], m) IN Mul(d, d)]
    IN Div(SumSeq(dev), IntV(n - 1))
Statistic(f, all, q) ==
    LET s == SelectSeq(all, LAMBDA v : ~IsNaN(v)) IN
    CASE HasAny(s) -> Unspec
      [] f = "count" -> IntV(Len(s))
      [] f = "sum" -> SumSeq(s)
      [] f = "prod" -> ProdSeq(s)
      [] f = "first" -> IF s = <<>> THEN NaN ELSE s[1]
      [] f = "last" -> IF s = <<>> THEN NaN ELSE s[Len(s)]
      [] f = "nth" -> LET k == q[2] IN
                      IF k >= 0 THEN (IF k + 1 <= Len(all) THEN all[k + 1] ELSE <<"fill">>)
                      ELSE (IF Len(all) + k >= 0 THEN all[Len(all) + k + 1] ELSE <<"fill">>)
      [] s = <<>> -> NaN
      [] f = "max" -> MaxSeq(s)
      [] f = "min" -> MinSeq(s)
      [] HasInf(s) -> Unspec
      [] f = "mean" -> Div(SumSeq(s), IntV(Len(s)))
      [] f = "median" -> Quantile(s, <<"n", 1, 2>>)
      [] f = "quantile" -> Quantile(s, q)
      [] f \in {"var", "std"} -> IF Len(s) < 2 THEN NaN ELSE Variance(s)
      [] OTHER -> Unspec
=============================================================================
