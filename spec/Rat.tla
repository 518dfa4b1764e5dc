-------------------------------- MODULE Rat --------------------------------
(* Rational arithmetic. The definitions below are the meaning; TLC evaluates them exactly, for numbers of any
   size, through the module override Rat.java, because its own integers have 32 bits. Every operator takes rationals,
   TLC integers and strings ("3/4", or the decimal text of a C double, which stands for that double's exact value;
   "nan" and "inf" stand for results that are not numbers: they are in no order relation with anything). *)
EXTENDS Reals, Sequences

R(x)            == x
RAdd(a, b)      == a + b
RSub(a, b)      == a - b
RMul(a, b)      == a * b
RDiv(a, b)      == a / b
RAbs(a)         == IF a < 0 THEN -a ELSE a
RLt(a, b)       == a < b
RLeq(a, b)      == a <= b
REq(a, b)       == a = b
IsNum(a)        == a \in Real
RSqrt(a)        == CHOOSE r \in Real : r >= 0 /\ r * r = a          \* to within 2^-160
RFloor(a)       == CHOOSE i \in Int : i <= a /\ a < i + 1           \* a TLC integer
RDecimals(a, k) == CHOOSE r \in Real : TRUE                          \* a rounded to k decimals (printf %.kf)
RDouble(a)      == CHOOSE r \in Real : TRUE                          \* the double nearest to a
RStr(a)         == CHOOSE s \in STRING : R(s) = a
RSeq(s)         == [i \in DOMAIN s |-> R(s[i])]
RECURSIVE RSum(_)
RSum(s)         == IF s = <<>> THEN 0 ELSE RAdd(Head(s), RSum(Tail(s)))
RDot(s, t)      == RSum([i \in DOMAIN s |-> RMul(s[i], t[i])])
RMax(a, b)      == IF RLt(a, b) THEN b ELSE a
RMin(a, b)      == IF RLt(b, a) THEN b ELSE a
RNear(a, b, t)  == RLeq(RAbs(RSub(a, b)), RMul(t, RMax(1, RMax(RAbs(a), RAbs(b)))))
RNearSeq(s, u, t) == /\ Len(s) = Len(u)
                     /\ \A i \in DOMAIN s : RNear(s[i], u[i], t)

(* vectors are sequences of rationals *)
VComb(c, v) == [i \in 1..Len(v[1]) |-> RDot(c, [k \in 1..Len(c) |-> v[k][i]])]   \* sum of c[k] * v[k]
VNear(a, b, t) == RNearSeq(a, b, t)

a \oplus b  == RAdd(a, b)
a \ominus b == RSub(a, b)
a \otimes b == RMul(a, b)
a \oslash b == RDiv(a, b)
a \prec b   == RLt(a, b)
a \preceq b == RLeq(a, b)
a \doteq b  == REq(a, b)
=============================================================================
