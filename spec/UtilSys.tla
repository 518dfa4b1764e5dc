------------------------------ MODULE UtilSys ------------------------------
(* The helpers that files and geometry are built on: texts (sequences of characters), lists of numbers in text, vectors, and
   control points as values of their own (a store of points; arithmetic makes new points and leaves its operands alone). *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC

(* ---- texts ---- *)
Spaces == {" ", "\t", "\n", "\r", "\f"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE DropLeft(_, _)
DropLeft(s, S) == IF s = <<>> THEN s ELSE IF Head(s) \in S THEN DropLeft(Tail(s), S) ELSE s
RECURSIVE DropRight(_, _)
DropRight(s, S) == IF s = <<>> THEN s ELSE IF s[Len(s)] \in S THEN DropRight(SubSeq(s, 1, Len(s) - 1), S) ELSE s
(* spaces and brackets around a text *)
Trim(s) == DropRight(DropLeft(s, Spaces \cup {"["}), Spaces \cup {"]"})
(* the pieces between separators *)
RECURSIVE Pieces(_, _, _)
Pieces(s, S, cur) == IF s = <<>> THEN <<cur>>
                     ELSE IF Head(s) \in S THEN <<cur>> \o Pieces(Tail(s), S, <<>>)
                     ELSE Pieces(Tail(s), S, Append(cur, Head(s)))
NonEmpty(q) == SelectSeq(q, LAMBDA x : x # <<>>)
(* lines are separators too *)
Split(s, d) == NonEmpty(Pieces(s, {d, "\n"}, <<>>))
StartsWith(s, t) == Len(t) <= Len(s) /\ SubSeq(s, 1, Len(t)) = t
EndsWith(s, t) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t

(* ---- numbers in texts: [sign] digits [. digits] [e [sign] digits], with a digit before or after the point ---- *)
RECURSIVE Run(_, _)
Run(s, S) == IF s = <<>> \/ Head(s) \notin S THEN 0 ELSE 1 + Run(Tail(s), S)       \* length of the leading run
From(s, k) == SubSeq(s, k + 1, Len(s))
Unsigned(s) == IF s # <<>> /\ Head(s) \in {"+", "-"} THEN Tail(s) ELSE s
IsInteger(s) == LET u == Unsigned(s) IN u # <<>> /\ Run(u, Digits) = Len(u)
IsExponent(s) == s = <<>> \/ (Head(s) \in {"e", "E"} /\ IsInteger(Tail(s)))
IsDecimal(s) ==
  LET u == Unsigned(s)
      a == Run(u, Digits)
      afterA == From(u, a)
      point == afterA # <<>> /\ Head(afterA) = "."
      b == IF point THEN Run(Tail(afterA), Digits) ELSE 0
      rest == IF point THEN From(Tail(afterA), b) ELSE afterA
  IN a + b > 0 /\ IsExponent(rest)
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN "" ELSE Head(s) \o Joined(Tail(s))
RECURSIVE IndexIn(_, _)
IndexIn(s, S) == IF s = <<>> THEN 0 ELSE IF Head(s) \in S THEN 1 ELSE LET k == IndexIn(Tail(s), S) IN IF k = 0 THEN 0 ELSE k + 1
(* value: mantissa and exponent taken apart, because Rat reads plain decimals *)
DigitValue(c) == CHOOSE v \in 0..9 : ToString(v) = c
Number(s) ==
  LET neg == s # <<>> /\ Head(s) = "-"
      u == Unsigned(s)
      e == IndexIn(u, {"e", "E"})
      man == IF e = 0 THEN u ELSE SubSeq(u, 1, e - 1)
      ex == IF e = 0 THEN <<>> ELSE From(u, e)
      dot == IndexIn(man, {"."})
      ds == SelectSeq(man, LAMBDA c : c # ".")
      after == IF dot = 0 THEN 0 ELSE Len(man) - dot
      val[i \in 0..Len(ds)] == IF i = 0 THEN R(0) ELSE RAdd(RMul(10, val[i - 1]), DigitValue(ds[i]))
      eu == Unsigned(ex)
      ev[i \in 0..Len(eu)] == IF i = 0 THEN 0 ELSE 10 * ev[i - 1] + DigitValue(eu[i])
      pow == (IF ex # <<>> /\ Head(ex) = "-" THEN - ev[Len(eu)] ELSE ev[Len(eu)]) - after
      p10[k \in 0..1000] == IF k = 0 THEN R(1) ELSE RMul(10, p10[k - 1])
      m == IF pow >= 0 THEN RMul(val[Len(ds)], p10[pow]) ELSE RDiv(val[Len(ds)], p10[- pow])
  IN IF neg THEN RSub(0, m) ELSE m
(* leading spaces belong to a number; what follows it does not. Trailing spaces: nothing is promised *)
NumberText(s) == DropLeft(s, Spaces)
(* every terminated piece of a list is a number; an unterminated last piece is not part of the list *)
Terminated(s) == LET q == Pieces(s, {",", ";"}, <<>>) IN NonEmpty(SubSeq(q, 1, Len(q) - 1))
ListTexts(s) == LET q == Terminated(s) IN [i \in DOMAIN q |-> NumberText(Trim(q[i]))]
Truncated(x) == IF x \prec R(0) THEN - RFloor(RSub(0, x)) ELSE RFloor(x)

(* ---- vectors ---- *)
VecDiff(a, b) == [i \in DOMAIN a |-> a[i] \ominus b[i]]
VecSum(a, b) == [i \in DOMAIN a |-> a[i] \oplus b[i]]
VecScale(a, f) == [i \in DOMAIN a |-> f \otimes a[i]]
VecNorm(a) == RSqrt(RDot(a, a))
VecCross(a, b) == <<(a[2] \otimes b[3]) \ominus (a[3] \otimes b[2]), (a[3] \otimes b[1]) \ominus (a[1] \otimes b[3]), (a[1] \otimes b[2]) \ominus (a[2] \otimes b[1])>>
Filtered(a, pos) == [i \in DOMAIN pos |-> a[pos[i] + 1]]
MayFilter(a, pos) == \A i \in DOMAIN pos : pos[i] < Len(a)
Placed4(m, s, p) == [j \in 1..3 |-> RSum(<<R(m[4 * (j - 1) + 4])>> \o [i \in 1..3 |-> (R(m[4 * (j - 1) + i]) \otimes s[i]) \otimes p[i]])]

(* ---- control points ---- *)
VARIABLE points
PPut(h, p) == points' = (h :> p) @@ points
PInit == points = <<>>

(* ---- laws of the texts, checked on all short ones ---- *)
TrimIsIdempotent(s) == Trim(Trim(s)) = Trim(s)
SplitIsClean(s, d) == \A i \in DOMAIN Split(s, d) : /\ Split(s, d)[i] # <<>>
                                                    /\ \A k \in DOMAIN Split(s, d)[i] : Split(s, d)[i][k] \notin {d, "\n"}
Reverse0(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
AffixDual(s, t) == StartsWith(s, t) = EndsWith(Reverse0(s), Reverse0(t))
SignSymmetric(s) == IsDecimal(s) /\ s # <<>> /\ Head(s) \notin {"-", "+"} => REq(Number(<<"-">> \o s), RSub(0, Number(s)))
PointShifts(s) == IsInteger(s) => REq(Number(s \o <<"e", "-", "1">>), RDiv(Number(s), 10))
=============================================================================
