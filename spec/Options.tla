------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* What a program's options are after settings from code, INI files and    *)
(* command lines.  Text is a sequence of character codes.  A value is      *)
(* [k |-> "text", v |-> codes], [k |-> "flag", v |-> 0 or 1],               *)
(* [k |-> "int", v |-> codes of its canonical decimal rendering] or         *)
(* [k |-> "float", v |-> codes of its rendering with nine digits].          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Blank == {9, 10, 11, 12, 13, 32}
Digit == 48..57
Minus == 45  Plus == 43  Dot == 46
TrueText == <<116, 114, 117, 101>>
FalseText == <<102, 97, 108, 115, 101>>
Section == <<69, 108, 108, 105, 112, 116, 105, 99, 70, 111, 114, 101, 115, 116>>          \* EllipticForest

RECURSIVE TrimLeft(_), TrimRight(_)
TrimLeft(t) == IF t # <<>> /\ Head(t) \in Blank THEN TrimLeft(Tail(t)) ELSE t
TrimRight(t) == IF t # <<>> /\ Last(t) \in Blank THEN TrimRight(Front(t)) ELSE t
Trim(t) == TrimLeft(TrimRight(t))
\* position of the first c in t, 0 if there is none
RECURSIVE FindFrom(_, _, _)
FindFrom(t, c, i) == IF i > Len(t) THEN 0 ELSE IF t[i] = c THEN i ELSE FindFrom(t, c, i + 1)
Find(t, c) == FindFrom(t, c, 1)
AllDigits(t) == \A i \in 1..Len(t) : t[i] \in Digit
RECURSIVE NoZeros(_), NoEndZeros(_)
NoZeros(t) == IF t # <<>> /\ Head(t) = 48 THEN NoZeros(Tail(t)) ELSE t
NoEndZeros(t) == IF t # <<>> /\ Last(t) = 48 THEN NoEndZeros(Front(t)) ELSE t
RECURSIVE NumberOf(_, _)
NumberOf(t, acc) == IF t = <<>> THEN acc ELSE NumberOf(Tail(t), (10 * acc) + (Head(t) - 48))
RECURSIVE CodesOf(_)
CodesOf(n) == IF n < 10 THEN <<48 + n>> ELSE CodesOf(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE Less(_, _)
Less(s, t) == IF s = <<>> THEN FALSE ELSE Head(s) < Head(t) \/ (Head(s) = Head(t) /\ Less(Tail(s), Tail(t)))        \* of one length

Signed(t) == t # <<>> /\ Head(t) \in {Minus, Plus}
Negative(t) == t # <<>> /\ Head(t) = Minus
Unsigned(t) == IF Signed(t) THEN Tail(t) ELSE t

\* ---- integers in the range of an int
MaxInt == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>
MinInt == [MaxInt EXCEPT ![10] = 56]
IsInteger(t) == LET u == Unsigned(t) IN u # <<>> /\ AllDigits(u)
InRange(t) == LET u == NoZeros(Unsigned(t)) IN Len(u) < 10 \/ (Len(u) = 10 /\ ~Less(IF Negative(t) THEN MinInt ELSE MaxInt, u))
IntValue(t) == LET u == NoZeros(Unsigned(t)) IN IF u = <<>> THEN <<48>> ELSE IF Negative(t) THEN <<Minus>> \o u ELSE u

\* ---- decimal numbers: [sign] digits [. digits] [e [sign] digits], at least one digit before the exponent
ExpAt(t) == LET e == Find(t, 101) E == Find(t, 69) IN IF e = 0 THEN E ELSE IF E = 0 THEN e ELSE IF e < E THEN e ELSE E
Mantissa(t) == LET u == Unsigned(t) IN IF ExpAt(u) = 0 THEN u ELSE SubSeq(u, 1, ExpAt(u) - 1)
Exponent(t) == LET u == Unsigned(t) IN IF ExpAt(u) = 0 THEN <<48>> ELSE SubSeq(u, ExpAt(u) + 1, Len(u))
Whole(m) == IF Find(m, Dot) = 0 THEN m ELSE SubSeq(m, 1, Find(m, Dot) - 1)
Fraction(m) == IF Find(m, Dot) = 0 THEN <<>> ELSE SubSeq(m, Find(m, Dot) + 1, Len(m))
IsDecimal(t) ==
  LET m == Mantissa(t) w == Whole(m) f == Fraction(m) x == Exponent(t)
  IN AllDigits(w) /\ AllDigits(f) /\ w \o f # <<>> /\ IsInteger(x)
Padded(n) == IF n < 10 THEN <<48>> \o CodesOf(n) ELSE CodesOf(n)
\* to nine significant digits; the empty head stands for a carry out of the first
RECURSIVE Increment(_)
Increment(d) == IF d = <<>> THEN <<49>> ELSE IF Last(d) < 57 THEN Append(Front(d), Last(d) + 1) ELSE Append(Increment(Front(d)), 48)
Nine(d) == IF Len(d) <= 9 THEN d \o [i \in 1..(9 - Len(d)) |-> 48] ELSE IF d[10] < 53 THEN SubSeq(d, 1, 9) ELSE Increment(SubSeq(d, 1, 9))
\* rendering d.dddddddde+xx
FloatValue(t) ==
  LET m == Mantissa(t) w == Whole(m) f == Fraction(m) x == Exponent(t)
      all == NoZeros(w \o f) digits == NoEndZeros(all) rounded == Nine(digits)
      exp == (Len(rounded) - 9) + (IF Negative(x) THEN 0 - NumberOf(Unsigned(x), 0) ELSE NumberOf(Unsigned(x), 0)) - Len(f) + Len(all) - 1
      sign == IF Negative(t) THEN <<Minus>> ELSE <<>>
      nine == SubSeq(rounded, 1, 9)
  IN IF digits = <<>> THEN sign \o <<48, Dot>> \o [i \in 1..8 |-> 48] \o <<101, Plus, 48, 48>>
     ELSE sign \o <<nine[1], Dot>> \o Tail(nine) \o <<101>> \o (IF exp < 0 THEN <<Minus>> \o Padded(0 - exp) ELSE <<Plus>> \o Padded(exp))

\* what a piece of text denotes
Value(t) ==
  IF t = TrueText THEN [k |-> "flag", v |-> <<1>>]
  ELSE IF t = FalseText THEN [k |-> "flag", v |-> <<0>>]
  ELSE IF IsInteger(t) /\ InRange(t) THEN [k |-> "int", v |-> IntValue(t)]
  ELSE IF IsDecimal(t) THEN [k |-> "float", v |-> FloatValue(t)]
  ELSE [k |-> "text", v |-> t]
Text(t) == [k |-> "text", v |-> t]

\* ---- settings: options map names (codes) to values
Set(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
\* one line of a file; state <<options, are we in our section>>
Line(st, raw) ==
  LET l == Trim(raw) eq == Find(l, 61) IN
  IF l = <<>> \/ Head(l) = 59 THEN st
  ELSE IF Head(l) = 91 /\ Last(l) = 93 THEN <<st[1], SubSeq(l, 2, Len(l) - 1) = Section>>
  ELSE IF st[2] /\ eq # 0 THEN <<Set(st[1], Trim(SubSeq(l, 1, eq - 1)), Value(Trim(SubSeq(l, eq + 1, Len(l))))), TRUE>>
  ELSE st
File(f, lines) == FoldLeft(Line, <<f, FALSE>>, lines)[1]
\* one argument: --name, --name=value (typed), -name, -name=value (text); others contribute nothing
Argument(f, arg) ==
  IF arg = <<>> \/ Head(arg) # 45 THEN f
  ELSE LET long == Len(arg) >= 2 /\ arg[2] = 45
           body == SubSeq(arg, IF long THEN 3 ELSE 2, Len(arg))
           eq == Find(body, 61)
           name == IF eq = 0 THEN body ELSE SubSeq(body, 1, eq - 1)
           value == IF eq = 0 THEN <<>> ELSE SubSeq(body, eq + 1, Len(body))
       IN Set(f, name, IF long /\ eq # 0 THEN Value(value) ELSE Text(value))
Arguments(f, args) == FoldLeft(Argument, f, args)
=============================================================================
