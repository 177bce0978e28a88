-------------------------------- MODULE Text --------------------------------
(* Byte strings (sequences of 0..255) and exact decimal numbers (sequences   *)
(* of digits, most significant first, no leading zeros; <<>> is zero): the   *)
(* vocabulary of everything that is about what is written, not when.         *)
EXTENDS Integers, Sequences

LOCAL Glyphs == <<" ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
  "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@",
  "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T",
  "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_", "`",
  "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t",
  "u", "v", "w", "x", "y", "z", "{", "|", "}", "~">>
LOCAL Code == [c \in {Glyphs[i] : i \in 1..Len(Glyphs)} |-> 31 + CHOOSE i \in 1..Len(Glyphs) : Glyphs[i] = c]
(* Bytes of a string literal. *)
B(s) == [i \in 1..Len(s) |-> Code[SubSeq(s, i, i)]]
Ch(c) == Code[c]

LF == 10
Tab == 9
LBrace == 123
RBrace == 125
Quote == 34
Backslash == 92

IsDigit(c) == c \in 48..57
IsAlpha(c) == c \in 65..90 \/ c \in 97..122

From(s, i) == SubSeq(s, i, Len(s))
StartsAt(s, i, p) == i + Len(p) - 1 <= Len(s) /\ \A k \in 1..Len(p) : s[i + k - 1] = p[k]
Rep(c, n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> c]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Max0(n) == IF n > 0 THEN n ELSE 0
(* First index >= i whose element is in S; Len + 1 when there is none. *)
RECURSIVE FirstIn(_, _, _)
FirstIn(s, i, S) == IF i > Len(s) \/ s[i] \in S THEN i ELSE FirstIn(s, i + 1, S)
(* First index >= i whose element is not in S. *)
RECURSIVE FirstOut(_, _, _)
FirstOut(s, i, S) == IF i > Len(s) \/ s[i] \notin S THEN i ELSE FirstOut(s, i + 1, S)
Digits10 == 48..57
(* Concatenation of a sequence of byte strings. *)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>>
           ELSE IF Len(ss) = 1 THEN ss[1]
           ELSE LET h == Len(ss) \div 2 IN Cat(SubSeq(ss, 1, h)) \o Cat(From(ss, h + 1))

(* ---- exact decimal arithmetic --------------------------------------------- *)
StripZ(d) == From(d, FirstOut(d, 1, {0}))
(* d * m + c *)
RECURSIVE MulAdd(_, _, _)
MulAdd(d, m, c) ==
  IF d = <<>> THEN IF c = 0 THEN <<>> ELSE MulAdd(<<>>, m, c \div 10) \o <<c % 10>>
  ELSE LET x == d[Len(d)] * m + c IN MulAdd(SubSeq(d, 1, Len(d) - 1), m, x \div 10) \o <<x % 10>>
RECURSIVE Less(_, _)
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
              ELSE IF a = <<>> THEN FALSE
              ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))
(* Quotient and remainder by a small number, digit by digit. *)
RECURSIVE DivScan(_, _, _, _)
DivScan(d, m, r, q) == IF d = <<>> THEN [q |-> q, r |-> r]
                       ELSE LET x == r * 10 + Head(d) IN DivScan(Tail(d), m, x % m, Append(q, x \div m))
DivMod(d, m) == LET x == DivScan(d, m, 0, <<>>) IN [q |-> StripZ(x.q), r |-> x.r]
(* Digits in another base, most significant first; zero is <<0>>. *)
RECURSIVE InBase(_, _)
InBase(d, m) == LET x == DivMod(d, m) IN IF x.q = <<>> THEN <<x.r>> ELSE Append(InBase(x.q, m), x.r)
RECURSIVE NatDigits(_)
NatDigits(n) == IF n = 0 THEN <<>> ELSE Append(NatDigits(n \div 10), n % 10)
RECURSIVE DigitsNat(_)
DigitsNat(d) == IF d = <<>> THEN 0 ELSE DigitsNat(SubSeq(d, 1, Len(d) - 1)) * 10 + d[Len(d)]
Show(d) == IF d = <<>> THEN <<48>> ELSE [i \in 1..Len(d) |-> 48 + d[i]]
ShowNat(n) == Show(NatDigits(n))
(* Exactly w digits, with leading zeros. *)
Fixed(n, w) == LET s == ShowNat(n) IN Rep(48, w - Len(s)) \o s
DigitsOf(s) == [i \in 1..Len(s) |-> s[i] - 48]

TwoTo31 == <<2,1,4,7,4,8,3,6,4,8>>
TwoTo63 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
TwoTo64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,6>>
=============================================================================
