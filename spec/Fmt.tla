--------------------------------- MODULE Fmt ---------------------------------
(* Python-like format specifications "[[fill]align][sign][#][0][width]       *)
(* [.precision][type]" and what they make of a value.  A result is a record  *)
(* [ok |-> TRUE, s |-> bytes] or Bad: the specification is malformed or does *)
(* not suit the value, which must be reported and not printed.               *)
(*                                                                           *)
(* Values: [t |-> "i", neg, d]     signed integer, d: decimal digits         *)
(*         [t |-> "u", d]          unsigned integer                          *)
(*         [t |-> "b", v]          truth value                               *)
(*         [t |-> "d", neg, d, e]  finite number 0.d * 10^e, exactly         *)
(*         [t |-> "s", v]          bytes                                     *)
EXTENDS Text

Good(s) == [ok |-> TRUE, s |-> s]
Bad == [ok |-> FALSE, s |-> <<>>]

Aligns == {60, 61, 62, 94}          \* < = > ^
Numeric(v) == v.t \in {"i", "u", "b", "d"}
Whole(v) == v.t \in {"i", "u", "b"}
Spaceful(c) == c

(* ---- parsing -------------------------------------------------------------- *)
(* f: what stands between the colon and the closing brace.  -1: none. *)
ParseSpec(f) ==
  LET n == Len(f)
      filled == n >= 2 /\ f[2] \in Aligns
      aligned == filled \/ (n >= 1 /\ f[1] \in Aligns)
      fill == IF filled THEN f[1] ELSE 32
      align == IF filled THEN f[2] ELSE IF aligned THEN f[1] ELSE 0
      i1 == IF filled THEN 3 ELSE IF aligned THEN 2 ELSE 1
      sign == IF i1 <= n /\ f[i1] \in {43, 45, 32} THEN f[i1] ELSE 0
      i2 == IF sign # 0 THEN i1 + 1 ELSE i1
      hash == i2 <= n /\ f[i2] = 35
      i3 == IF hash THEN i2 + 1 ELSE i2
      zero == i3 <= n /\ f[i3] = 48
      i4 == IF zero THEN i3 + 1 ELSE i3
      i5 == FirstOut(f, i4, Digits10)
      wide == StripZ(DigitsOf(SubSeq(f, i4, i5 - 1)))
      dot == i5 <= n /\ f[i5] = 46
      i6 == IF dot THEN i5 + 1 ELSE i5
      i7 == IF dot THEN FirstOut(f, i6, Digits10) ELSE i6
      prec == StripZ(DigitsOf(SubSeq(f, i6, i7 - 1)))
      type == IF i7 <= n THEN f[i7] ELSE 0
      i8 == IF i7 <= n THEN i7 + 1 ELSE i7
      \* the sign is followed by the rest wherever it is refused
  IN [ ok |-> /\ i8 > n
              /\ type # 0 \/ i7 > n
              /\ dot => i7 > i6
              /\ ~(filled /\ f[1] \in {LBrace, RBrace})
              /\ \A i \in 1..n : f[i] \notin {LBrace, RBrace, 0}
              /\ Less(wide, TwoTo31) /\ Less(prec, TwoTo31),
       fill |-> IF zero THEN 48 ELSE fill, align |-> IF zero THEN 61 ELSE align,
       sign |-> sign, hash |-> hash, zero |-> zero,
       numeric |-> align = 61 \/ hash \/ zero \/ sign # 0,
       width |-> IF Less(wide, TwoTo31) THEN DigitsNat(wide) ELSE 0,
       prec |-> IF dot /\ Less(prec, TwoTo31) THEN DigitsNat(prec) ELSE -1, type |-> type ]

(* ---- laying out ----------------------------------------------------------- *)
(* align: 0 is the default of the kind of value. *)
Pad(s, width, align, fill) ==
  LET n == Max0(width - Len(s)) IN
  IF align = 62 THEN Rep(fill, n) \o s
  ELSE IF align = 94 THEN Rep(fill, n \div 2) \o s \o Rep(fill, n - n \div 2)
  ELSE s \o Rep(fill, n)
PadNumber(prefix, body, p) ==
  IF p.align = 61 THEN prefix \o Rep(p.fill, p.width - Len(prefix) - Len(body)) \o body
  ELSE Pad(prefix \o body, p.width, IF p.align = 0 THEN 62 ELSE p.align, p.fill)
SignOf(neg, p) == IF neg THEN <<45>> ELSE IF p.sign \in {43, 32} THEN <<p.sign>> ELSE <<>>

Glyph(upper) == [k \in 0..15 |-> IF k < 10 THEN 48 + k ELSE IF upper THEN 55 + k ELSE 87 + k]
Base(d, m, upper) == LET x == InBase(d, m) IN [i \in 1..Len(x) |-> Glyph(upper)[x[i]]]

FmtInt(neg, d, p) ==
  LET sg == SignOf(neg, p) IN
  CASE p.type \in {0, 100} -> Good(PadNumber(sg, Show(d), p))
    [] p.type \in {120, 88} -> Good(PadNumber(sg \o IF p.hash THEN <<48, p.type>> ELSE <<>>, Base(d, 16, p.type = 88), p))
    [] p.type \in {98, 66} -> Good(PadNumber(sg \o IF p.hash THEN <<48, p.type>> ELSE <<>>, Base(d, 2, FALSE), p))
    [] p.type = 111 -> Good(PadNumber(sg \o IF p.hash THEN <<48>> ELSE <<>>, Base(d, 8, FALSE), p))
    [] OTHER -> Bad

(* ---- fractions ------------------------------------------------------------ *)
DigitAt(d, i) == IF i >= 1 /\ i <= Len(d) THEN d[i] ELSE 0
(* The number of units of 10^-k nearest to 0.d * 10^e (ties to even), as digits. *)
Rounded(d, e, k) ==
  LET keep == e + k
      base == IF keep <= 0 THEN <<>> ELSE StripZ([i \in 1..keep |-> DigitAt(d, i)])
      next == IF keep < 0 THEN 0 ELSE DigitAt(d, keep + 1)
      more == keep < 0 \/ keep + 1 < Len(d)     \* something beyond the next digit (d has no trailing zeros)
      odd == base # <<>> /\ base[Len(base)] % 2 = 1
      up == keep >= 0 /\ (next > 5 \/ (next = 5 /\ (more \/ odd)))
  IN IF up THEN MulAdd(base, 1, 1) ELSE base
FixedPoint(d, e, k, hash) ==
  LET u == Rounded(d, e, k)
      s == IF Len(u) <= k THEN Rep(0, k + 1 - Len(u)) \o u ELSE u
      n == Len(s) - k
      t == [i \in 1..Len(s) |-> 48 + s[i]]
  IN SubSeq(t, 1, n) \o (IF k > 0 \/ hash THEN <<46>> ELSE <<>>) \o From(t, n + 1)
(* Mantissa digits (k + 1 of them) and decimal exponent after rounding. *)
Scientific(d, e, k) ==
  IF d = <<>> THEN [m |-> Rep(0, k + 1), x |-> 0]
  ELSE LET u == Rounded(d, e, k + 1 - e) IN      \* k + 1 significant digits
       IF Len(u) > k + 1 THEN [m |-> SubSeq(u, 1, k + 1), x |-> e] ELSE [m |-> u, x |-> e - 1]
Expo(x, upper) == <<IF upper THEN 69 ELSE 101>> \o (IF x < 0 THEN <<45>> ELSE <<43>>)
                  \o (LET a == IF x < 0 THEN -x ELSE x IN IF a < 10 THEN Fixed(a, 2) ELSE ShowNat(a))
Mantissa(m, hash) == LET t == [i \in 1..Len(m) |-> 48 + m[i]]
                     IN <<t[1]>> \o (IF Len(m) > 1 \/ hash THEN <<46>> ELSE <<>>) \o Tail(t)
RECURSIVE DropTail(_, _)
DropTail(s, c) == IF s # <<>> /\ s[Len(s)] = c THEN DropTail(SubSeq(s, 1, Len(s) - 1), c) ELSE s
General(d, e, k0, hash, upper) ==
  LET k == IF k0 = 0 THEN 1 ELSE k0
      sc == Scientific(d, e, k - 1)
  IN IF sc.x < -4 \/ sc.x >= k
     THEN LET m == IF hash THEN sc.m ELSE LET z == DropTail(sc.m, 0) IN IF z = <<>> THEN <<0>> ELSE z
          IN Mantissa(m, hash) \o Expo(sc.x, upper)
     ELSE LET f == FixedPoint(d, e, k - 1 - sc.x, hash)
          IN IF hash \/ k - 1 - sc.x <= 0 THEN f ELSE DropTail(DropTail(f, 48), 46)
FmtDouble(v, p) ==
  LET k == IF p.prec < 0 THEN 6 ELSE p.prec
      up == p.type \in {69, 70, 71}
      sg == SignOf(v.neg, p)
  IN CASE p.type \in {0, 103, 71} -> Good(PadNumber(sg, General(v.d, v.e, k, p.hash, up), p))
       [] p.type \in {102, 70} -> Good(PadNumber(sg, FixedPoint(v.d, v.e, k, p.hash), p))
       [] p.type \in {101, 69} -> LET sc == Scientific(v.d, v.e, k)
                                  IN Good(PadNumber(sg, Mantissa(sc.m, p.hash) \o Expo(sc.x, up), p))
       [] OTHER -> Bad

FmtStr(s, p) ==
  IF p.type \notin {0, 115} THEN Bad
  ELSE Good(Pad(IF p.prec >= 0 /\ p.prec < Len(s) THEN SubSeq(s, 1, p.prec) ELSE s, p.width, p.align, p.fill))

(* The value v printed as the specification f (bytes between colon and brace) says. *)
FmtBy(f, v) ==
  LET p == ParseSpec(f) IN
  IF ~p.ok THEN Bad
  ELSE IF p.numeric /\ ~Numeric(v) THEN Bad
  ELSE IF p.sign # 0 /\ v.t = "u" THEN Bad
  ELSE IF p.prec >= 0 /\ Whole(v) THEN Bad
  ELSE CASE v.t = "i" -> FmtInt(v.neg, v.d, p)
         [] v.t = "u" -> FmtInt(FALSE, v.d, p)
         [] v.t = "b" -> IF p.type # 0 THEN FmtInt(FALSE, IF v.v THEN <<1>> ELSE <<>>, p)
                         ELSE FmtStr(IF v.v THEN B("true") ELSE B("false"), p)
         [] v.t = "d" -> FmtDouble(v, p)
         [] v.t = "s" -> FmtStr(v.v, p)
=============================================================================
