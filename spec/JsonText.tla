------------------------------ MODULE JsonText ------------------------------
(* JSON: reading a document into a tree, and the tree that a record becomes.  *)
(* Trees: [t |-> "n"], [t |-> "b", v], [t |-> "#", neg, d, e] (the number     *)
(* 0.d * 10^e, exactly as it is written), [t |-> "s", v], [t |-> "a", v] and  *)
(* [t |-> "o", v] with a sequence of [k, v] in the order they are written.    *)
EXTENDS Fmt, Calendar

(* ---- reading --------------------------------------------------------------- *)
Fail == [ok |-> FALSE, i |-> 0, v |-> [t |-> "n"]]
Done(i, v) == [ok |-> TRUE, i |-> i, v |-> v]
Blank == {9, 10, 13, 32}
(* x: configurations may also contain comments, and commas after the last element. *)
(* A comment that is none stays where it is, where nothing else expects a slash.    *)
RECURSIVE CommentEnd(_, _)
CommentEnd(s, i) == IF i >= Len(s) THEN 0 ELSE IF s[i] = 42 /\ s[i + 1] = 47 THEN i + 2 ELSE CommentEnd(s, i + 1)
RECURSIVE Skip(_, _, _)
Skip(s, i, x) ==
  LET k == FirstOut(s, i, Blank) IN
  IF ~x \/ k >= Len(s) \/ s[k] # 47 THEN k
  ELSE IF s[k + 1] = 47 THEN Skip(s, FirstIn(s, k, {10}) + 1, x)
  ELSE IF s[k + 1] = 42 THEN LET e == CommentEnd(s, k + 2) IN IF e = 0 THEN k ELSE Skip(s, e, x)
  ELSE k
HexDigit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
IsHex4(s, i) == i + 3 <= Len(s) /\ \A k \in i..(i + 3) : HexDigit(s[k]) >= 0
Hex4(s, i) == ((HexDigit(s[i]) * 16 + HexDigit(s[i + 1])) * 16 + HexDigit(s[i + 2])) * 16 + HexDigit(s[i + 3])
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Simple == << <<34, 34>>, <<92, 92>>, <<47, 47>>, <<98, 8>>, <<102, 12>>, <<110, 10>>, <<114, 13>>, <<116, 9>> >>
(* After the opening quote; ends after the closing one. *)
RECURSIVE Chars(_, _, _)
Chars(s, i, acc) ==
  LET k == FirstIn(s, i, (0..31) \cup {34, 92})
      a == acc \o SubSeq(s, i, k - 1)
  IN IF k > Len(s) THEN Fail
     ELSE IF s[k] = 34 THEN Done(k + 1, [t |-> "s", v |-> a])
     ELSE IF s[k] # 92 \/ k = Len(s) THEN Fail          \* control characters must be escaped
     ELSE IF s[k + 1] = 117 THEN
       IF ~IsHex4(s, k + 2) THEN Fail
       ELSE LET u == Hex4(s, k + 2) IN
            IF u \in 55296..56319 THEN
              IF k + 7 <= Len(s) /\ s[k + 6] = 92 /\ s[k + 7] = 117 /\ IsHex4(s, k + 8) /\ Hex4(s, k + 8) \in 56320..57343
              THEN Chars(s, k + 12, a \o Utf8(65536 + (u - 55296) * 1024 + Hex4(s, k + 8) - 56320))
              ELSE Fail
            ELSE IF u \in 56320..57343 THEN Fail
            ELSE Chars(s, k + 6, a \o Utf8(u))
     ELSE LET S == {j \in 1..Len(Simple) : Simple[j][1] = s[k + 1]} IN
          IF S = {} THEN Fail ELSE Chars(s, k + 2, Append(a, Simple[CHOOSE j \in S : TRUE][2]))

(* Numbers: [-] int [. digits] [(e|E) [+-] digits]. *)
Number(neg, a, b, x, int) ==      \* a.b * 10^x; int: written as an integer
  LET all == a \o b
      z == FirstOut(all, 1, {0})
      d == DropTail(From(all, z), 0)
  IN [t |-> "#", neg |-> neg /\ d # <<>>, d |-> d, e |-> IF d = <<>> THEN 0 ELSE Len(a) - (z - 1) + x, int |-> int]
ReadNumber(s, i) ==
  LET neg == s[i] = 45
      i1 == IF neg THEN i + 1 ELSE i
      i2 == FirstOut(s, i1, Digits10)
      int == SubSeq(s, i1, i2 - 1)
      dot == i2 <= Len(s) /\ s[i2] = 46
      i3 == IF dot THEN FirstOut(s, i2 + 1, Digits10) ELSE i2
      ex == i3 <= Len(s) /\ s[i3] \in {69, 101}
      sg == ex /\ i3 < Len(s) /\ s[i3 + 1] \in {43, 45}
      i4 == IF sg THEN i3 + 2 ELSE i3 + 1
      i5 == IF ex THEN FirstOut(s, i4, Digits10) ELSE i3
      e == StripZ(DigitsOf(SubSeq(s, i4, i5 - 1)))
  IN IF \/ int = <<>> \/ (int[1] = 48 /\ Len(int) > 1)
        \/ (dot /\ i3 = i2 + 1) \/ (ex /\ i5 = i4) \/ Len(e) > 6
     THEN Fail
     ELSE Done(i5, Number(neg, DigitsOf(int), IF dot THEN DigitsOf(SubSeq(s, i2 + 1, i3 - 1)) ELSE <<>>,
                          IF ~ex THEN 0 ELSE IF sg /\ s[i3 + 1] = 45 THEN -DigitsNat(e) ELSE DigitsNat(e), ~dot /\ ~ex))

RECURSIVE ReadValue(_, _, _)
RECURSIVE Members(_, _, _, _)
RECURSIVE Elements(_, _, _, _)
(* After a brace or a comma. *)
Members(s, i, acc, x) ==
  LET q == Skip(s, i, x) IN
  IF q > Len(s) \/ s[q] # 34 THEN Fail
  ELSE LET k == Chars(s, q + 1, <<>>) IN
  IF ~k.ok THEN Fail
  ELSE LET c == Skip(s, k.i, x) IN
  IF c > Len(s) \/ s[c] # 58 THEN Fail
  ELSE LET v == ReadValue(s, Skip(s, c + 1, x), x) IN
  IF ~v.ok THEN Fail
  ELSE LET n == Skip(s, v.i, x)
           all == Append(acc, [k |-> k.v.v, v |-> v.v])
       IN IF n > Len(s) THEN Fail
          ELSE IF s[n] = 125 THEN Done(n + 1, [t |-> "o", v |-> all])
          ELSE IF s[n] # 44 THEN Fail
          ELSE LET m == Skip(s, n + 1, x) IN
               IF x /\ m <= Len(s) /\ s[m] = 125 THEN Done(m + 1, [t |-> "o", v |-> all]) ELSE Members(s, m, all, x)
Elements(s, i, acc, x) ==
  LET v == ReadValue(s, Skip(s, i, x), x) IN
  IF ~v.ok THEN Fail
  ELSE LET n == Skip(s, v.i, x)
           all == Append(acc, v.v)
       IN IF n > Len(s) THEN Fail
          ELSE IF s[n] = 93 THEN Done(n + 1, [t |-> "a", v |-> all])
          ELSE IF s[n] # 44 THEN Fail
          ELSE LET m == Skip(s, n + 1, x) IN
               IF x /\ m <= Len(s) /\ s[m] = 93 THEN Done(m + 1, [t |-> "a", v |-> all]) ELSE Elements(s, m, all, x)
ReadValue(s, i, x) ==
  IF i > Len(s) THEN Fail
  ELSE CASE s[i] = 123 -> (LET n == Skip(s, i + 1, x) IN
                           IF n <= Len(s) /\ s[n] = 125 THEN Done(n + 1, [t |-> "o", v |-> <<>>]) ELSE Members(s, i + 1, <<>>, x))
         [] s[i] = 91 -> (LET n == Skip(s, i + 1, x) IN
                          IF n <= Len(s) /\ s[n] = 93 THEN Done(n + 1, [t |-> "a", v |-> <<>>]) ELSE Elements(s, i + 1, <<>>, x))
         [] s[i] = 34 -> Chars(s, i + 1, <<>>)
         [] s[i] = 116 -> (IF StartsAt(s, i, B("true")) THEN Done(i + 4, [t |-> "b", v |-> TRUE]) ELSE Fail)
         [] s[i] = 102 -> (IF StartsAt(s, i, B("false")) THEN Done(i + 5, [t |-> "b", v |-> FALSE]) ELSE Fail)
         [] s[i] = 110 -> (IF StartsAt(s, i, B("null")) THEN Done(i + 4, [t |-> "n"]) ELSE Fail)
         [] s[i] = 45 \/ IsDigit(s[i]) -> ReadNumber(s, i)
         [] OTHER -> Fail
(* The only value of a text, surrounded by nothing but blanks (and comments). *)
ReadText(s, x) == LET v == ReadValue(s, Skip(s, 1, x), x) IN IF v.ok /\ Skip(s, v.i, x) > Len(s) THEN v ELSE Fail
ReadJson(s) == ReadText(s, FALSE)
ReadConfig(s) == ReadText(s, TRUE)

(* ---- JSON pointers ------------------------------------------------------------ *)
(* [ok, toks] of "/a/b": what follows each slash, ~0 and ~1 standing for ~ and /. *)
RECURSIVE Token(_, _, _)
Token(s, i, acc) ==
  IF i > Len(s) \/ s[i] = 47 THEN [ok |-> TRUE, i |-> i, s |-> acc]
  ELSE IF s[i] # 126 THEN Token(s, i + 1, Append(acc, s[i]))
  ELSE IF i < Len(s) /\ s[i + 1] = 48 THEN Token(s, i + 2, Append(acc, 126))
  ELSE IF i < Len(s) /\ s[i + 1] = 49 THEN Token(s, i + 2, Append(acc, 47))
  ELSE [ok |-> FALSE, i |-> i, s |-> <<>>]
RECURSIVE Tokens(_, _, _)
Tokens(s, i, acc) ==
  IF i > Len(s) THEN [ok |-> TRUE, toks |-> acc]
  ELSE IF s[i] # 47 THEN [ok |-> FALSE, toks |-> <<>>]
  ELSE LET t == Token(s, i + 1, <<>>) IN
       IF t.ok THEN Tokens(s, t.i, Append(acc, t.s)) ELSE [ok |-> FALSE, toks |-> <<>>]
Pointer(s) == Tokens(s, 1, <<>>)

(* ---- the tree of a record ------------------------------------------------------ *)
(* conf: [routes (sequence of [to, names]), rest, rename, format, map, stamp, unique]; *)
(* stamp = <<>>: microseconds.  Routes of no token stand for the root.                *)
RECURSIVE Less2(_, _)
Less2(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less2(Tail(a), Tail(b))
(* An attribute that several routes list follows the least of them. *)
RouteOf(conf, name) ==
  LET S == {i \in 1..Len(conf.routes) : \E j \in 1..Len(conf.routes[i].names) : conf.routes[i].names[j] = name}
  IN IF S = {} THEN Pointer(conf.rest).toks
     ELSE Pointer(conf.routes[CHOOSE i \in S : \A j \in S : j = i \/ Less2(conf.routes[i].to, conf.routes[j].to)].to).toks
ValidRoutes(conf) == Pointer(conf.rest).ok /\ \A i \in 1..Len(conf.routes) : conf.routes[i].names # <<>> => Pointer(conf.routes[i].to).ok
(* A route that nothing takes may be looked at or not. *)
SpareRoutes(conf) == \A i \in 1..Len(conf.routes) : Pointer(conf.routes[i].to).ok

Lookup(ps, name, default) == LET S == {i \in 1..Len(ps) : ps[i][1] = name /\ \A j \in (i + 1)..Len(ps) : ps[j][1] # name}
                             IN IF S = {} THEN default ELSE ps[CHOOSE i \in S : TRUE][2]

RECURSIVE Put(_, _, _)
(* Adds a member to the object that the path leads to, creating objects on the way *)
(* where there are none yet. *)
Put(obj, path, m) ==
  IF path = <<>> THEN [t |-> "o", v |-> Append(obj.v, m)]
  ELSE LET S == {i \in 1..Len(obj.v) : obj.v[i].k = path[1] /\ obj.v[i].v.t = "o"} IN
       IF S = {} THEN [t |-> "o", v |-> Append(obj.v, [k |-> path[1], v |-> Put([t |-> "o", v |-> <<>>], Tail(path), m)])]
       ELSE LET x == CHOOSE i \in S : \A j \in S : i <= j
            IN [t |-> "o", v |-> [i \in 1..Len(obj.v) |-> IF i = x THEN [k |-> path[1], v |-> Put(obj.v[i].v, Tail(path), m)] ELSE obj.v[i]]]

(* What is written for a value: integers and doubles as numbers of this value. *)
Num(neg, digits) == LET d == DropTail(digits, 0) IN [t |-> "#", neg |-> neg, d |-> d, e |-> IF d = <<>> THEN 0 ELSE Len(digits)]
Leaf(v) ==
  CASE v.t = "n" -> [t |-> "n"]
    [] v.t = "b" -> [t |-> "b", v |-> v.v]
    [] v.t = "i" -> Num(v.neg, v.d)
    [] v.t = "u" -> Num(FALSE, v.d)
    [] v.t = "d" -> (IF "x" \in DOMAIN v THEN [t |-> "n"] ELSE [t |-> "#", neg |-> v.neg, d |-> v.d, e |-> v.e])
    [] v.t \in {"s", "f"} -> [t |-> "s", v |-> v.v]
(* A format is a whole format string with one placeholder, surrounded by literals. *)
RECURSIVE Unbraced(_, _, _)
Unbraced(s, i, acc) == IF i > Len(s) THEN acc
                       ELSE IF i < Len(s) /\ s[i] \in {LBrace, RBrace} THEN Unbraced(s, i + 2, Append(acc, s[i]))
                       ELSE Unbraced(s, i + 1, Append(acc, s[i]))
RECURSIVE Opening(_, _)
Opening(s, i) == LET k == FirstIn(s, i, {LBrace}) IN IF k < Len(s) /\ s[k + 1] = LBrace THEN Opening(s, k + 2) ELSE k
ByFormat(format, v) ==
  LET a == Opening(format, 1)
      z == FirstIn(format, a, {RBrace})
      f == IF a + 1 <= z - 1 /\ format[a + 1] = 58 THEN SubSeq(format, a + 2, z - 1) ELSE <<>>
      x == IF v.t = "n" THEN FmtBy(f, [t |-> "s", v |-> B("none")]) ELSE IF v.t = "f" THEN Good(v.v) ELSE FmtBy(f, v)
  IN IF ~x.ok THEN Bad
     ELSE IF v.t = "f" THEN x
     ELSE Good(Unbraced(SubSeq(format, 1, a - 1), 1, <<>>) \o x.s \o Unbraced(From(format, z + 1), 1, <<>>))
Members1(conf, r) ==
  LET n == IF r.sev.neg \/ Len(r.sev.d) > 5 THEN -1 ELSE DigitsNat(r.sev.d)
      sev == IF n >= 0 /\ n < Len(conf.map) THEN [t |-> "s", v |-> conf.map[n + 1]] ELSE r.sev
      ts == IF conf.stamp = <<>> THEN [t |-> "i", neg |-> FALSE, d |-> MicroDigits(r.t.d, r.t.s, r.t.u)]
            ELSE [t |-> "s", v |-> Strftime(conf.stamp, r.t, Utc)]
      first(i) == \A j \in 1..(i - 1) : r.attrs[j].k # r.attrs[i].k
      kept == IF conf.unique THEN SelectSeq([i \in 1..Len(r.attrs) |-> IF first(i) THEN <<r.attrs[i]>> ELSE <<>>], LAMBDA x : x # <<>>)
              ELSE [i \in 1..Len(r.attrs) |-> <<r.attrs[i]>>]
  IN << [k |-> B("message"), v |-> [t |-> "s", v |-> r.message]], [k |-> B("lwp"), v |-> r.lwp],
        [k |-> B("thread"), v |-> [t |-> "s", v |-> FmtBy(B("#x"), r.tid).s]], [k |-> B("process"), v |-> r.pid],
        [k |-> B("severity"), v |-> sev], [k |-> B("timestamp"), v |-> ts] >> \o [i \in 1..Len(kept) |-> kept[i][1]]
(* [ok, v]: ok unless a format doesn't suit its value. *)
RECURSIVE Build(_, _, _)
Build(conf, ms, obj) ==
  IF ms = <<>> THEN [ok |-> TRUE, v |-> obj]
  ELSE LET m == Head(ms)
           format == Lookup(conf.format, m.k, <<>>)
           has == \E i \in 1..Len(conf.format) : conf.format[i][1] = m.k
           x == IF has THEN ByFormat(format, m.v) ELSE Good(<<>>)
       IN IF ~x.ok THEN [ok |-> FALSE, v |-> obj]
          ELSE Build(conf, Tail(ms), Put(obj, RouteOf(conf, m.k),
                 [k |-> Lookup(conf.rename, m.k, m.k), v |-> IF has THEN [t |-> "s", v |-> x.s] ELSE Leaf(m.v)]))
Tree(conf, r) == Build(conf, Members1(conf, r), [t |-> "o", v |-> <<>>])

(* ---- trees compared ------------------------------------------------------------- *)
(* A number stands for a decimal of at most 15 digits if it rounds to it; longer ones *)
(* (integers) must be written exactly.                                                *)
RoundTo(x, n) == LET u == Rounded(x.d, x.e, n - x.e)      \* x * 10^(n - e), rounded
                     d == DropTail(u, 0)
                 IN [neg |-> x.neg, d |-> d, e |-> IF Len(u) > n THEN x.e + 1 ELSE x.e]
SameTo(x, y, n) == \/ x.neg = y.neg /\ x.d = y.d /\ x.e = y.e
                   \/ Len(y.d) <= n /\ Len(x.d) > n /\ RoundTo(x, n) = [neg |-> y.neg, d |-> y.d, e |-> y.e]
SameNumber(x, y) == SameTo(x, y, 15)
RECURSIVE Same(_, _)
(* x: read, y: expected. *)
Same(x, y) ==
  /\ x.t = y.t
  /\ CASE x.t = "n" -> TRUE
       [] x.t \in {"b", "s"} -> x.v = y.v
       [] x.t = "#" -> SameNumber(x, y)
       [] x.t = "a" -> Len(x.v) = Len(y.v) /\ \A i \in 1..Len(x.v) : Same(x.v[i], y.v[i])
       [] x.t = "o" -> Len(x.v) = Len(y.v) /\ \A i \in 1..Len(x.v) : x.v[i].k = y.v[i].k /\ Same(x.v[i].v, y.v[i].v)
=============================================================================
