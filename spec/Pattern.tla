------------------------------ MODULE Pattern ------------------------------
(* Patterns of the string formatter: what they parse into, which are          *)
(* refused, and what a parsed pattern makes of a record.                      *)
(*                                                                            *)
(* Parsing gives [ok, toks]; tokens are records with field k:                 *)
(*   lit s | message f | process f n(ame?) | thread f w(hich) | sev f n(um?)  *)
(*   ts f p(attern) local num | attr name f | opt name f def | rest f sep pat *)
(* where f is the format specification between colon and brace.               *)
EXTENDS Fmt, Calendar

NameChars == 48..57 \cup 65..90 \cup 97..122 \cup {95, 46}
NoTok == [ok |-> FALSE, toks |-> <<>>]

(* ---- the leftover placeholder ------------------------------------------------ *)
TypeS == Ch("s")
(* [<^>]?[0-9]*s *)
PlainSpec(f, types) ==
  LET i == IF Len(f) >= 1 /\ f[1] \in {60, 62, 94} THEN 2 ELSE 1
      j == FirstOut(f, i, Digits10)
  IN j = Len(f) /\ f[j] \in types

(* Literal text with doubled braces, from i on: [s, i] up to the first character  *)
(* that is not literal.                                                           *)
RECURSIVE Literal(_, _, _)
Literal(s, i, acc) ==
  IF i > Len(s) THEN [s |-> acc, i |-> i]
  ELSE IF s[i] \notin {LBrace, RBrace} THEN Literal(s, i + 1, Append(acc, s[i]))
  ELSE IF i < Len(s) /\ s[i + 1] = s[i] THEN Literal(s, i + 2, Append(acc, s[i]))
  ELSE [s |-> acc, i |-> i]

(* "{" text ":x}": the text ends at the first :x} that no closing brace follows. *)
EndOf(s, i, x) == {k \in i..(Len(s) - Len(x) + 1) : StartsAt(s, k, x) /\ ~(k + Len(x) <= Len(s) /\ s[k + Len(x)] = RBrace)}
Least(S) == CHOOSE k \in S : \A j \in S : k <= j

SepEnd == B(":s}")
PatEnd == B(":p}")
DefEnd == B(":default}")
(* A separator contains no single braces. *)
RECURSIVE SepText(_, _, _)
SepText(s, i, acc) ==
  IF i > Len(s) THEN [ok |-> FALSE, s |-> <<>>, i |-> i]
  ELSE IF s[i] \in {LBrace, RBrace} THEN
         IF i < Len(s) /\ s[i + 1] = s[i] THEN SepText(s, i + 2, Append(acc, s[i])) ELSE [ok |-> FALSE, s |-> <<>>, i |-> i]
  ELSE IF StartsAt(s, i, SepEnd) /\ ~(i + 3 <= Len(s) /\ s[i + 3] = RBrace) THEN [ok |-> TRUE, s |-> acc, i |-> i + 3]
  ELSE SepText(s, i + 1, Append(acc, s[i]))
SepAt(s, i) == IF i <= Len(s) /\ s[i] = LBrace THEN SepText(s, i + 1, <<>>) ELSE [ok |-> FALSE, s |-> <<>>, i |-> i]
PatAt(s, i) ==
  IF ~(i <= Len(s) /\ s[i] = LBrace) THEN [ok |-> FALSE, s |-> <<>>, i |-> i]
  ELSE LET S == EndOf(s, i + 1, PatEnd) IN
       IF S = {} THEN [ok |-> FALSE, s |-> <<>>, i |-> i]
       ELSE [ok |-> TRUE, s |-> SubSeq(s, i + 1, Least(S) - 1), i |-> Least(S) + 3]

(* The pattern of one attribute: literals, {name[:spec]} and {value[:spec]}. *)
PartAt(s, i, word) ==
  LET a == i + 1 + Len(word) IN
  IF ~(s[i] = LBrace /\ StartsAt(s, i + 1, word)) \/ a > Len(s) THEN 0
  ELSE IF s[a] = RBrace THEN a
  ELSE IF s[a] # 58 THEN 0
  ELSE LET e == FirstIn(s, a, {RBrace}) IN
       IF e <= Len(s) /\ PlainSpec(SubSeq(s, a + 1, e - 1), {TypeS, Ch("d")}) THEN e ELSE 0
RECURSIVE AttrPattern(_, _, _)
AttrPattern(s, i, acc) ==
  IF i > Len(s) THEN [ok |-> TRUE, toks |-> acc]
  ELSE LET n == PartAt(s, i, B("name"))
           v == PartAt(s, i, B("value"))
           l == Literal(s, i, <<>>)
       IN IF n # 0 THEN AttrPattern(s, n + 1, Append(acc, [k |-> "name", f |-> SubSeq(s, i + 6, n - 1)]))
          ELSE IF v # 0 THEN AttrPattern(s, v + 1, Append(acc, [k |-> "value", f |-> SubSeq(s, i + 7, v - 1)]))
          ELSE IF l.i > i THEN AttrPattern(s, l.i, Append(acc, [k |-> "lit", s |-> l.s]))
          ELSE NoTok
DefaultParts == << [k |-> "name", f |-> <<>>], [k |-> "lit", s |-> B(": ")], [k |-> "value", f |-> <<>>] >>
DefaultSep == B(", ")
Leftover(f) ==
  LET s1 == SepAt(f, 1)
      p1 == PatAt(f, IF s1.ok THEN s1.i ELSE 1)
      i2 == IF p1.ok THEN p1.i ELSE IF s1.ok THEN s1.i ELSE 1
      s2 == IF s1.ok THEN s1 ELSE SepAt(f, i2)
      i3 == IF s1.ok THEN i2 ELSE IF s2.ok THEN s2.i ELSE i2
      pp == IF p1.ok THEN AttrPattern(p1.s, 1, <<>>) ELSE [ok |-> TRUE, toks |-> DefaultParts]
  IN IF PlainSpec(From(f, i3), {TypeS}) /\ pp.ok
     THEN [ok |-> TRUE, toks |-> <<[k |-> "rest", f |-> From(f, i3), sep |-> IF s2.ok THEN s2.s ELSE DefaultSep, pat |-> pp.toks]>>]
     ELSE NoTok

(* ---- optional placeholders ----------------------------------------------------- *)
(* [[fill]align][#][0][width][.precision][sdfx] *)
OptSpec(f) ==
  LET n == Len(f)
      A == {60, 62, 94}
      i1 == IF n >= 2 /\ f[2] \in A THEN 3 ELSE IF n >= 1 /\ f[1] \in A THEN 2 ELSE 1
      i2 == IF i1 <= n /\ f[i1] = 35 THEN i1 + 1 ELSE i1
      i3 == FirstOut(f, i2, Digits10)
      dot == i3 < n /\ f[i3] = 46 /\ f[i3 + 1] \in Digits10
      i4 == IF dot THEN FirstOut(f, i3 + 1, Digits10) ELSE i3
      i5 == IF i4 <= n /\ f[i4] \in {Ch("s"), Ch("d"), Ch("f"), Ch("x")} THEN i4 + 1 ELSE i4
  IN i5 = n + 1
IsInt(s) == LET i == IF Len(s) >= 1 /\ s[1] \in {43, 45} THEN 2 ELSE 1
            IN i <= Len(s) /\ \A k \in i..Len(s) : IsDigit(s[k])
IsDecimal(s) == LET i == IF Len(s) >= 1 /\ s[1] \in {43, 45} THEN 2 ELSE 1
                    dot == FirstIn(s, i, {46})
                IN /\ dot > i /\ dot < Len(s)
                   /\ \A k \in i..Len(s) : k # dot => IsDigit(s[k])
DefaultValue(s) ==
  LET i == IF Len(s) >= 1 /\ s[1] \in {43, 45} THEN 2 ELSE 1
      neg == s # <<>> /\ s[1] = 45
  IN IF IsInt(s) THEN [t |-> "i", neg |-> neg /\ StripZ(DigitsOf(From(s, i))) # <<>>, d |-> StripZ(DigitsOf(From(s, i)))]
     ELSE IF IsDecimal(s) THEN
       LET dot == FirstIn(s, i, {46})
           a == DigitsOf(SubSeq(s, i, dot - 1)) \o DigitsOf(From(s, dot + 1))
           z == FirstOut(a, 1, {0})
           d == DropTail(From(a, z), 0)
       IN [t |-> "d", neg |-> neg, d |-> d, e |-> IF d = <<>> THEN 0 ELSE dot - i - (z - 1)]
     ELSE [t |-> "s", v |-> s]
(* Whether a default is read as a number is settled only where that is obvious. *)
Sure(s) == \/ s = <<>>
           \/ (IsInt(s) \/ IsDecimal(s)) /\ Len(s) <= 15
           \/ \E i \in 1..Len(s) : s[i] \notin (48..57 \cup {43, 45, 46} \cup {B("eEnNaAiIfFtTyY")[k] : k \in 1..14})
Attribute(name, f) ==
  LET S == IF f # <<>> /\ f[1] = LBrace THEN EndOf(f \o <<>>, 2, DefEnd) ELSE {}
      e == Least(S)
  IN IF S # {} /\ OptSpec(From(f, e + 9))
     THEN [k |-> "opt", name |-> name, f |-> From(f, e + 9), def |-> DefaultValue(SubSeq(f, 2, e - 1)), sure |-> Sure(SubSeq(f, 2, e - 1))]
     ELSE [k |-> "attr", name |-> name, f |-> f]

(* ---- placeholders ---------------------------------------------------------------- *)
LastOf(f) == IF f = <<>> THEN 0 ELSE f[Len(f)]
Stamp(f) ==
  LET local == LastOf(f) = Ch("l")
      g == IF local THEN SubSeq(f, 1, Len(f) - 1) \o <<TypeS>> ELSE f
      braced == g # <<>> /\ g[1] = LBrace
      e == FirstIn(g, 1, {RBrace})
      p == IF braced THEN SubSeq(g, 2, e - 1) ELSE <<>>
  IN IF LastOf(f) = Ch("d") THEN [k |-> "ts", num |-> TRUE, f |-> f, p |-> <<>>, local |-> FALSE]
     ELSE [k |-> "ts", num |-> FALSE, f |-> IF braced THEN From(g, e + 1) ELSE g,
           p |-> IF p = <<>> THEN DefaultPattern ELSE p, local |-> local]
HexSpec == B("#x")
Placeholder(name, has, f) ==
  LET one(t) == [ok |-> TRUE, toks |-> <<t>>] IN
  CASE name = B("message") -> one([k |-> "message", f |-> f])
    [] name = B("process") -> one([k |-> "process", f |-> f, n |-> has /\ LastOf(f) = TypeS])
    [] name = B("thread") -> one([k |-> "thread", f |-> IF has THEN f ELSE HexSpec,
                                  w |-> IF has /\ LastOf(f) = Ch("d") THEN "id" ELSE IF has /\ LastOf(f) = TypeS THEN "name" ELSE "hex"])
    [] name = B("severity") -> one([k |-> "sev", f |-> f, n |-> has /\ LastOf(f) = Ch("d")])
    [] name = B("timestamp") -> IF has THEN one(Stamp(f)) ELSE one([k |-> "ts", num |-> FALSE, f |-> <<>>, p |-> DefaultPattern, local |-> FALSE])
    [] name = B("...") -> IF has THEN Leftover(f) ELSE one([k |-> "rest", f |-> <<>>, sep |-> DefaultSep, pat |-> DefaultParts])
    [] OTHER -> IF has THEN one(Attribute(name, f)) ELSE one([k |-> "attr", name |-> name, f |-> f])

(* The closing brace that balances the placeholder whose inside starts at i. *)
RECURSIVE Balance(_, _, _)
Balance(s, i, open) ==
  IF i > Len(s) THEN 0
  ELSE IF s[i] = LBrace THEN Balance(s, i + 1, open + 1)
  ELSE IF s[i] = RBrace THEN IF open = 1 THEN i ELSE Balance(s, i + 1, open - 1)
  ELSE Balance(s, i + 1, open)

RECURSIVE ParseFrom(_, _, _)
ParseFrom(s, i, acc) ==
  IF i > Len(s) THEN [ok |-> TRUE, toks |-> acc]
  ELSE LET l == Literal(s, i, <<>>) IN
  IF l.i > i THEN ParseFrom(s, l.i, Append(acc, [k |-> "lit", s |-> l.s]))
  ELSE IF s[i] = RBrace THEN NoTok
  ELSE LET n == FirstOut(s, i + 1, NameChars)
           name == SubSeq(s, i + 1, n - 1) IN
       IF n > Len(s) THEN NoTok
       ELSE IF s[n] = RBrace THEN LET t == Placeholder(name, FALSE, <<>>) IN ParseFrom(s, n + 1, acc \o t.toks)
       ELSE IF s[n] # 58 THEN NoTok
       ELSE LET e == Balance(s, n + 1, 1) IN
            IF e = 0 THEN NoTok
            ELSE LET t == Placeholder(name, TRUE, SubSeq(s, n + 1, e - 1)) IN
                 IF t.ok THEN ParseFrom(s, e + 1, acc \o t.toks) ELSE NoTok
Parse(s) == ParseFrom(s, 1, <<>>)

(* ---- printing ---------------------------------------------------------------------- *)
(* An attribute's value: the kinds of Fmt, "n" (nothing) and "f" (a user's own writer, *)
(* which takes no specification).                                                      *)
Value(f, v) == IF v.t = "n" THEN FmtBy(f, [t |-> "s", v |-> B("none")])
               ELSE IF v.t = "f" THEN Good(v.v)
               ELSE FmtBy(f, v)
Str(s) == [t |-> "s", v |-> s]

Glue(rs) == IF \E i \in 1..Len(rs) : ~rs[i].ok THEN Bad ELSE Good(Cat([i \in 1..Len(rs) |-> rs[i].s]))
Flat(lists) == LET RECURSIVE G(_)
                   G(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o G(Tail(ls))
               IN G(lists)
Part(t, a) == CASE t.k = "lit" -> Good(t.s)
                [] t.k = "name" -> FmtBy(t.f, Str(a.k))
                [] t.k = "value" -> Value(t.f, a.v)
(* r: record with message, sev (value), attrs (flat, in order), pid, lwp, tid (values), *)
(* proc, thr (bytes), t (instant); z: the local zone; map: names of severities or <<>>. *)
Rest(t, r) ==
  IF r.attrs = <<>> THEN Good(<<>>)
  ELSE LET one(i) == (IF i > 1 THEN <<Good(t.sep)>> ELSE <<>>) \o [j \in 1..Len(t.pat) |-> Part(t.pat[j], r.attrs[i])]
           all == Glue(Flat([i \in 1..Len(r.attrs) |-> one(i)]))
       IN IF all.ok /\ all.s # <<>> THEN FmtBy(t.f, Str(all.s)) ELSE all
Find(attrs, name) == {i \in 1..Len(attrs) : attrs[i].k = name /\ \A j \in 1..(i - 1) : attrs[j].k # name}
SevText(f, r, map) ==
  LET n == DigitsNat(r.sev.d) IN
  IF ~r.sev.neg /\ Len(r.sev.d) < 6 /\ n < Len(map) THEN FmtBy(f, Str(map[n + 1])) ELSE FmtBy(f, r.sev)
Written1(t, r, z, map) ==
  CASE t.k = "lit" -> Good(t.s)
    [] t.k = "message" -> FmtBy(t.f, Str(r.message))
    [] t.k = "process" -> IF t.n THEN FmtBy(t.f, Str(r.proc)) ELSE FmtBy(t.f, r.pid)
    [] t.k = "thread" -> (CASE t.w = "hex" -> FmtBy(t.f, r.tid)
                            [] t.w = "id" -> FmtBy(t.f, r.lwp)
                            [] t.w = "name" -> FmtBy(t.f, Str(r.thr)))
    [] t.k = "sev" -> IF t.n THEN FmtBy(t.f, r.sev) ELSE SevText(t.f, r, map)
    [] t.k = "ts" -> IF t.num THEN FmtBy(t.f, [t |-> "i", neg |-> FALSE, d |-> MicroDigits(r.t.d, r.t.s, r.t.u)])
                     ELSE FmtBy(t.f, Str(Strftime(t.p, r.t, IF t.local THEN z ELSE Utc)))
    [] t.k = "rest" -> Rest(t, r)
    [] t.k = "attr" -> LET S == Find(r.attrs, t.name) IN
                       IF S = {} THEN Bad ELSE Value(t.f, r.attrs[CHOOSE i \in S : TRUE].v)
    [] t.k = "opt" -> LET S == Find(r.attrs, t.name) IN
                      IF S = {} THEN FmtBy(t.f, t.def) ELSE Value(t.f, r.attrs[CHOOSE i \in S : TRUE].v)
Written(toks, r, z, map) == Glue([i \in 1..Len(toks) |-> Written1(toks[i], r, z, map)])
=============================================================================
