------------------------------- MODULE Facade -------------------------------
(* Messages with arguments: "{}", "{index}", "{:spec}", where width and       *)
(* precision of a specification may be arguments themselves.                  *)
(* Values are those of Fmt.tla, and characters [t |-> "c", v, neg, d].        *)
EXTENDS Fmt

FmtChar(f, v) ==
  LET p == ParseSpec(f) IN
  IF ~p.ok \/ p.prec >= 0 THEN Bad
  ELSE IF p.type \notin {0, Ch("c")} THEN FmtInt(v.neg, v.d, p)
  ELSE IF p.align = 61 \/ p.hash \/ p.sign # 0 THEN Bad
  ELSE Good(Pad(<<v.v>>, p.width, p.align, p.fill))
FmtArg(f, v) == IF v.t = "c" THEN FmtChar(f, v) ELSE FmtBy(f, v)

(* Which argument is meant: at i stands what follows the brace.  next: the    *)
(* next one in turn, -1 when arguments have been numbered.                    *)
NoArg == [ok |-> FALSE, i |-> 0, k |-> 0, next |-> 0]
ArgAt(s, i, next, n) ==
  IF i > Len(s) \/ IsAlpha(s[i]) \/ s[i] = 95 THEN NoArg
  ELSE IF IsDigit(s[i]) THEN
         LET j == FirstOut(s, i, Digits10)
             d == StripZ(DigitsOf(SubSeq(s, i, j - 1)))
         IN IF next > 0 \/ Len(d) > 6 THEN NoArg ELSE IF DigitsNat(d) >= n THEN NoArg
            ELSE [ok |-> TRUE, i |-> j, k |-> DigitsNat(d) + 1, next |-> -1]
  ELSE IF next < 0 \/ next >= n THEN NoArg
  ELSE [ok |-> TRUE, i |-> i, k |-> next + 1, next |-> next + 1]

(* An argument as width or precision. *)
Size(v) == IF v.t = "i" THEN ~v.neg /\ Less(v.d, TwoTo31) ELSE v.t = "u" /\ Less(v.d, TwoTo31)
Nested(s, i, next, args) ==       \* s[i] is the opening brace
  LET a == ArgAt(s, i + 1, next, Len(args)) IN
  IF ~a.ok THEN NoArg
  ELSE IF a.i > Len(s) THEN NoArg
  ELSE IF s[a.i] # RBrace \/ ~Size(args[a.k]) THEN NoArg
  ELSE [a EXCEPT !.i = a.i + 1]

NoSpec == [ok |-> FALSE, f |-> <<>>, i |-> 0, next |-> 0]
NotType == Digits10 \cup Aligns \cup {32, 35, 43, 45}
(* Optional type and the closing brace. *)
Ending(s, i, f, next) ==
  IF i > Len(s) THEN NoSpec
  ELSE IF s[i] = RBrace THEN [ok |-> TRUE, f |-> f, i |-> i + 1, next |-> next]
  ELSE IF s[i] \in NotType \/ i + 1 > Len(s) THEN NoSpec
  ELSE IF s[i + 1] # RBrace THEN NoSpec
  ELSE [ok |-> TRUE, f |-> Append(f, s[i]), i |-> i + 2, next |-> next]
Precision(s, i, f, next, args) ==   \* after the point
  IF i <= Len(s) /\ s[i] = LBrace THEN
       LET a == Nested(s, i, next, args) IN
       IF ~a.ok THEN NoSpec ELSE Ending(s, a.i, f \o <<46>> \o Show(args[a.k].d), a.next)
  ELSE LET j == FirstOut(s, i, Digits10) IN
       IF j = i THEN NoSpec ELSE Ending(s, j, f \o <<46>> \o SubSeq(s, i, j - 1), next)
(* From after the colon to after the closing brace; what it says, with sizes put in. *)
SpecAt(s, i, next, args) ==
  LET k == FirstIn(s, i, {LBrace, RBrace}) IN
  IF k > Len(s) THEN NoSpec
  ELSE IF s[k] = RBrace THEN [ok |-> TRUE, f |-> SubSeq(s, i, k - 1), i |-> k + 1, next |-> next]
  ELSE LET pre == SubSeq(s, i, k - 1)
           dot == pre # <<>> /\ pre[Len(pre)] = 46
           p == ParseSpec(IF dot THEN SubSeq(pre, 1, Len(pre) - 1) ELSE pre)
       IN IF ~p.ok \/ p.type # 0 \/ p.prec >= 0 THEN NoSpec
          ELSE IF dot THEN Precision(s, k, SubSeq(pre, 1, Len(pre) - 1), next, args)
          ELSE IF p.width # 0 THEN NoSpec
          ELSE LET a == Nested(s, k, next, args) IN
               IF ~a.ok THEN NoSpec
               ELSE LET f == pre \o IF args[a.k].d = <<>> THEN <<>> ELSE Show(args[a.k].d) IN
                    IF a.i <= Len(s) /\ s[a.i] = 46 THEN Precision(s, a.i + 1, f, a.next, args)
                    ELSE Ending(s, a.i, f, a.next)

(* [ok, s]: the text; uses: the arguments printed, in order. *)
Wrong == [ok |-> FALSE, s |-> <<>>, uses |-> <<>>]
RECURSIVE Substituted(_, _, _, _, _, _)
Substituted(s, i, next, args, acc, uses) ==
  LET k == FirstIn(s, i, {LBrace, RBrace})
      text == acc \o SubSeq(s, i, k - 1)
  IN
  IF k > Len(s) THEN [ok |-> TRUE, s |-> text, uses |-> uses]
  ELSE IF k < Len(s) /\ s[k + 1] = s[k] THEN Substituted(s, k + 2, next, args, Append(text, s[k]), uses)
  ELSE IF s[k] = RBrace THEN Wrong
  ELSE LET a == ArgAt(s, k + 1, next, Len(args)) IN
       IF ~a.ok THEN Wrong
       ELSE IF a.i > Len(s) THEN Wrong
       ELSE LET sp == IF s[a.i] = 58 THEN SpecAt(s, a.i + 1, a.next, args)
                      ELSE IF s[a.i] = RBrace THEN [ok |-> TRUE, f |-> <<>>, i |-> a.i + 1, next |-> a.next]
                      ELSE NoSpec
            IN IF ~sp.ok THEN Wrong
               ELSE LET w == FmtArg(sp.f, args[a.k]) IN
                    IF ~w.ok THEN Wrong
                    ELSE Substituted(s, sp.i, sp.next, args, text \o w.s, Append(uses, a.k))
Formatted(s, args) == Substituted(s, 1, 0, args, <<>>, <<>>)
=============================================================================
