------------------------------- MODULE Tskv -------------------------------
(* Tab-separated key-value lines.  A record becomes "tskv" and a number of    *)
(* fields, in order: constants, timestamps (both by the order of their keys), *)
(* severity, pid, tid, message, attributes as they stand in the record.       *)
(* Writing is a sequence of escapes, reading undoes it: Read(Line(x)) = x is  *)
(* checked by MCTskv.                                                          *)
EXTENDS Fmt, Calendar

Esc == << <<7, Ch("a")>>, <<8, Ch("b")>>, <<9, Ch("t")>>, <<10, Ch("n")>>, <<11, Ch("v")>>, <<12, Ch("f")>>, <<13, Ch("r")>>,
          <<27, Ch("e")>>, <<0, Ch("0")>>, <<92, 92>> >>
Equals == 61
Escaped(c) == {i \in 1..Len(Esc) : Esc[i][1] = c}
EscapeChar(c) == LET S == Escaped(c) IN IF S = {} THEN <<c>> ELSE <<92, Esc[CHOOSE i \in S : TRUE][2]>>
EscapeValue(s) == Cat([i \in 1..Len(s) |-> EscapeChar(s[i])])
EscapeKey(s) == Cat([i \in 1..Len(s) |-> IF s[i] = Equals THEN <<92, Equals>> ELSE EscapeChar(s[i])])

(* ---- reading ------------------------------------------------------------------ *)
(* [ok, s]: what was escaped; key: equals signs may be escaped, too. *)
RECURSIVE Unescape(_, _, _, _)
Unescape(s, i, key, acc) ==
  IF i > Len(s) THEN [ok |-> TRUE, s |-> acc]
  ELSE IF s[i] # 92 THEN
         IF Escaped(s[i]) # {} \/ (key /\ s[i] = Equals) THEN [ok |-> FALSE, s |-> <<>>] ELSE Unescape(s, i + 1, key, Append(acc, s[i]))
  ELSE IF i = Len(s) THEN [ok |-> FALSE, s |-> <<>>]
  ELSE IF key /\ s[i + 1] = Equals THEN Unescape(s, i + 2, key, Append(acc, Equals))
  ELSE LET S == {k \in 1..Len(Esc) : Esc[k][2] = s[i + 1]} IN
       IF S = {} THEN [ok |-> FALSE, s |-> <<>>] ELSE Unescape(s, i + 2, key, Append(acc, Esc[CHOOSE k \in S : TRUE][1]))

RECURSIVE Split(_, _)
Split(s, i) == LET k == FirstIn(s, i, {Tab}) IN
               IF k > Len(s) THEN <<From(s, i)>> ELSE <<SubSeq(s, i, k - 1)>> \o Split(s, k + 1)
RECURSIVE KeyEnd(_, _)
KeyEnd(s, i) == IF i > Len(s) THEN 0
                ELSE IF s[i] = 92 THEN KeyEnd(s, i + 2)
                ELSE IF s[i] = Equals THEN i ELSE KeyEnd(s, i + 1)
NoField == [ok |-> FALSE, k |-> <<>>, v |-> <<>>]
Field(s) == LET e == KeyEnd(s, 1) IN
            IF e = 0 THEN NoField
            ELSE LET k == Unescape(SubSeq(s, 1, e - 1), 1, TRUE, <<>>)
                     v == Unescape(From(s, e + 1), 1, FALSE, <<>>)
                 IN IF k.ok /\ v.ok THEN [ok |-> TRUE, k |-> k.s, v |-> v.s] ELSE NoField
(* [ok, fields] of a line. *)
Read(s) == LET f == Split(s, 1)
               g == [i \in 1..(Len(f) - 1) |-> Field(f[i + 1])]
           IN IF f[1] = B("tskv") /\ \A i \in 1..Len(g) : g[i].ok
              THEN [ok |-> TRUE, fields |-> [i \in 1..Len(g) |-> [k |-> g[i].k, v |-> g[i].v]]]
              ELSE [ok |-> FALSE, fields |-> <<>>]
Line(fields) == B("tskv") \o Cat([i \in 1..Len(fields) |-> <<Tab>> \o EscapeKey(fields[i].k) \o <<Equals>> \o EscapeValue(fields[i].v)])

(* ---- the fields of a record ------------------------------------------------------ *)
RECURSIVE Before2(_, _)
Before2(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Before2(Tail(a), Tail(b))
(* Pairs [key, value] as a map: the last one of a key counts, ordered by keys. *)
LastOnes(ps) == {i \in 1..Len(ps) : \A j \in (i + 1)..Len(ps) : ps[j][1] # ps[i][1]}
RECURSIVE Sorted(_, _)
Sorted(ps, S) == IF S = {} THEN <<>>
                 ELSE LET m == CHOOSE i \in S : \A j \in S : j = i \/ Before2(ps[i][1], ps[j][1])
                      IN <<ps[m]>> \o Sorted(ps, S \ {m})
AsMap(ps) == Sorted(ps, LastOnes(ps))

HexText(d) == B("0x") \o LET x == InBase(d, 16) IN [i \in 1..Len(x) |-> Glyph(FALSE)[x[i]]]
AttrText(v) == IF v.t = "n" THEN B("none") ELSE IF v.t = "f" THEN v.v ELSE FmtBy(<<>>, v).s
(* conf: [create, rename, remove, times]; times: [name, p, gm]. *)
TskvFields(conf, r, z) ==
  LET stamps == AsMap(<< <<B("timestamp"), B("%Y-%m-%d %H:%M:%S %z"), TRUE>> >> \o conf.times)
      raw == [i \in 1..Len(AsMap(conf.create)) |-> [k |-> AsMap(conf.create)[i][1], v |-> AsMap(conf.create)[i][2]]]
             \o [i \in 1..Len(stamps) |-> [k |-> stamps[i][1], v |-> Strftime(stamps[i][2], r.t, IF stamps[i][3] THEN Utc ELSE z)]]
             \o << [k |-> B("severity"), v |-> FmtBy(<<>>, r.sev).s], [k |-> B("pid"), v |-> Show(r.pid.d)],
                   [k |-> B("tid"), v |-> HexText(r.tid.d)], [k |-> B("message"), v |-> r.message] >>
             \o [i \in 1..Len(r.attrs) |-> [k |-> r.attrs[i].k, v |-> AttrText(r.attrs[i].v)]]
      gone(k) == \E i \in 1..Len(conf.remove) : conf.remove[i] = k
      names == AsMap(conf.rename)
      named(k) == LET S == {i \in 1..Len(names) : names[i][1] = k} IN IF S = {} THEN k ELSE names[CHOOSE i \in S : TRUE][2]
      kept == SelectSeq(raw, LAMBDA f : ~gone(f.k))
  IN [i \in 1..Len(kept) |-> [k |-> named(kept[i].k), v |-> kept[i].v]]
=============================================================================
