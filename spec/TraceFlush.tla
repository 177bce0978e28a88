----------------------------- MODULE TraceFlush -----------------------------
(* Flush thresholds: how they are spelled and when they act, also for sizes  *)
(* far beyond what is really written to a file system.  Only numbers of      *)
(* bytes are observed: what was emitted and what was handed to the system.   *)
EXTENDS TraceBase, Integers

VARIABLES made, pend, cnt
fvars == <<made, pend, cnt, tr, l>>

(* ---- exact arithmetic on decimal digits (most significant first) --------- *)
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 0 /\ Head(d) = 0 THEN Strip(Tail(d)) ELSE d
(* d * m + c *)
RECURSIVE MulAdd(_, _, _)
MulAdd(d, m, c) ==
  IF d = <<>> THEN IF c = 0 THEN <<>> ELSE MulAdd(<<>>, m, c \div 10) \o <<c % 10>>
  ELSE LET x == d[Len(d)] * m + c IN MulAdd(SubSeq(d, 1, Len(d) - 1), m, x \div 10) \o <<x % 10>>
RECURSIVE Scale(_, _, _)
Scale(d, m, k) == IF k = 0 THEN d ELSE Scale(MulAdd(d, m, 0), m, k - 1)
RECURSIVE Less(_, _)
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
              ELSE IF a = <<>> THEN FALSE
              ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))
Two64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,6>>
Small == <<2,0,0,0,0,0,0,0,0,0>>
RECURSIVE ToInt(_)
ToInt(d) == IF d = <<>> THEN 0 ELSE ToInt(SubSeq(d, 1, Len(d) - 1)) * 10 + d[Len(d)]

Units == { <<"", 1, 0>>, <<"B", 1, 0>>, <<"kB", 1000, 1>>, <<"MB", 1000, 2>>, <<"GB", 1000, 3>>,
           <<"KiB", 1024, 1>>, <<"MiB", 1024, 2>>, <<"GiB", 1024, 3>> }

(* What the configuration asks for: kind and threshold (0: never by itself). *)
HasUnit == \E u \in Units : u[1] = Cfg.unit
Bytes == LET u == CHOOSE u \in Units : u[1] = Cfg.unit IN Strip(Scale(Strip(Cfg.digits), u[2], u[3]))
Refused == Cfg.kind = "string" /\ (Cfg.digits = <<>> \/ ~HasUnit \/ ~Less(Bytes, Two64))
Amount == IF Cfg.kind = "none" THEN <<>> ELSE IF Cfg.kind = "number" THEN Strip(Cfg.digits) ELSE Bytes
(* Beyond what these programs emit, a threshold never acts. *)
Limit == IF Less(Amount, Small) THEN ToInt(Amount) ELSE 0
Policy == IF Limit = 0 THEN "none" ELSE IF Cfg.kind = "number" THEN "count" ELSE "bytes"

Init == TraceBaseInit /\ made = FALSE /\ pend = 0 /\ cnt = 0
Made == /\ Is("made") /\ Consume /\ ~made
        /\ E.res = IF Refused THEN "invalid_argument" ELSE "ok"
        /\ made' = (E.res = "ok") /\ UNCHANGED <<pend, cnt>>
Wrote ==
  LET n == E.n + 1
      c == IF Policy = "count" THEN cnt + 1 ELSE cnt + n
      due == Policy # "none" /\ c >= Limit
      all == pend + n
  IN
  /\ Is("wrote") /\ Consume /\ made
  /\ cnt' = IF Policy = "none" THEN 0 ELSE c % Limit
  /\ pend' = all - E.out
  /\ E.out <= all
  /\ due => E.out = all
  (* without need, only what is much may go early *)
  /\ (~due /\ E.out > 0) => all >= Cfg.spill
  /\ UNCHANGED made
Closed == Is("closed") /\ Consume /\ made /\ E.out = pend /\ pend' = 0 /\ made' = FALSE /\ UNCHANGED cnt
End == Is("end") /\ Consume /\ E.st = "ok" /\ ~made /\ UNCHANGED <<made, pend, cnt>>
Spec == Init /\ [][Made \/ Wrote \/ Closed \/ End]_fvars
=============================================================================
