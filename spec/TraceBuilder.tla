---------------------------- MODULE TraceBuilder ----------------------------
(* Sessions with registries, builders and loggers, made from real documents   *)
(* and observed at everything that their records reach.                       *)
EXTENDS TraceBase, Builder, FiniteSets
VARIABLES n, refs, regs, blds, logs, names, inos, fst
vars == <<n, refs, regs, blds, logs, names, inos, fst, tr, l>>
Dead == [alive |-> FALSE]
Init == /\ TraceBaseInit /\ n = 0 /\ refs = <<>>
        /\ regs = << Essentials, <<>> >>               \* a configured one and an empty one
        /\ blds = <<>> /\ logs = <<>>
        /\ names = [p \in {Cfg.names[i] : i \in 1..Len(Cfg.names)} |-> 0] /\ inos = <<>>
        /\ fst = <<>>
Op == Cfg.ops[n]
Does(k) == n >= 1 /\ n <= Len(Cfg.ops) /\ Is(k) /\ Op.op = k /\ Consume /\ n' = n + 1
Recs == Cfg.recs

(* The texts of formatters made by hand, for every record; some cannot be made. *)
Refs == /\ n = 0 /\ Is("refs") /\ Consume /\ n' = 1 /\ refs' = E.refs
        /\ Len(E.refs) = Len(Cfg.refs) /\ UNCHANGED <<regs, blds, logs, names, inos, fst>>
RefOf(d) == LET S == {i \in 1..Len(Cfg.refs) : Cfg.refs[i] = d} IN refs[CHOOSE i \in S : TRUE]
Decimal(v) == IF v < 0 THEN <<45>> \o ShowNat(-v) ELSE ShowNat(v)
(* The user's formatter is known here. *)
TextOf(d, r) == IF d.k = "uf" THEN d.tag \o <<58>> \o Decimal(Recs[r].sev) \o <<58>> \o Recs[r].msg ELSE RefOf(d).t[r]
(* Errors of formatters that cannot be made from what is written there. *)
MadeErr(handlers) == {[st |-> RefOf(handlers[i].f).st, has |-> <<>>] :
                        i \in {j \in 1..Len(handlers) : handlers[j].k = "blocking" /\ handlers[j].f.k # "uf" /\ RefOf(handlers[j].f).st # "ok"}}

(* What the user's parts that are alive are. *)
RECURSIVE UserSinks(_)
UserSinks(s) == IF s.k = "rec" THEN 1 ELSE IF s.k = "async" THEN UserSinks(s.sink) ELSE IF s.k = "console" /\ s.filter.k = "deny" THEN 1 ELSE 0
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
UserParts(h) == IF h.k = "uh" THEN 1 ELSE (IF h.f.k = "uf" THEN 1 ELSE 0) + Sum([i \in 1..Len(h.sinks) |-> UserSinks(h.sinks[i])])
Live(ls) == Sum([i \in 1..Len(ls) |-> IF ls[i].alive THEN Sum([j \in 1..Len(ls[i].hs) |-> UserParts(ls[i].hs[j])]) ELSE 0])

(* What is to be found in the file system. *)
Disk(nm, io) == /\ Len(E.files) = Cardinality({p \in DOMAIN nm : nm[p] # 0})
                /\ \A i \in 1..Len(E.files) : E.files[i].p \in DOMAIN nm /\ nm[E.files[i].p] # 0 /\ E.files[i].c = io[nm[E.files[i].p]]

Register == /\ Does("reg") /\ regs' = [regs EXCEPT ![Op.g] = Append(@, [cat |-> Op.cat, type |-> Op.type, impl |-> Op.impl])]
            /\ UNCHANGED <<refs, blds, logs, names, inos, fst>>
(* Asking for a factory. *)
Ask == /\ Does("get")
       /\ IF Impl(regs[Op.g], Op.cat, Op.type) = "" THEN Tells(Unknown(Op.type), E.st, E.what) ELSE E.st = "ok"
       /\ UNCHANGED <<refs, regs, blds, logs, names, inos, fst>>
NewBuilder == /\ Does("builder")
              /\ LET d == ReadConfig(Cfg.docs[Op.d])
                 IN /\ IF d.ok THEN E.st = "ok" ELSE E.st = "invalid_argument"
                    /\ blds' = Append(blds, [alive |-> d.ok, g |-> Op.g, doc |-> d.v])
              /\ UNCHANGED <<refs, regs, logs, names, inos, fst>>
NoBuilder == Does("dropb") /\ blds' = [blds EXCEPT ![Op.b].alive = FALSE] /\ UNCHANGED <<refs, regs, logs, names, inos, fst>>
(* A registry goes away (with its builders): the loggers stay. *)
NoRegistry == /\ Does("dropreg") /\ blds' = [i \in 1..Len(blds) |-> [blds[i] EXCEPT !.alive = @ /\ blds[i].g # Op.g]]
              /\ UNCHANGED <<refs, regs, logs, names, inos, fst>>

Built == /\ Does("build")
         /\ IF ~blds[Op.b].alive THEN E.st = "skipped" /\ logs' = Append(logs, Dead)
            ELSE LET b == blds[Op.b]
                     r == Described(regs[b.g], b.doc, Op.name)
                     errs == IF r.err # {} THEN r.err ELSE MadeErr(r.v)
                     \* Formatters may be made before what is wrong elsewhere is seen.
                 IN IF errs = {} THEN E.st = "ok" /\ logs' = Append(logs, [alive |-> TRUE, hs |-> r.v, due |-> <<>>])
                    ELSE (\E e \in errs \cup (IF r.err = {} THEN {} ELSE {[st |-> refs[i].st, has |-> <<>>] : i \in {j \in 1..Len(refs) : refs[j].st # "ok"}}) : Tells(e, E.st, E.what))
                         /\ logs' = Append(logs, Dead)
         /\ E.live = Live(logs')
         /\ UNCHANGED <<refs, regs, blds, names, inos, fst>>

(* One record: sinks in order; files change, effects are added. *)
Key(lg, at) == <<lg, at[1], at[2]>>
RECURSIVE Run(_, _, _, _, _)
Run(lg, ps, r, out, w) ==
  IF ps = <<>> THEN [out |-> out, w |-> w]
  ELSE LET p == Head(ps)
           text == IF p.f.k = "none" THEN <<>> ELSE TextOf(p.f, r)
           sev == Recs[r].sev
           es == Effects(p.s, sev, text)
           out2 == IF es = <<>> THEN out ELSE AddEffect(out, es[1])
           k == Key(lg, p.at)
           st == IF k \in DOMAIN w.fst THEN w.fst[k] ELSE Closed
           x == FileEmit(p.s, st, w.names, w.inos, text)
       IN IF p.s.k = "file" THEN Run(lg, Tail(ps), r, out, [names |-> x.names, inos |-> x.inos, fst |-> (k :> x.st) @@ w.fst])
          ELSE Run(lg, Tail(ps), r, out2, w)
World == [names |-> names, inos |-> inos, fst |-> fst]
(* What asynchronous sinks were given, for user's sinks behind them, each one's own. *)
Behind(lg, r) == LET ps == Parts(logs[lg].hs) IN
  Cat([i \in 1..Len(ps) |-> IF ps[i].s.k = "async" /\ Inner(ps[i].s).k = "rec" THEN << [id |-> Inner(ps[i].s).id, b |-> TextOf(ps[i].f, r)] >> ELSE <<>>])
Log == /\ Does("log")
       /\ IF ~logs[Op.l].alive THEN E.st = "skipped" /\ UNCHANGED <<logs, names, inos, fst>>
          ELSE LET x == Run(Op.l, Parts(logs[Op.l].hs), Op.r, <<>>, World)
               IN /\ E.st = "ok" /\ E.out = x.out /\ Disk(x.w.names, x.w.inos)
                  /\ names' = x.w.names /\ inos' = x.w.inos /\ fst' = x.w.fst
                  /\ logs' = [logs EXCEPT ![Op.l].due = @ \o Behind(Op.l, Op.r)]
       /\ UNCHANGED <<refs, regs, blds>>
(* Many records while what is behind the asynchronous sink does not move: it  *)
(* holds as many as configured (and one on its way); others wait or are lost. *)
Flood == /\ Does("flood")
         /\ IF ~logs[Op.l].alive THEN E.st = "skipped"
            ELSE LET ps == Parts(logs[Op.l].hs)
                     a == CHOOSE p \in {ps[i] : i \in 1..Len(ps)} : p.s.k = "async"
                     cap == 2 ^ a.s.factor
                     held == IF Op.n > cap THEN {cap, cap + 1} ELSE {Op.n}
                 IN E.st = "ok" /\ IF a.s.drop THEN E.got \in held /\ E.before = Op.n ELSE E.got = Op.n /\ E.before \in held
         /\ UNCHANGED <<refs, regs, blds, logs, names, inos, fst>>
RECURSIVE CloseAll(_, _, _)
CloseAll(S, f, io) == IF S = {} THEN io ELSE LET k == CHOOSE k \in S : TRUE IN CloseAll(S \ {k}, f, FileClose(f[k], io))
Mine(id, s) == SelectSeq(s, LAMBDA e : e.id = id)
(* What a destroyed logger held is in place; the order of files closed does not matter but for their order of bytes. *)
Orders(S) == {o \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => o[i] # o[j]}
RECURSIVE CloseIn(_, _, _)
CloseIn(o, f, io) == IF o = <<>> THEN io ELSE CloseIn(Tail(o), f, FileClose(f[Head(o)], io))
Drop == /\ Does("drop")
        /\ IF ~logs[Op.l].alive THEN E.st = "skipped" /\ UNCHANGED <<logs, inos, fst>>
           ELSE LET S == {k \in DOMAIN fst : k[1] = Op.l}
                    due == logs[Op.l].due
                    ids == {due[i].id : i \in 1..Len(due)} \cup {E.async[i].id : i \in 1..Len(E.async)}
                IN /\ E.st = "ok"
                   /\ \A id \in ids : Mine(id, E.async) = Mine(id, due)
                   /\ logs' = [logs EXCEPT ![Op.l] = Dead]
                   /\ fst' = [k \in DOMAIN fst \ S |-> fst[k]]
                   /\ \E o \in Orders(S) : inos' = CloseIn(o, fst, inos) /\ Disk(names, inos')
        /\ E.live = Live(logs')
        /\ UNCHANGED <<refs, regs, blds, names>>
Move == /\ Does("move")
        /\ IF names[Op.from] = 0 THEN UNCHANGED names ELSE names' = [names EXCEPT ![Op.from] = 0, ![Op.to] = names[Op.from]]
        /\ Disk(names', inos)
        /\ UNCHANGED <<refs, regs, blds, logs, inos, fst>>
End == /\ Is("end") /\ Consume /\ E.st = "ok" /\ n = Len(Cfg.ops) + 1 /\ UNCHANGED <<n, refs, regs, blds, logs, names, inos, fst>>
Spec == Init /\ [][Refs \/ Register \/ Ask \/ NewBuilder \/ NoBuilder \/ NoRegistry \/ Built \/ Log \/ Flood \/ Drop \/ Move \/ End]_vars
=============================================================================
