----------------------------- MODULE TraceFile -----------------------------
(* Executions of real file sinks on a real file system against FileSink.     *)
(* Contents are strings of hex digits.                                       *)
EXTENDS TraceBase, FileSink

tvars == <<vars, tr, l>>

TNames == {"a", "b", "c", "s/a", "s/b"}
TSub == {"s/a", "s/b"}
TInodes == 1..40
TThreads == 1..4
TSinks == 1..4
TNil == ""
TSize(c) == Len(c) \div 2
TNewline(m) == m \o "0a"

Range0(q) == { q[i] : i \in 1..Len(q) }

TInit == TraceBaseInit /\ Init
Step(A) == A /\ Consume

TNew == Is("new") /\ Step(New(E.s, E.path, E.pol, E.n, E.rot = 1))
TDel == Is("del") /\ Step(Delete(E.s))
TCall == Is("call") /\ Step(EmitCall(E.t, E.s, E.m))
TRet == Is("ret") /\ th[E.t].res = E.res /\ Step(EmitReturn(E.t))
TNoFile == Is("nofile") /\ Step(NoFile(E.on = 1))
Do(op) ==
  CASE op[1] = "rename" -> Rename(op[2], op[3])
    [] op[1] = "unlink" -> Unlink(op[2])
    [] op[1] = "fresh" -> Fresh(op[2], op[3])
    [] op[1] = "hard" -> HardLink(op[2], op[3])
    [] op[1] = "sym" -> SymLink(op[2], op[3])
    [] op[1] = "mkdir" -> MakeDir(op[2])
    [] op[1] = "bad" -> MakeBad(op[2], op[3])
    [] op[1] = "ext" -> External(op[2], op[3])
    [] op[1] = "trunc" -> Truncate(op[2])
    [] op[1] = "away" -> SubAway
    [] op[1] = "back" -> SubBack
    [] OTHER -> FALSE
TFs == Is("fs") /\ Step(Do(E.op))

(* What is seen from outside. *)
SeenKind(x) == LET k == name[x].k IN IF k \in {"link", "bad"} THEN "other" ELSE k
SeenContent(x) == IF name[x].k = "file" THEN content[name[x].i] ELSE ""
Orphans == { i \in 1..used : \A x \in Names : ~(name[x].k = "file" /\ name[x].i = i) }
SameBag(q, S) == /\ Len(q) = Cardinality(S)
                 /\ \A c \in Range0(q) : Cardinality({ i \in 1..Len(q) : q[i] = c }) = Cardinality({ i \in S : content[i] = c })
SeenNames == \A i \in 1..Len(E.names) :
               LET e == E.names[i] IN e[2] = SeenKind(e[1]) /\ e[3] = SeenContent(e[1])
TLook == /\ Is("look") /\ Consume /\ UNCHANGED vars
         /\ E.extra = 0
         /\ SeenNames
         /\ SameBag(E.orphans, Orphans)
TEnd == Is("end") /\ E.st = "ok" /\ Consume /\ UNCHANGED vars

(* A sink may hand over early what is too much to keep. *)
Much(s) == TSize(sk[s].pend) >= Cfg.spill
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
TSpill ==
  /\ More /\ Stay
  /\ \E s \in Sinks :
       /\ sk[s].alive /\ sk[s].open # 0 /\ Much(s)
       /\ \/ Spill(s, sk[s].pend, "")
          \/ (* some of it: as much as can be seen *)
             /\ Is("look")
             /\ \E seen \in { e[3] : e \in Range0(E.names) } \cup Range0(E.orphans) :
                  LET have == content[sk[s].open]
                      k == Len(seen) - Len(have) IN
                    /\ k > 0 /\ k <= Len(sk[s].pend)
                    /\ IsPrefix(have, seen)
                    /\ Spill(s, SubSeq(sk[s].pend, 1, k), SubSeq(sk[s].pend, k + 1, Len(sk[s].pend)))

Silent == (More /\ Stay /\ \E t \in Threads : EmitDo(t)) \/ TSpill

TNext == TNew \/ TDel \/ TCall \/ TRet \/ TNoFile \/ TFs \/ TLook \/ TEnd \/ Silent
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
