------------------------------- MODULE MCFile -------------------------------
(* FileSink model checked on its own: lines are numbered messages, contents  *)
(* are sequences of lines.                                                   *)
EXTENDS FileSink, TLC

CONSTANTS Confs, MaxEmits, MaxFS, Mistake

VARIABLES nem, nfs, acked, at   \* emits so far, changes so far, lines whose emit succeeded in order by sink, inode each went to
mvars == <<vars, nem, nfs, acked, at>>

MSize(c) == 2 * Len(c)
MNewline(m) == <<m>>
Hist == UNCHANGED <<nem, nfs, acked, at>>

MInit == Init /\ nem = 0 /\ nfs = 0 /\ acked = [s \in Sinks |-> <<>>] /\ at = [x \in 1..MaxEmits |-> 0]
Quiet == \A t \in Threads : th[t].pc = "idle"
MNew == \E s \in Sinks, c \in Confs : New(s, c.path, c.pol, c.n, c.rot) /\ acked[s] = <<>> /\ Hist
MDelete == \E s \in Sinks : Delete(s) /\ Hist
MCall == /\ nem < MaxEmits /\ nem' = nem + 1
         /\ \E t \in Threads, s \in Sinks : EmitCall(t, s, nem + 1)
         /\ UNCHANGED <<nfs, acked, at>>
MDo == \E t \in Threads :
         /\ EmitDo(t)
         /\ IF th'[t].pc = "done" /\ th'[t].res = "ok"
              THEN /\ acked' = [acked EXCEPT ![th[t].i] = Append(@, th[t].m)]
                   /\ at' = [at EXCEPT ![th[t].m] = sk'[th[t].i].open]
              ELSE UNCHANGED <<acked, at>>
         /\ UNCHANGED <<nem, nfs>>
MRet == \E t \in Threads : EmitReturn(t) /\ Hist
MFs == /\ Quiet /\ nfs < MaxFS /\ nfs' = nfs + 1
       /\ \/ \E a, b \in Names : Rename(a, b) \/ HardLink(a, b) \/ SymLink(a, b)
          \/ \E a \in Names : Unlink(a) \/ Fresh(a, <<>>) \/ MakeDir(a) \/ MakeBad(a, "ENOENT")
          \/ SubAway \/ SubBack \/ NoFile(~nofile)
       /\ UNCHANGED <<nem, acked, at>>

(* Reopening without handing over what the old file was owed.                *)
MLose == /\ Mistake = "lose"
         /\ \E s \in Sinks : sk[s].open # 0 /\ sk' = [sk EXCEPT ![s].open = 0, ![s].pend = Nil, ![s].cnt = 0]
         /\ UNCHANGED <<fvars, th>> /\ Hist

(* Opening an existing file without appending.                               *)
MTrunc == /\ Mistake = "trunc"
          /\ \E t \in Threads :
               /\ th[t].pc = "called" /\ sk[th[t].i].open = 0 /\ Denotes(sk[th[t].i].path) # 0
               /\ content' = [content EXCEPT ![Denotes(sk[th[t].i].path)] = Nil]
          /\ UNCHANGED <<name, subdir, nofile, used, sk, th>> /\ Hist

MNext == MTrunc \/ MNew \/ MDelete \/ MCall \/ MDo \/ MRet \/ MFs \/ MLose
MSpec == MInit /\ [][MNext]_mvars

Range(q) == { q[i] : i \in 1..Len(q) }
Owner(m) == CHOOSE s \in Sinks : m \in Range(acked[s])
Place(m) == at[m]

(* P09/P11: each acknowledged line is exactly once either in the file its    *)
(* emit went to, or still held by its sink for that very file.               *)
Occ(q, m) == Cardinality({ i \in 1..Len(q) : q[i] = m })
NothingLost ==
  \A s \in Sinks : \A m \in Range(acked[s]) :
    LET held == IF sk[s].alive THEN Occ(sk[s].pend, m) ELSE 0 IN
      /\ Occ(content[at[m]], m) + held = 1
      /\ held = 1 => sk[s].open = at[m]
      /\ \A i \in Inodes \ {at[m]} : Occ(content[i], m) = 0
(* Order within a sink and a file.                                           *)
InOrder ==
  \A i \in Inodes : \A s \in Sinks :
    LET mine == SelectSeq(content[i], LAMBDA m : m \in Range(acked[s]))
        want == SelectSeq(acked[s], LAMBDA m : m \in Range(mine)) IN mine = want
(* P11: a sink that follows rotation writes to what its path denotes.        *)
Follows == [][\A t \in Threads : th[t].pc = "called" /\ th'[t].pc = "done" /\ th'[t].res = "ok" =>
               LET s == th[t].i IN sk[s].rot => sk'[s].open = (LET r == Walk(sk[s].path, 5)' IN IF r.k = "file" THEN r.i ELSE 0)]_mvars
(* Without rotation the file never changes while the sink lives.             *)
Sticks == [][\A s \in Sinks : sk[s].alive /\ sk'[s].alive /\ sk[s].open # 0 /\ ~sk[s].rot => sk'[s].open = sk[s].open]_mvars
(* P10                                                                       *)
Flushed ==
  \A s \in Sinks : sk[s].alive =>
    /\ sk[s].pol = "count" => sk[s].cnt < sk[s].n /\ Len(sk[s].pend) = sk[s].cnt
    /\ sk[s].pol = "bytes" => sk[s].cnt < sk[s].n /\ MSize(sk[s].pend) < sk[s].n
(* P09: contents only ever grow.                                             *)
Grows == [][\A i \in Inodes : Len(content'[i]) >= Len(content[i]) /\ SubSeq(content'[i], 1, Len(content[i])) = content[i]]_mvars
(* P12: an emit fails exactly when the file cannot be opened.                *)
FailsOnlyThen == [][\A t \in Threads : th[t].pc = "called" /\ th'[t].pc = "done" =>
                     LET s == th[t].i
                         cannot == nofile \/ Resolve(sk[s].path).k \in {"bad", "dir"}
                         must == sk[s].open = 0 \/ (sk[s].rot /\ Denotes(sk[s].path) # sk[s].open)
                     IN (th'[t].res # "ok") = (cannot /\ must)]_mvars

MNames == {"a", "b", "s/a"}
MSub == {"s/a"}
C(p, k, n, r) == [path |-> p, pol |-> k, n |-> n, rot |-> r]
Confs1 == {C("a", "count", 2, TRUE), C("a", "bytes", 3, FALSE)}
Confs2 == {C("a", "count", 1, TRUE), C("a", "bytes", 3, TRUE), C("a", "none", 0, FALSE), C("s/a", "count", 2, TRUE)}
T2 == 1..2
S1 == 1..1
S2 == 1..2
I4 == 1..4
I5 == 1..5
E0 == <<>>
=============================================================================
