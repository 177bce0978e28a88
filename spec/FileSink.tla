------------------------------ MODULE FileSink ------------------------------
(* File sinks and the file system below them: names, inodes and their        *)
(* contents, sinks with the file they hold open, what they have not yet      *)
(* handed to the system, and their flush counters.                           *)
(* Contents are sequences (of lines when model checking, of bytes - as       *)
(* strings of hex digits - when traces are checked).                         *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS
  Threads, Sinks, Names,
  Sub,            \* the names that live in the subdirectory
  Inodes,         \* inode numbers, from 1
  Nil,            \* empty content
  Size(_),        \* bytes of a piece of content
  Newline(_)      \* a message followed by a newline

VARIABLES
  name,     \* name -> [k |-> "no"] | [k |-> "file", i] | [k |-> "dir"] | [k |-> "link", to] | [k |-> "bad", err]
  subdir,   \* the subdirectory is there
  nofile,   \* the process cannot open any more files
  content,  \* inode -> content
  used,     \* number of inodes handed out
  sk,       \* sink -> [alive, path, pol, n, rot, open, pend, cnt]
  th        \* thread -> [pc, i, m, res]

fvars == <<name, subdir, nofile, content, used>>
vars == <<fvars, sk, th>>

No == [k |-> "no"]
File(i) == [k |-> "file", i |-> i]
NoSink == [alive |-> FALSE, path |-> 0, pol |-> "none", n |-> 0, rot |-> FALSE, open |-> 0, pend |-> Nil, cnt |-> 0]
Idle == [pc |-> "idle", i |-> 0, m |-> Nil, res |-> "ok"]

Init ==
  /\ name = [x \in Names |-> No]
  /\ subdir = TRUE /\ nofile = FALSE
  /\ content = [i \in Inodes |-> Nil]
  /\ used = 0
  /\ sk = [s \in Sinks |-> NoSink]
  /\ th = [t \in Threads |-> Idle]

(* ---- path resolution ---------------------------------------------------- *)

(* What is at the end of the links starting from x: [k, x, err].             *)
RECURSIVE Walk(_, _)
Walk(x, d) ==
  IF x \in Sub /\ ~subdir THEN [k |-> "bad", err |-> "ENOENT"]
  ELSE IF name[x].k = "link"
    THEN IF d = 0 THEN [k |-> "bad", err |-> "ELOOP"] ELSE Walk(name[x].to, d - 1)
  ELSE IF name[x].k = "bad" THEN [k |-> "bad", err |-> name[x].err]
  ELSE IF name[x].k = "dir" THEN [k |-> "dir", err |-> "EISDIR"]
  ELSE IF name[x].k = "no" THEN [k |-> "no", x |-> x]
  ELSE [k |-> "file", i |-> name[x].i]
Resolve(x) == Walk(x, Cardinality(Names))

(* The inode a name denotes now; 0 if there is none.                         *)
Denotes(x) == LET r == Resolve(x) IN IF r.k = "file" THEN r.i ELSE 0

(* ---- the file system used by others ------------------------------------- *)

FS(n2, c2, u2) == name' = n2 /\ content' = c2 /\ used' = u2 /\ UNCHANGED <<sk, th>>
Flags == UNCHANGED <<subdir, nofile>>
Here(x) == x \in Sub => subdir

Rename(a, b) ==
  /\ Here(a) /\ Here(b) /\ name[a].k # "no" /\ a # b
  /\ name[b].k # "dir" /\ (name[a].k = "dir" => name[b].k = "no")
  /\ FS([name EXCEPT ![b] = name[a], ![a] = IF name[a] = name[b] /\ name[a].k = "file" THEN name[a] ELSE No], content, used)
  /\ Flags
Unlink(a) == Here(a) /\ name[a].k \notin {"no"} /\ FS([name EXCEPT ![a] = No], content, used) /\ Flags
(* A new file with the given content under a name (atomically replacing).    *)
Fresh(a, c) ==
  /\ Here(a) /\ name[a].k # "dir"
  /\ used + 1 \in Inodes
  /\ FS([name EXCEPT ![a] = File(used + 1)], [content EXCEPT ![used + 1] = c], used + 1) /\ Flags
HardLink(a, b) == Here(a) /\ Here(b) /\ name[a].k = "file" /\ name[b] = No /\ FS([name EXCEPT ![b] = name[a]], content, used) /\ Flags
SymLink(a, b) == Here(b) /\ name[b] = No /\ FS([name EXCEPT ![b] = [k |-> "link", to |-> a]], content, used) /\ Flags
MakeDir(a) == Here(a) /\ name[a] = No /\ FS([name EXCEPT ![a] = [k |-> "dir"]], content, used) /\ Flags
(* A name that cannot be opened for another reason (link to a place that is  *)
(* not there, a path through a regular file).                                *)
MakeBad(a, err) == Here(a) /\ name[a] = No /\ FS([name EXCEPT ![a] = [k |-> "bad", err |-> err]], content, used) /\ Flags
External(a, c) ==
  /\ Denotes(a) # 0
  /\ FS(name, [content EXCEPT ![Denotes(a)] = @ \o c], used) /\ Flags
Truncate(a) ==
  /\ Denotes(a) # 0
  /\ FS(name, [content EXCEPT ![Denotes(a)] = Nil], used) /\ Flags
SubAway == subdir /\ subdir' = FALSE /\ UNCHANGED <<name, nofile, content, used, sk, th>>
SubBack == ~subdir /\ subdir' = TRUE /\ UNCHANGED <<name, nofile, content, used, sk, th>>
NoFile(b) == nofile' = b /\ UNCHANGED <<name, subdir, content, used, sk, th>>

(* ---- sinks -------------------------------------------------------------- *)

(* Creating a sink touches nothing.                                          *)
New(s, path, pol, n, rot) ==
  /\ ~sk[s].alive
  /\ sk' = [sk EXCEPT ![s] = [NoSink EXCEPT !.alive = TRUE, !.path = path, !.pol = IF n = 0 THEN "none" ELSE pol, !.n = n, !.rot = rot]]
  /\ UNCHANGED <<fvars, th>>

(* Everything is in the file once the sink is destroyed.                     *)
Delete(s) ==
  /\ sk[s].alive /\ \A t \in Threads : th[t].pc = "idle" \/ th[t].i # s
  /\ sk' = [sk EXCEPT ![s] = NoSink]
  /\ content' = IF sk[s].open = 0 THEN content ELSE [content EXCEPT ![sk[s].open] = @ \o sk[s].pend]
  /\ UNCHANGED <<name, subdir, nofile, used, th>>

EmitCall(t, s, m) ==
  /\ th[t].pc = "idle" /\ sk[s].alive
  /\ th' = [th EXCEPT ![t] = [pc |-> "called", i |-> s, m |-> m, res |-> "ok"]]
  /\ UNCHANGED <<fvars, sk>>

(* The outcome of adding line x to what a sink holds: [pend, cnt, flush].    *)
Added(s, pend, cnt, x) ==
  LET n == sk[s].n IN
  CASE sk[s].pol = "count" -> LET c == (cnt + 1) % n IN [pend |-> pend \o x, cnt |-> c, flush |-> c = 0]
    [] sk[s].pol = "bytes" -> LET c == cnt + Size(x) IN [pend |-> pend \o x, cnt |-> c % n, flush |-> c >= n]
    [] OTHER -> [pend |-> pend \o x, cnt |-> 0, flush |-> FALSE]

(* The effect of one emit, under the sink's lock.                            *)
EmitDo(t) ==
  LET s == th[t].i
      k == sk[s]
      now == Resolve(k.path)
      stale == k.open # 0 /\ k.rot /\ Denotes(k.path) # k.open
      reopen == k.open = 0 \/ stale
      closed == IF stale THEN [content EXCEPT ![k.open] = @ \o k.pend] ELSE content
      fails == now.k \in {"bad", "dir"} \/ nofile
      err == IF nofile THEN "EMFILE" ELSE now.err
      create == now.k = "no"
      ino == IF ~reopen THEN k.open ELSE IF create THEN used + 1 ELSE now.i
      a == Added(s, IF reopen THEN Nil ELSE k.pend, IF reopen THEN 0 ELSE k.cnt, Newline(th[t].m))
  IN
  /\ th[t].pc = "called"
  /\ IF reopen /\ fails
       THEN /\ th' = [th EXCEPT ![t].pc = "done", ![t].res = err]
            /\ sk' = [sk EXCEPT ![s].open = 0, ![s].pend = Nil, ![s].cnt = 0]
            /\ content' = closed
            /\ UNCHANGED <<name, used>>
       ELSE /\ ino \in Inodes
            /\ th' = [th EXCEPT ![t].pc = "done", ![t].res = "ok"]
            /\ sk' = [sk EXCEPT ![s].open = ino, ![s].cnt = a.cnt, ![s].pend = IF a.flush THEN Nil ELSE a.pend]
            /\ content' = IF a.flush THEN [closed EXCEPT ![ino] = @ \o a.pend] ELSE closed
            /\ IF reopen /\ create
                 THEN name' = [name EXCEPT ![now.x] = File(ino)] /\ used' = used + 1
                 ELSE UNCHANGED <<name, used>>
  /\ UNCHANGED <<subdir, nofile>>

(* A sink may hand over data earlier when it holds a lot.                    *)
Spill(s, p, rest) ==
  /\ sk[s].open # 0 /\ sk[s].pend = p \o rest
  /\ content' = [content EXCEPT ![sk[s].open] = @ \o p]
  /\ sk' = [sk EXCEPT ![s].pend = rest]
  /\ UNCHANGED <<name, subdir, nofile, used, th>>

EmitReturn(t) ==
  /\ th[t].pc = "done"
  /\ th' = [th EXCEPT ![t] = Idle]
  /\ UNCHANGED <<fvars, sk>>
=============================================================================
