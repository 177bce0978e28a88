------------------------------- MODULE Logger -------------------------------
(* Root loggers, their configurations (a filter and handlers), wrappers and  *)
(* scoped attributes, used by any number of threads.                         *)
(*                                                                           *)
(* A root logger object holds a reference to a configuration.  A log call    *)
(* loads the reference, copies the filter, asks it once, produces the        *)
(* message, and gives the record to every handler of the configuration it    *)
(* loaded.  Other threads may meanwhile set the filter or assign another     *)
(* logger.  Each thread has a stack of unfinished calls: filters, suppliers, *)
(* handlers and destructors are user code and may log themselves.            *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, Loggers, Configs

VARIABLES
  stack,     \* stack[t]: frames of unfinished calls, innermost first
  cur,       \* cur[lg]: configuration of a logger object, 0: none or moved from
  filt,      \* filt[c]: the filter of a configuration, 0: passes everything
  shape,     \* shape[c]: its handlers, [k |-> "plain"] or [k |-> "blk", n |-> sinks]
  gone,      \* gone[c]: handlers destroyed
  scopes     \* scopes[lg][t]: scopes alive, most recently opened first: <<id, attributes>>

vars == <<stack, cur, filt, shape, gone, scopes>>

None == 0
Top(t) == Head(stack[t])
In(t, op, st) == stack[t] # <<>> /\ Top(t).op = op /\ Top(t).st = st
Push(t, fr) == stack' = [stack EXCEPT ![t] = <<fr>> \o @]
Pop(t) == stack' = [stack EXCEPT ![t] = Tail(@)]
Upd(t, fr) == stack' = [stack EXCEPT ![t] = <<fr>> \o Tail(@)]

Init ==
  /\ stack = [t \in Threads |-> <<>>]
  /\ cur = [x \in Loggers |-> None]
  /\ filt = [c \in Configs |-> 0]
  /\ shape = [c \in Configs |-> <<>>]
  /\ gone = [c \in Configs |-> {}]
  /\ scopes = [x \in Loggers |-> [t \in Threads |-> <<>>]]

Frame(op, lg) == [op |-> op, st |-> "load", lg |-> lg, cfg |-> None, f |-> 0, q |-> <<>>, attrs |-> <<>>,
                  h |-> 0, s |-> 0, out |-> "", txt |-> "", bad |-> {}, owed |-> {}, src |-> None]

Held(c) == \/ \E x \in Loggers : cur[x] = c
           \/ \E t \in Threads : \E i \in 1..Len(stack[t]) : stack[t][i].cfg = c

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
ScopeAttrs(lg, t) == Flat([i \in 1..Len(scopes[lg][t]) |-> scopes[lg][t][i][2]])

(* ---- logging ------------------------------------------------------------ *)

(* q: [sev, msg, attrs, lazy]; wattrs: attributes of the wrappers, outermost *)
(* first, joined.                                                            *)
LogCall(t, lg, q, wattrs) ==
  /\ cur[lg] # None
  /\ Push(t, [Frame("log", lg) EXCEPT !.q = q, !.attrs = q.attrs \o wattrs \o ScopeAttrs(lg, t)])
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

AfterFilter(fr) == IF fr.q.lazy THEN [fr EXCEPT !.st = "supp"]
                   ELSE [fr EXCEPT !.st = "hand", !.h = 1, !.out = fr.q.msg]

Load(t) ==
  /\ In(t, "log", "load")
  /\ Upd(t, [Top(t) EXCEPT !.st = "copy", !.cfg = cur[Top(t).lg]])
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

CopyFilter(t) ==
  /\ In(t, "log", "copy")
  /\ LET fr == [Top(t) EXCEPT !.f = filt[Top(t).cfg]]
     IN Upd(t, IF fr.f = 0 THEN AfterFilter(fr) ELSE [fr EXCEPT !.st = "filter"])
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

FilterBegin(t, f) ==
  /\ In(t, "log", "filter") /\ f = Top(t).f
  /\ Upd(t, [Top(t) EXCEPT !.st = "infilter"])
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

FilterEnd(t, res) ==
  /\ In(t, "log", "infilter")
  /\ Upd(t, CASE res = "pass" -> AfterFilter(Top(t))
              [] res = "deny" -> [Top(t) EXCEPT !.st = "fin"]
              [] res = "throw" -> [Top(t) EXCEPT !.st = "exc"])
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

SupplyBegin(t) ==
  /\ In(t, "log", "supp")
  /\ Upd(t, [Top(t) EXCEPT !.st = "insupp"])
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

SupplyEnd(t, res, val) ==
  /\ In(t, "log", "insupp")
  /\ Upd(t, IF res = "ok" THEN [Top(t) EXCEPT !.st = "hand", !.h = 1, !.out = val]
            ELSE [Top(t) EXCEPT !.st = "exc"])
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

Handlers(fr) == shape[fr.cfg]
AtHandler(t, k) == /\ In(t, "log", "hand") /\ Top(t).h <= Len(Handlers(Top(t)))
                   /\ Handlers(Top(t))[Top(t).h].k = k

NextH(fr, errs) == [fr EXCEPT !.st = "hand", !.h = @ + 1, !.s = 0, !.bad = {}, !.txt = "",
                              !.owed = IF errs = {} THEN @ ELSE @ \cup {<<fr.h, errs>>}]

HandleBegin(t, c, h) ==
  /\ AtHandler(t, "plain") /\ Top(t).cfg = c /\ Top(t).h = h
  /\ Upd(t, [Top(t) EXCEPT !.st = "inhand"])
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

(* errs: empty, or the name of what was thrown *)
HandleEnd(t, errs) ==
  /\ In(t, "log", "inhand")
  /\ Upd(t, NextH(Top(t), errs))
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

FormatBegin(t, c, h) ==
  /\ AtHandler(t, "blk") /\ Top(t).cfg = c /\ Top(t).h = h
  /\ Upd(t, [Top(t) EXCEPT !.st = "infmt"])
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

FormatEnd(t, errs, txt) ==
  /\ In(t, "log", "infmt")
  /\ Upd(t, IF errs = {} THEN [Top(t) EXCEPT !.st = "sink", !.s = 1, !.txt = txt] ELSE NextH(Top(t), errs))
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

SinkBegin(t, c, h, s) ==
  /\ In(t, "log", "sink") /\ Top(t).cfg = c /\ Top(t).h = h /\ Top(t).s = s
  /\ s <= Handlers(Top(t))[h].n
  /\ Upd(t, [Top(t) EXCEPT !.st = "insink"])
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

SinkEnd(t, errs) ==
  /\ In(t, "log", "insink")
  /\ Upd(t, [Top(t) EXCEPT !.st = "sink", !.s = @ + 1, !.bad = @ \cup errs])
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

(* After a failing sink the remaining ones of the same handler may be skipped. *)
SinksDone(t) ==
  /\ In(t, "log", "sink")
  /\ Top(t).bad # {} \/ Top(t).s > Handlers(Top(t))[Top(t).h].n
  /\ Upd(t, NextH(Top(t), Top(t).bad))
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

(* The diagnostic line of a failed handler is printed. *)
Diag(t, i, o) ==
  /\ i \in 1..Len(stack[t]) /\ o \in stack[t][i].owed
  /\ stack' = [stack EXCEPT ![t][i].owed = @ \ {o}]
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

(* The call stops using its configuration. *)
Release(t) ==
  /\ \/ In(t, "log", "fin") \/ In(t, "log", "exc")
     \/ In(t, "log", "hand") /\ Top(t).h > Len(Handlers(Top(t)))
  /\ Upd(t, [Top(t) EXCEPT !.st = IF @ = "exc" THEN "relx" ELSE "rel", !.cfg = None])
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

LogReturn(t, res) ==
  /\ In(t, "log", IF res = "ok" THEN "rel" ELSE "relx")
  /\ Top(t).owed = {}
  /\ Pop(t)
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

(* ---- configuration ------------------------------------------------------ *)

New(t, lg, c, f, sh) ==
  /\ cur[lg] = None /\ ~Held(c) /\ gone[c] = {}
  /\ cur' = [cur EXCEPT ![lg] = c]
  /\ filt' = [filt EXCEPT ![c] = f]
  /\ shape' = [shape EXCEPT ![c] = sh]
  /\ UNCHANGED <<stack, gone, scopes>>

SetCall(t, lg, f) ==
  /\ cur[lg] # None
  /\ Push(t, [Frame("set", lg) EXCEPT !.f = f])
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

SetLoad(t) ==
  /\ In(t, "set", "load")
  /\ Upd(t, [Top(t) EXCEPT !.st = "apply", !.cfg = cur[Top(t).lg]])
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

SetApply(t) ==
  /\ In(t, "set", "apply")
  /\ filt' = [filt EXCEPT ![Top(t).cfg] = Top(t).f]
  /\ Upd(t, [Top(t) EXCEPT !.st = "done", !.cfg = None])
  /\ UNCHANGED <<cur, shape, gone, scopes>>

AssignCall(t, lg, src) ==
  /\ cur[src] # None
  /\ Push(t, [Frame("assign", lg) EXCEPT !.src = src])
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

(* Scopes alive on the calling thread follow the logger. *)
Carry(t, lg, src) ==
  scopes' = IF scopes[src][t] = <<>> THEN scopes
            ELSE [scopes EXCEPT ![lg][t] = scopes[src][t], ![src][t] = <<>>]

AssignStore(t) ==
  /\ In(t, "assign", "load")
  /\ LET fr == Top(t) IN
       IF fr.src = fr.lg THEN UNCHANGED <<cur, scopes>>
       ELSE /\ cur' = [cur EXCEPT ![fr.lg] = cur[fr.src], ![fr.src] = None]
            /\ Carry(t, fr.lg, fr.src)
  /\ Upd(t, [Top(t) EXCEPT !.st = "done"])
  /\ UNCHANGED <<filt, shape, gone>>

ConfReturn(t) ==
  /\ In(t, "set", "done") \/ In(t, "assign", "done")
  /\ Pop(t)
  /\ UNCHANGED <<cur, filt, shape, gone, scopes>>

(* A new logger object is made from src by move construction. *)
Move(t, lg, src) ==
  /\ cur[lg] = None /\ cur[src] # None
  /\ cur' = [cur EXCEPT ![lg] = cur[src], ![src] = None]
  /\ Carry(t, lg, src)
  /\ UNCHANGED <<stack, filt, shape, gone>>

Delete(t, lg) ==
  /\ cur' = [cur EXCEPT ![lg] = None]
  /\ UNCHANGED <<stack, filt, shape, gone, scopes>>

(* A handler is destroyed: only when nothing uses its configuration. *)
HandlerDies(c, h) ==
  /\ ~Held(c) /\ h \in 1..Len(shape[c]) /\ h \notin gone[c]
  /\ gone' = [gone EXCEPT ![c] = @ \cup {h}]
  /\ UNCHANGED <<stack, cur, filt, shape, scopes>>

(* ---- scopes ------------------------------------------------------------- *)

ScopeOpen(t, lg, id, attrs) ==
  /\ scopes' = [scopes EXCEPT ![lg][t] = <<<<id, attrs>>>> \o @]
  /\ UNCHANGED <<stack, cur, filt, shape, gone>>

ScopeClose(t, id) ==
  /\ \E x \in Loggers :
       /\ scopes[x][t] # <<>> /\ Head(scopes[x][t])[1] = id
       /\ scopes' = [scopes EXCEPT ![x][t] = Tail(@)]
  /\ UNCHANGED <<stack, cur, filt, shape, gone>>
=============================================================================
