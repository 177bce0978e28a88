------------------------------ MODULE MCLogger ------------------------------
(* Bounded instance of Logger with history variables for its properties.     *)
EXTENDS Logger
CONSTANTS Budget, Mistake   \* Mistake: "" or the name of a deliberate design error
VARIABLES
  left,      \* calls every thread may still make
  nextc,     \* next configuration to use
  hist,      \* what the handlers of each (thread, call number) received: <<c, h, s>>
  during,    \* configurations installed at some moment of the thread's outermost unfinished call
  assigned,  \* configuration last assigned to logger 1
  lastset,   \* filter that must be in force in logger 1, or -1: an overlapping change decides
  ov,        \* threads whose unfinished set or assignment overlapped another one
  ended      \* observations at return: [cfg, rejected, got, exc]
mvars == <<vars, left, nextc, hist, during, assigned, lastset, ended, ov>>
ASSUME Loggers = 1..3   \* 1: the shared one, 2 and 3: temporaries of the threads 1 and 2
Sh == [c \in Configs |-> IF c % 2 = 1 THEN <<[k |-> "plain", n |-> 0], [k |-> "blk", n |-> 1]>>
                         ELSE <<[k |-> "blk", n |-> 2]>>]
Filters == {0, 1}
MInit ==
  /\ stack = [t \in Threads |-> <<>>]
  /\ cur = [x \in Loggers |-> IF x = 1 THEN 1 ELSE None]
  /\ filt = [c \in Configs |-> 0]
  /\ shape = [c \in Configs |-> IF c = 1 THEN Sh[1] ELSE <<>>]
  /\ gone = [c \in Configs |-> {}]
  /\ scopes = [x \in Loggers |-> [t \in Threads |-> <<>>]]
  /\ left = [t \in Threads |-> Budget] /\ nextc = 2
  /\ hist = [t \in Threads |-> <<>>] /\ during = [t \in Threads |-> {}]
  /\ assigned = 1 /\ lastset = 0 /\ ov = {} /\ ended = [t \in Threads |-> <<>>]

Idle(t) == stack[t] = <<>>
Spend(t) == left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
ConfOps(st) == { t \in Threads : st[t] # <<>> /\ Head(st[t]).op \in {"set", "assign"} }
See == /\ ov' = IF Cardinality(ConfOps(stack')) > 1 THEN ConfOps(stack') ELSE ov \cap ConfOps(stack')
       /\ during' = [t \in Threads |-> IF stack'[t] = <<>> THEN {} ELSE during[t] \cup {cur[1], cur'[1]}]
H0 == UNCHANGED <<left, nextc, hist, assigned, lastset, ended>>
Q(z) == [sev |-> 0, msg |-> "m", attrs |-> <<"call">>, lazy |-> z]
Saw(t, x) == hist' = [hist EXCEPT ![t] = Append(@, x)]
Scoped(t) == Len(scopes[1][t])

MCall(t) == Idle(t) /\ Spend(t) /\ (\E z \in BOOLEAN : LogCall(t, 1, Q(z), <<"w">>)) /\ hist' = [hist EXCEPT ![t] = <<>>]
            /\ See /\ UNCHANGED <<nextc, assigned, lastset, ended>>
MFilt(t) == stack[t] # <<>> /\ (
            \/ (FilterBegin(t, Top(t).f) /\ H0 /\ See)
            \/ \E r \in {"pass", "deny", "throw"} : FilterEnd(t, r) /\ H0 /\ See )
MSupp(t) == \/ SupplyBegin(t) /\ H0 /\ See
            \/ \E r \in {"ok", "throw"} : SupplyEnd(t, r, "v") /\ H0 /\ See
MHand(t) == stack[t] # <<>> /\ LET c == Top(t).cfg h == Top(t).h IN
  \/ HandleBegin(t, c, h) /\ Saw(t, <<c, h, 0>>) /\ See /\ UNCHANGED <<left, nextc, assigned, lastset, ended>>
  \/ FormatBegin(t, c, h) /\ H0 /\ See
  \/ SinkBegin(t, c, h, Top(t).s) /\ Saw(t, <<c, h, Top(t).s>>) /\ See /\ UNCHANGED <<left, nextc, assigned, lastset, ended>>
  \/ \E e \in {{}, {"e"}} : (HandleEnd(t, e) \/ FormatEnd(t, e, "x") \/ SinkEnd(t, e)) /\ H0 /\ See
  \/ SinksDone(t) /\ H0 /\ See
  \/ (\E o \in Top(t).owed : Diag(t, 1, o)) /\ H0 /\ See
MRet(t) == \E r \in {"ok", "exc"} :
   /\ LogReturn(t, r) /\ See
   /\ ended' = [ended EXCEPT ![t] = <<r, Top(t).h, hist[t], during[t], Top(t).attrs>>]
   /\ UNCHANGED <<left, nextc, hist, assigned, lastset>>
(* Release of a call; a design mistake would be not to hold the reference.   *)
MLoad(t) == IF Mistake = "nohold"
              THEN /\ In(t, "log", "load") /\ Upd(t, [Top(t) EXCEPT !.st = "copy", !.cfg = cur[Top(t).lg], !.src = -1])
                   /\ UNCHANGED <<cur, filt, shape, gone, scopes>> /\ H0 /\ See
              ELSE Load(t) /\ H0 /\ See
MCopy(t) == CopyFilter(t) /\ H0 /\ See
MRel(t) == Release(t) /\ H0 /\ See

OthersConfiguring(t) == t \in ov
MSet(t) == Idle(t) /\ Spend(t) /\ (\E f \in Filters : SetCall(t, 1, f)) /\ See /\ UNCHANGED <<nextc, hist, assigned, lastset, ended>>
MSetLoad(t) == SetLoad(t) /\ H0 /\ See
MSetApply(t) ==
   /\ In(t, "set", "apply") /\ UNCHANGED <<left, nextc, hist, assigned, ended>>
   /\ IF Mistake = "storeback"
        THEN /\ filt' = [filt EXCEPT ![Top(t).cfg] = Top(t).f] /\ cur' = [cur EXCEPT ![1] = Top(t).cfg]
             /\ Upd(t, [Top(t) EXCEPT !.st = "done", !.cfg = None]) /\ UNCHANGED <<shape, gone, scopes>>
        ELSE SetApply(t)
   /\ See
   /\ lastset' = IF OthersConfiguring(t) THEN -1 ELSE Top(t).f
MNew(t) == /\ Idle(t) /\ left[t] > 0 /\ nextc \in Configs
           /\ \E f \in Filters : New(t, t + 1, nextc, f, Sh[nextc])
           /\ nextc' = nextc + 1 /\ See /\ UNCHANGED <<left, hist, assigned, lastset, ended>>
MAssign(t) == Idle(t) /\ Spend(t) /\ AssignCall(t, 1, t + 1) /\ See /\ UNCHANGED <<nextc, hist, assigned, lastset, ended>>
MStore(t) == /\ AssignStore(t) /\ See /\ UNCHANGED <<left, nextc, hist, ended>>
             /\ assigned' = cur'[1] /\ lastset' = IF OthersConfiguring(t) THEN -1 ELSE filt[cur'[1]]
MConfRet(t) == ConfReturn(t) /\ H0 /\ See
MOpen(t) == Idle(t) /\ Spend(t) /\ Scoped(t) < 2 /\ ScopeOpen(t, 1, <<t, Scoped(t)>>, <<<<"s", t, Scoped(t)>>>>)
            /\ See /\ UNCHANGED <<nextc, hist, assigned, lastset, ended>>
MClose(t) == Idle(t) /\ Scoped(t) > 0 /\ ScopeClose(t, Head(scopes[1][t])[1]) /\ H0 /\ See
MDies == \E c \in Configs : \E h \in 1..Len(shape[c]) :
   /\ IF Mistake = "nohold"
        THEN /\ \A x \in Loggers : cur[x] # c
             /\ h \notin gone[c] /\ gone' = [gone EXCEPT ![c] = @ \cup {h}]
             /\ UNCHANGED <<stack, cur, filt, shape, scopes>>
        ELSE HandlerDies(c, h)
   /\ H0 /\ See

TStep(t) == MFilt(t) \/ MSupp(t) \/ MHand(t) \/ MRet(t) \/ MLoad(t) \/ MCopy(t) \/ MRel(t)
              \/ MSetLoad(t) \/ MSetApply(t) \/ MStore(t) \/ MConfRet(t)
MNext == \/ \E t \in Threads : MCall(t) \/ MSet(t) \/ MNew(t) \/ MAssign(t) \/ MOpen(t) \/ MClose(t)
         \/ \E t \in Threads : TStep(t)
         \/ MDies
MSpec == MInit /\ [][MNext]_mvars /\ \A t \in Threads : WF_mvars(TStep(t))

(* P01, P02, P04: a finished call was served by one configuration, installed *)
(* during the call, every handler in order, exactly once.                    *)
WholeDelivery == \A t \in Threads : ended[t] # <<>> =>
   LET got == ended[t][3] IN
     /\ got # <<>> => /\ \A i \in 1..Len(got) : got[i][1] = got[1][1]
                      /\ got[1][1] \in ended[t][4]
                      /\ \A i, j \in 1..Len(got) : i < j =>
                           (got[i][2] < got[j][2]) \/ (got[i][2] = got[j][2] /\ got[i][3] < got[j][3])
                      /\ got[1][1] % 2 = 1 => got[1][2] = 1
     /\ ended[t][1] = "exc" => got = <<>>
(* P03 *)
OwnScopes == \A t \in Threads : \A i \in 1..Len(stack[t]) :
   stack[t][i].op = "log" => \A j \in 3..Len(stack[t][i].attrs) : stack[t][i].attrs[j][2] = t
(* P04 *)
AssignmentSurvives == cur[1] = assigned
FilterSurvives == (lastset # -1 /\ \A t \in Threads : stack[t] = <<>> \/ Top(t).op = "log") => filt[cur[1]] = lastset
NoUseAfterDestruction == \A t \in Threads : \A i \in 1..Len(stack[t]) :
   (stack[t][i].op = "log" /\ stack[t][i].cfg # None) => gone[stack[t][i].cfg] = {}
CallsEnd == \A t \in Threads : (stack[t] # <<>>) ~> (stack[t] = <<>>)
T2 == {1, 2}
L3 == 1..3
C2 == 1..2
C3 == 1..3
=============================================================================
