----------------------------- MODULE StringView -----------------------------
(* blackhole::string_view: a reference to a stretch of bytes owned by        *)
(* somebody else.  mem holds the owned buffers, each with its bytes; a view  *)
(* is a buffer, an offset and a length.  Positions and counts are naturals   *)
(* of machine size: a negative number stands for its two's complement, i.e.  *)
(* for one of the largest values (npos is -1).                               *)
EXTENDS Integers, Sequences

CONSTANTS Slots,    \* names of view variables
          Mistake   \* "none", or one of the mistakes the invariants must find

VARIABLES mem,      \* sequence of byte sequences
          view,     \* [Slots -> [buf, off, n]]; buf = 0: refers to nothing
          signed    \* whether bytes of 128.. are ordered before the others

Nowhere == [buf |-> 0, off |-> 0, n |-> 0]
Huge(x) == x < 0

Content(v) == IF v.buf = 0 THEN <<>> ELSE SubSeq(mem[v.buf], v.off + 1, v.off + v.n)
Bytes(s) == Content(view[s])

(* The value read at a position, or "out_of_range". *)
At(v, i) == IF Huge(i) \/ i >= v.n + (IF Mistake = "at end" THEN 1 ELSE 0)
              THEN [st |-> "out_of_range"]
              ELSE [st |-> "ok", v |-> mem[v.buf][v.off + i + 1]]

OutOfRange(v, pos) == Huge(pos) \/ pos > v.n
Sub(v, pos, count) ==
  LET left == IF Mistake = "count unclamped" THEN v.n ELSE v.n - pos
  IN [buf |-> v.buf, off |-> v.off + pos, n |-> IF Huge(count) \/ count > left THEN left ELSE count]

Equal(a, b) == Content(a) = Content(b)

Rank(b) == IF signed /\ b >= 128 THEN b - 256 ELSE b
RECURSIVE LessFrom(_, _, _)
LessFrom(x, y, i) ==
  IF i > Len(y) THEN FALSE
  ELSE IF i > Len(x) THEN TRUE
  ELSE IF x[i] = y[i] THEN LessFrom(x, y, i + 1)
  ELSE Rank(x[i]) < Rank(y[i])
Less(a, b) == LessFrom(Content(a), Content(b), 1)

Init == mem = <<>> /\ view = [s \in Slots |-> Nowhere] /\ signed \in BOOLEAN

(* Views made of a literal, of a pointer and a size, or of a string. *)
Make(s, bytes) ==
  /\ mem' = Append(mem, bytes)
  /\ view' = [view EXCEPT ![s] = [buf |-> Len(mem) + 1, off |-> 0, n |-> Len(bytes)]]
  /\ UNCHANGED signed
(* Another view of an existing buffer's first n bytes. *)
Again(s, b, n) ==
  /\ b \in 1..Len(mem) /\ n <= Len(mem[b])
  /\ view' = [view EXCEPT ![s] = [buf |-> b, off |-> 0, n |-> n]]
  /\ UNCHANGED <<mem, signed>>
Default(s) == view' = [view EXCEPT ![s] = Nowhere] /\ UNCHANGED <<mem, signed>>
Copy(s, t) == view' = [view EXCEPT ![s] = view[t]] /\ UNCHANGED <<mem, signed>>
(* The part [pos, pos + count) of t's view; past its end the target is left. *)
Substr(s, t, pos, count) ==
  /\ IF OutOfRange(view[t], pos) THEN UNCHANGED view
     ELSE view' = [view EXCEPT ![s] = Sub(view[t], pos, count)]
  /\ UNCHANGED <<mem, signed>>
(* The owner changes a byte: views do not own, they see it. *)
Poke(b, i, v) ==
  /\ b \in 1..Len(mem) /\ i \in 1..Len(mem[b])
  /\ mem' = [mem EXCEPT ![b][i] = v]
  /\ UNCHANGED <<view, signed>>

-----------------------------------------------------------------------------
(* Every view stays within the buffer it refers to.                          *)
Within == \A s \in Slots : LET v == view[s] IN
            /\ v.n >= 0 /\ v.off >= 0
            /\ IF v.buf = 0 THEN v.n = 0 ELSE v.off + v.n <= Len(mem[v.buf])
(* Reads yield a byte of the view or say that there is none. *)
Guarded == \A s \in Slots : \A i \in -2..3 :
             At(view[s], i).st = "ok" <=> i \in 0..(view[s].n - 1)
(* A total order that agrees with equality and puts prefixes first. *)
Order ==
  /\ \A s \in Slots, t \in Slots :
       /\ Equal(view[s], view[t]) <=> (~Less(view[s], view[t]) /\ ~Less(view[t], view[s]))
       /\ ~(Less(view[s], view[t]) /\ Less(view[t], view[s]))
       /\ \A u \in Slots : Less(view[s], view[t]) /\ Less(view[t], view[u]) => Less(view[s], view[u])
  /\ \A s \in Slots : \A k \in 0..view[s].n :
       ~Less(view[s], Sub(view[s], 0, k)) /\ (k < view[s].n => Less(Sub(view[s], 0, k), view[s]))
(* A view cut in two has the content of its parts, whatever is asked beyond. *)
Cut == \A s \in Slots : \A k \in 0..view[s].n :
         /\ Content(Sub(view[s], 0, k)) \o Content(Sub(view[s], k, -1)) = Bytes(s)
         /\ Sub(view[s], k, -1) = Sub(view[s], k, view[s].n + 1)
         /\ Sub(view[s], 0, -1) = view[s]
=============================================================================
