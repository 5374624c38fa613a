-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: is what the crate was seen to do a behaviour of       *)
(* Machine?                                                                *)
(*                                                                         *)
(* The log has one trace per line, [id, ev], and each event of ev is a     *)
(* call with what was seen of its result in r (p = 1: it panicked).  Every *)
(* event has to be the transition the machine takes for that call.         *)
(*                                                                         *)
(* Events are judged one by one, from the values the registers really      *)
(* hold: after an event of an operation that is not in Owned (the          *)
(* operations the property at hand is about) and that the machine does not *)
(* allow, the machine goes on from what was seen, so that a defect         *)
(* elsewhere is not blamed on this property.  If that is not a value the   *)
(* type can hold, the rest of the trace says nothing ("lost").             *)
(***************************************************************************)
EXTENDS Params448, Machine, Json, IOUtils, TLC

CONSTANTS
  Owned,        \* the operations whose events have to conform
  OwnPanics     \* whether a panic of any operation is a violation

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, pos, verdict
tvars == <<reg, tid, pos, verdict>>

Int28(q) == Undigits(q, 28)

\* an event as a call
CallOf(ev) ==
  LET base == [o |-> ev.o,
               d |-> IF "d" \in DOMAIN ev THEN ev.d ELSE 1,
               a |-> IF "a" \in DOMAIN ev THEN ev.a ELSE 1,
               b |-> IF "b" \in DOMAIN ev THEN ev.b ELSE 1,
               c |-> IF "c" \in DOMAIN ev THEN ev.c ELSE 1,
               n |-> IF "n" \in DOMAIN ev THEN ev.n ELSE 0,
               v |-> IF "v" \in DOMAIN ev THEN ev.v ELSE 0,
               l |-> IF "l" \in DOMAIN ev THEN ev.l ELSE <<>>]
  IN IF "i" \in DOMAIN ev THEN [i |-> Int28(ev.i)] @@ base ELSE base

--------------------------------------------------------------------------------
(* What was seen of a point: its four coordinates X, Y, Z, T, or its encoding *)

\* the extended coordinates q are those of the affine point p
CoordsOf(q, p) ==
  LET X == Int28(q[1]) Y == Int28(q[2]) Z == Int28(q[3]) T == Int28(q[4]) IN
  /\ X < P /\ Y < P /\ Z < P /\ T < P /\ Z # 0
  /\ (X - p[1] * Z) % P = 0 /\ (Y - p[2] * Z) % P = 0 /\ (T * Z - X * Y) % P = 0
AffineOf(q) == ToAffine(<<Int28(q[1]), Int28(q[2]), Int28(q[3])>>)

EdwardsSeen(q, p) == IF Len(q) = 4 THEN CoordsOf(q, p) ELSE Int28(q[1]) = EEnc(p)
EdwardsFrom(q) ==
  IF Len(q) = 4 THEN LET p == AffineOf(q) IN IF EOn(p) /\ CoordsOf(q, p) THEN <<p>> ELSE <<>>
  ELSE EDec(Int28(q[1]))
\* without the hooks, of a point of the twisted curve only its image on Ed448 is seen
TwistedSeen(q, p) == IF Len(q) = 4 THEN CoordsOf(q, p) ELSE Int28(q[1]) = EEnc(ToUntwisted(p))
TwistedFrom(q) ==
  IF Len(q) = 4 THEN LET p == AffineOf(q) IN IF TOn(p) /\ CoordsOf(q, p) THEN <<p>> ELSE <<>>
  ELSE <<>>

\* the value v (of the type the operation gives) is what was seen, r
Seen(o, v, r) ==
  CASE o \in EdwardsOps -> EdwardsSeen(r, v)
    [] o \in TwistedOps -> TwistedSeen(r, v)
    [] o \in DecafOps   -> Int28(r) = DEnc(v)
    [] OTHER            -> Int28(r) = v

\* the value that was seen: <<v>>, or <<>> if it is none of the type
From(o, r) ==
  CASE o \in EdwardsOps -> EdwardsFrom(r)
    [] o \in TwistedOps -> TwistedFrom(r)
    [] o \in DecafOps   -> DDec(Int28(r))
    [] OTHER            -> <<Int28(r)>>

\* the observation of a relational operation, in the form Related takes
RelObs(o, r) ==
  CASE o \in {"f_isr", "f_sqrtr"} -> <<Int28(r[1]), r[2][1]>>
    [] o = "s_radix" -> r
    [] o = "d_rep" -> r
    [] OTHER -> Int28(r)

\* the representative of a decaf element is a point of the twisted curve of that encoding
RepOk(c, q) == LET p == AffineOf(q) IN
  TOn(p) /\ CoordsOf(q, p) /\ DEncTwisted(p) = DEnc(reg.d[c.a])

--------------------------------------------------------------------------------

\* [ok, next]: whether the machine allows the event, and the registers after it
Judge(ev) ==
  LET c == CallOf(ev) IN
  IF ev.p = 1 THEN [ok |-> FALSE, next |-> <<>>, want |-> "no panic"]
  ELSE IF c.o \in Relational THEN
    LET w  == RelObs(c.o, ev.r)
        ok == IF c.o = "d_rep" THEN RepOk(c, w) ELSE Related(c, w)
        v  == IF c.o \in {"f_isr", "f_sqrtr"} THEN w[1] ELSE w
    IN [ok |-> ok, next |-> <<After(c, <<v>>)>>, want |-> "related"]
  ELSE IF c.o \in Queries THEN
    LET w  == Answer(c)
        ok == CASE c.o = "s_get"  -> Int28(ev.r) = w
                [] c.o = "s_bits" -> Int28(ev.r) = w /\ c.n = SB
                [] OTHER          -> ev.r = w
    IN [ok |-> ok, next |-> <<reg>>, want |-> w]
  ELSE IF c.o \in Decoders THEN
    LET v  == Value(c)
        ok == IF v = <<>> THEN ev.r = <<>> ELSE Len(ev.r) = 1 /\ Seen(c.o, v[1], ev.r[1])
        u  == IF ok THEN v ELSE IF ev.r = <<>> THEN <<>> ELSE From(c.o, ev.r[1])
    IN [ok |-> ok,
        next |-> IF ok \/ ev.r = <<>> \/ u # <<>> THEN <<After(c, u)>> ELSE <<>>,
        want |-> v]
  ELSE
    LET v  == Value(c)
        ok == Seen(c.o, v[1], ev.r)
        u  == IF ok THEN v ELSE From(c.o, ev.r)
    IN [ok |-> ok, next |-> IF u # <<>> THEN <<After(c, u)>> ELSE <<>>, want |-> v]

IsOwned(ev) ==
  \/ ev.o \in Owned
  \/ OwnPanics /\ ev.p = 1

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ pos = 0
  /\ reg = EmptyRegs
  /\ verdict = "ok"

TraceNext ==
  /\ pos < Len(Traces[tid].ev)
  /\ verdict # "bad"
  /\ pos' = pos + 1
  /\ UNCHANGED tid
  /\ IF verdict = "lost" THEN UNCHANGED <<reg, verdict>>
     ELSE LET ev == Traces[tid].ev[pos + 1]
              j  == Judge(ev)
          IN IF j.ok THEN reg' = j.next[1] /\ UNCHANGED verdict
             ELSE /\ PrintT(<<"MISMATCH", Traces[tid].id, pos + 1, ev.o, IsOwned(ev), ToString(j.want)>>)
                  /\ verdict' = IF IsOwned(ev) THEN "bad" ELSE IF j.next = <<>> THEN "lost" ELSE "ok"
                  /\ reg' = IF j.next = <<>> THEN reg ELSE j.next[1]

TraceSpec == TraceInit /\ [][TraceNext]_tvars

Conforms == verdict # "bad"
\* every line of every trace was consumed (one state per event, and the initial ones)
AllConsumed ==
  TLCGet("stats").distinct = FoldLeft(LAMBDA acc, t : acc + Len(t.ev) + 1, 0, Traces)
=============================================================================
