------------------------------- MODULE Observe -------------------------------
(***************************************************************************)
(* Properties of executions that do not need the values the machine would  *)
(* compute, only what two calls, or two builds of the crate, were seen to  *)
(* give (they are properties of pairs of executions), or that a call came  *)
(* back at all.                                                            *)
(*                                                                         *)
(*   "pair"   the log TRACE2 is that of the other backend: the same        *)
(*            programs, event by event, have to be seen to do the same     *)
(*   "group"  the events of one trace with the same k are spellings of one *)
(*            operation on the same values: they have to agree             *)
(*   "total"  every call of the machine is enabled in every state, so      *)
(*            every event is a return, and only a decoder returns nothing  *)
(***************************************************************************)
EXTENDS Params448, Machine, Json, IOUtils, TLC

CONSTANT Mode

Traces == ndJsonDeserialize(IOEnv.TRACE)
Others == IF Mode = "pair" THEN ndJsonDeserialize(IOEnv.TRACE2) ELSE <<>>

VARIABLES tid, pos, bad
ovars == <<reg, tid, pos, bad>>

Int28(q) == Undigits(q, 28)

\* two extended points, of one curve, are the same point
SamePoint(q, r) ==
  LET X1 == Int28(q[1]) Y1 == Int28(q[2]) Z1 == Int28(q[3])
      X2 == Int28(r[1]) Y2 == Int28(r[2]) Z2 == Int28(r[3]) IN
  /\ (X1 * Z2 - X2 * Z1) % P = 0
  /\ (Y1 * Z2 - Y2 * Z1) % P = 0
  /\ (Z1 % P = 0) = (Z2 % P = 0)

SameResult(o, q, r) ==
  IF o \in (EdwardsOps \cup TwistedOps)
  THEN IF Len(q) = 4 /\ Len(r) = 4 THEN SamePoint(q, r) ELSE q = r
  ELSE q = r

\* what was seen of a call with either backend
SameSeen(ev, fv) ==
  /\ ev.p = fv.p
  /\ ev.p = 0 =>
       CASE ev.o \in Decoders /\ ev.o \in EdwardsOps ->
              Len(ev.r) = Len(fv.r) /\ (Len(ev.r) = 1 => SameResult(ev.o, ev.r[1], fv.r[1]))
         [] ev.o \in {"f_isr", "f_sqrtr"} ->
              \* the root is only promised where there is one, and up to its sign
              /\ ev.r[2] = fv.r[2]
              /\ ev.r[2] = <<1>> => (Int28(ev.r[1])^2 - Int28(fv.r[1])^2) % P = 0
         [] ev.o = "d_rep" -> TRUE           \* any representative will do
         [] OTHER -> SameResult(ev.o, ev.r, fv.r)

\* every operand of the trace was loaded
Loaded(t) == \A i \in 1..Len(t.ev) : t.ev[i].o \in Decoders => t.ev[i].p = 0 /\ t.ev[i].r # <<>>

SameAsFirst(t, i) ==
  LET ev == t.ev[i] IN
  "k" \in DOMAIN ev =>
    LET j == CHOOSE m \in 1..i : /\ "k" \in DOMAIN t.ev[m] /\ t.ev[m].k = ev.k
                                 /\ \A n \in 1..(m - 1) : "k" \in DOMAIN t.ev[n] => t.ev[n].k # ev.k
        fv == t.ev[j]
    IN Loaded(t) => ev.p = fv.p /\ (ev.p = 0 => SameResult(ev.o, ev.r, fv.r))

Returned(ev) ==
  /\ ev.p = 0
  /\ ev.o \in Decoders => Len(ev.r) \in {0, 1}

Good(t, i) ==
  CASE Mode = "pair"  -> SameSeen(Traces[t].ev[i], Others[t].ev[i])
    [] Mode = "group" -> SameAsFirst(Traces[t], i)
    [] Mode = "total" -> Returned(Traces[t].ev[i])

ObsInit == tid \in 1..Len(Traces) /\ pos = 0 /\ bad = FALSE /\ reg = <<>>
ObsNext ==
  /\ pos < Len(Traces[tid].ev) /\ ~bad
  /\ pos' = pos + 1
  /\ UNCHANGED <<tid, reg>>
  /\ IF Good(tid, pos + 1) THEN bad' = FALSE
     ELSE bad' = TRUE /\ PrintT(<<"MISMATCH", Traces[tid].id, pos + 1, Traces[tid].ev[pos + 1].o, TRUE, Mode>>)
ObsSpec == ObsInit /\ [][ObsNext]_ovars

Conforms == ~bad
AllConsumed ==
  /\ TLCGet("stats").distinct = FoldLeft(LAMBDA acc, t : acc + Len(t.ev) + 1, 0, Traces)
  /\ Mode = "pair" => /\ Len(Others) = Len(Traces)
                      /\ \A i \in 1..Len(Traces) : Len(Others[i].ev) = Len(Traces[i].ev)
=============================================================================
