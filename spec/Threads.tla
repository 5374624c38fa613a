------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* Several threads that call the crate at the same time, each on values of *)
(* its own.  A call is not one step: it reads its operands, works on them  *)
(* and gives its result, and the steps of other threads' calls come in     *)
(* between.  The specification of a call in Machine is one step; it is met *)
(* under every schedule iff what calls share does not matter.              *)
(*                                                                         *)
(* The call here is the product k P as the crate makes it, from something  *)
(* derived of P alone (the table of multiples; here 2 P) and k.            *)
(*                                                                         *)
(* Variant: what calls share.                                              *)
(*   "none"     nothing: the crate as it is                                *)
(*   "locked"   the table of the last point, under a lock                  *)
(*   "torn"     the same with no lock, the point entered before its table  *)
(*   "stale"    the same, looked up by something P does not depend on      *)
(*              alone (its y), under a lock                                *)
(*   "scratch"  the accumulator lives at a fixed place                     *)
(*   "held"     as "locked", but the lock is kept when k is 0              *)
(***************************************************************************)
EXTENDS Ed448Math, FiniteSets

CONSTANTS Thread, Calls, Variant

Some == {EGen, ENeg(EGen), ETorque(EGen), EId}
Ks == 0..3

VARIABLES pc, left, p, k, tab, acc,        \* per thread
          memo, lock, place                \* shared
vars == <<pc, left, p, k, tab, acc, memo, lock, place>>

Memo == Variant \in {"locked", "torn", "stale", "held"}
Lock == Variant \in {"locked", "stale", "held"}
Key(q) == IF Variant = "stale" THEN q[2] ELSE q
NoOne == "no one"

Init ==
  /\ pc = [t \in Thread |-> "idle"] /\ left = [t \in Thread |-> Calls]
  /\ p = [t \in Thread |-> EId] /\ k = [t \in Thread |-> 0]
  /\ tab = [t \in Thread |-> EId] /\ acc = [t \in Thread |-> EId]
  /\ memo = <<Key(EId), EId>> /\ lock = NoOne /\ place = EId

Shared == <<memo, lock, place>>
Goto(t, x) == pc' = [pc EXCEPT ![t] = x]

Begin(t) ==
  /\ pc[t] \in {"idle", "done"} /\ left[t] > 0
  /\ \E q \in Some, n \in Ks : p' = [p EXCEPT ![t] = q] /\ k' = [k EXCEPT ![t] = n]
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ Goto(t, IF Lock THEN "lock" ELSE "look")
  /\ UNCHANGED <<tab, acc>> /\ UNCHANGED Shared
Take(t) ==
  /\ pc[t] = "lock" /\ lock = NoOne /\ lock' = t
  /\ Goto(t, "look") /\ UNCHANGED <<left, p, k, tab, acc, memo, place>>
Look(t) ==
  /\ pc[t] = "look"
  /\ IF Memo /\ memo[1] # Key(p[t]) THEN Goto(t, "enter") /\ UNCHANGED tab
     ELSE tab' = [tab EXCEPT ![t] = IF Memo THEN memo[2] ELSE EDouble(p[t])] /\ Goto(t, IF Lock THEN "free" ELSE "high")
  /\ UNCHANGED <<left, p, k, acc>> /\ UNCHANGED Shared
\* the point, and then its table
Enter(t) ==
  /\ pc[t] = "enter" /\ memo' = <<Key(p[t]), memo[2]>>
  /\ Goto(t, "table") /\ UNCHANGED <<left, p, k, tab, acc, lock, place>>
Table(t) ==
  /\ pc[t] = "table" /\ memo' = <<memo[1], EDouble(p[t])>> /\ tab' = [tab EXCEPT ![t] = EDouble(p[t])]
  /\ Goto(t, IF Lock THEN "free" ELSE "high") /\ UNCHANGED <<left, p, k, acc, lock, place>>
Free(t) ==
  /\ pc[t] = "free" /\ lock' = IF Variant = "held" /\ k[t] = 0 THEN lock ELSE NoOne
  /\ Goto(t, "high") /\ UNCHANGED <<left, p, k, tab, acc, memo, place>>
\* the high part of k, and then its low bit
High(t) ==
  /\ pc[t] = "high"
  /\ LET r == EMul(k[t] \div 2, tab[t]) IN
       IF Variant = "scratch" THEN place' = r /\ UNCHANGED acc ELSE acc' = [acc EXCEPT ![t] = r] /\ UNCHANGED place
  /\ Goto(t, "low") /\ UNCHANGED <<left, p, k, tab, memo, lock>>
Low(t) ==
  /\ pc[t] = "low"
  /\ LET r == EAdd(IF Variant = "scratch" THEN place ELSE acc[t], IF k[t] % 2 = 1 THEN p[t] ELSE EId) IN acc' = [acc EXCEPT ![t] = r]
  /\ Goto(t, "done") /\ UNCHANGED <<left, p, k, tab, memo, lock, place>>

Step(t) == Begin(t) \/ Take(t) \/ Look(t) \/ Enter(t) \/ Table(t) \/ Free(t) \/ High(t) \/ Low(t)
Next == \E t \in Thread : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Thread : WF_vars(Step(t))

\* a call gives what Machine's one step gives
Isolated == \A t \in Thread : pc[t] = "done" => acc[t] = EMul(k[t], p[t])
\* and always comes back
Return == \A t \in Thread : <>[](left[t] = 0 /\ pc[t] = "done")
==============================================================================
