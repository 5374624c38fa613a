-------------------------------- MODULE Leak --------------------------------
(***************************************************************************)
(* What an observer of a run sees beside its result: the instructions that *)
(* are executed and the addresses that are read and written.  The crate's  *)
(* loops over secrets as small programs for a machine whose every step     *)
(* emits what is observed of it: <<where the program is, addresses...>>.   *)
(* An address is <<array, index>>; an operation of the field, of a group   *)
(* or of subtle's Choice on values at fixed places is one step, and is     *)
(* seen as such whatever the values are (Limbs, MC_Leak and, for the real  *)
(* code, LeakTrace).                                                       *)
(*                                                                         *)
(* Secret-independence is a property of pairs of runs: two runs of one     *)
(* program that differ only in secrets emit the same observations.         *)
(* MC_Leak checks it on the product of the program with itself.  Variant   *)
(* names ways to get it wrong ("none" is what the crate does); MC_Leak has *)
(* to reject every other.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Variant,
          Digits,      \* number of signed digits, of bits and of bytes of a secret
          Size         \* entries of the table: digits are in -Size..Size

\* a state of a run: [pc, i, j, secret, acc]; secret is a pair of sequences
\* what is observed: <<pc, addresses>>
Go(pc, i, j, acc, obs) == [pc |-> pc, i |-> i, j |-> j, acc |-> acc, obs |-> obs]

Abs(x) == IF x < 0 THEN -x ELSE x

\* scalar_mul/variable_base.rs with window/wnaf: for each digit from the top, four doublings, a pass
\* over the whole table, a conditional negation, an addition
VarBase(r) ==
  LET s == r.secret[1] d == s[r.i] IN
  CASE r.pc = "init" -> Go("dbl", Digits, 0, 0, <<"init">>)
    [] r.pc = "dbl"  ->
         IF Variant = "skip" /\ d = 0 THEN Go(IF r.i = 1 THEN "done" ELSE "dbl", r.i - 1, 0, 2 * Size * r.acc, <<"dbl", <<"digit", r.i>> >>)
         ELSE IF Variant = "index" THEN Go("neg", r.i, Abs(d), 2 * Size * r.acc, <<"dbl", <<"digit", r.i>>, <<"table", Abs(d)>> >>)
         ELSE Go("sel", r.i, 1, 2 * Size * r.acc, <<"dbl", <<"digit", r.i>> >>)
    [] r.pc = "sel"  ->      \* acc + j, if j is the digit, by masks
         IF Variant = "break" /\ Abs(d) = r.j THEN Go("neg", r.i, r.j, r.acc, <<"sel", <<"table", r.j>> >>)
         ELSE Go(IF r.j = Size THEN "neg" ELSE "sel", r.i, r.j + 1, r.acc, <<"sel", <<"table", r.j>> >>)
    [] r.pc = "neg"  ->
         IF Variant = "branch" /\ d < 0 THEN Go(IF r.i = 1 THEN "done" ELSE "dbl", r.i - 1, 0, r.acc + d, <<"neg", "negated">>)
         ELSE Go(IF r.i = 1 THEN "done" ELSE "dbl", r.i - 1, 0, r.acc + d, <<"neg">>)

\* the ladder, and double-and-add: one conditional swap (assignment) and one step for each bit
Ladder(r) ==
  LET s == r.secret[1] bit == s[r.i] % 2 IN
  CASE r.pc = "init" -> Go("step", Digits, 0, 0, <<"init">>)
    [] r.pc = "step" ->
         IF Variant = "lead" /\ r.acc = 0 /\ bit = 0 THEN Go(IF r.i = 1 THEN "done" ELSE "step", r.i - 1, 0, 0, <<"skip", <<"bit", r.i>> >>)
         ELSE Go(IF r.i = 1 THEN "done" ELSE "step", r.i - 1, 0, 2 * r.acc + bit, <<"step", <<"bit", r.i>> >>)

\* comparison of two strings (ct_eq of bytes), accumulating the differences
Equal(r) ==
  LET a == r.secret[1] b == r.secret[2] same == IF a[r.i] = b[r.i] THEN 0 ELSE 1 IN
  CASE r.pc = "init" -> Go("byte", 1, 0, 0, <<"init">>)
    [] r.pc = "byte" ->
         Go(IF r.i = Digits \/ (Variant = "early" /\ same = 1) THEN "done" ELSE "byte", r.i + 1, 0, r.acc + same,
            <<"byte", <<"a", r.i>>, <<"b", r.i>> >>)

\* the final correction of sub_extra and halve: the modulus masked by the borrow is always added
Correct(r) ==
  LET a == r.secret[1] b == r.secret[2] IN
  CASE r.pc = "init" -> Go("sub", 1, 0, 0, <<"init">>)
    [] r.pc = "sub"  -> LET c == a[r.i] - b[r.i] + r.acc IN
         Go(IF r.i = Digits THEN (IF Variant = "correct" /\ c >= 0 THEN "done" ELSE "add") ELSE "sub",
            IF r.i = Digits THEN 1 ELSE r.i + 1, 0, IF c < 0 THEN -1 ELSE 0, <<"sub", <<"a", r.i>>, <<"b", r.i>> >>)
    [] r.pc = "add"  -> Go(IF r.i = Digits THEN "done" ELSE "add", r.i + 1, 0, r.acc, <<"add", <<"m", r.i>> >>)

\* the low two bits pick one of four points (scalar_mod_four)
ModFour(r) ==
  LET k == (r.secret[1])[1] % 4 IN
  CASE r.pc = "init" -> Go("four", 0, 0, 0, <<"init">>)
    [] r.pc = "four" ->
         IF Variant = "direct" THEN Go("done", 0, 0, k, <<"four", <<"multiple", k>> >>)
         ELSE Go(IF r.i = 3 THEN "done" ELSE "four", r.i + 1, 0, IF r.i = k THEN k ELSE r.acc, <<"four", <<"multiple", r.i>> >>)

Step(prog, r) ==
  CASE prog = "varbase" -> VarBase(r)
    [] prog = "ladder"  -> Ladder(r)
    [] prog = "equal"   -> Equal(r)
    [] prog = "correct" -> Correct(r)
    [] prog = "modfour" -> ModFour(r)
Programs == {"varbase", "ladder", "equal", "correct", "modfour"}
Start(secret) == [pc |-> "init", i |-> 1, j |-> 0, acc |-> 0, obs |-> <<>>, secret |-> secret]
=============================================================================
