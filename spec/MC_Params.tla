----------------------------- MODULE MC_Params ------------------------------
(* The real parameters, at the real size: that they are what the RFCs say they are, that the
   theorems the small models check apply to them, and the published test vectors. *)
EXTENDS Params448, TLC

\* Fermat, for a few bases: enough to catch a wrong digit
LooksPrime(n, k) == \A b \in {2, 3, 5, 7, 11} : PowDigits(b, Digits(n - 1, 4, k), n) = 1
ASSUME PrimeField == LooksPrime(P, 112) /\ P % 8 = 7
ASSUME PrimeOrder == LooksPrime(L, 112) /\ L < 2^446 /\ L > 2^445
\* (P + 1 - t) / 4 with a trace within Hasse's bound, so that 4 L is the order of the curve
ASSUME Order == LET t == P + 1 - 4 * L IN t * t < 4 * P
ASSUME NonSquares == ~Square(D) /\ ~Square((1 - D) % P) /\ D = P - 39081
ASSUME Root == ~Odd(SMD) /\ (SMD * SMD + D) % P = 0
ASSUME Base == EOn(EGen) /\ EMul(L, EGen) = EId /\ EGen # EId
ASSUME BaseOnTwisted == TOn(ToTwisted(EGen)) /\ TMul(L, ToTwisted(EGen)) = TId
ASSUME U == ToU(EGen) = 5 /\ A24 = 39081 /\ (2 - 4 * D - 156326) % P = 0
ASSUME FourTimes == ToUntwisted(ToTwisted(EGen)) = EMul(4, EGen)

cDecafMultiples == <<Undigits(<<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, 28),
  Undigits(<<107374182, 107374182, 107374182, 107374182, 107374182, 107374182, 107374182, 107374182, 53687091, 53687091, 53687091, 53687091, 53687091, 53687091, 53687091, 53687091>>, 28),
  Undigits(<<267098312, 131045492, 107957334, 239890941, 171018646, 149426676, 199974600, 77929811, 131274440, 166684552, 262686707, 132652201, 234741350, 146898158, 34195324, 123134235>>, 28),
  Undigits(<<43761824, 8858543, 267690237, 257756731, 5544626, 114491683, 169575235, 242679237, 57629176, 64446602, 40391857, 217125811, 216746606, 72343944, 71602023, 197563813>>, 28),
  Undigits(<<102264756, 130189987, 55990794, 99536645, 67365369, 30286703, 180514837, 257842585, 244832918, 22117118, 185328394, 218579740, 47694411, 126647425, 229932189, 256084511>>, 28),
  Undigits(<<264133404, 234099836, 127788970, 217031387, 95087104, 7086124, 179713033, 111979246, 155041056, 142339594, 13694839, 186454834, 35882072, 33179666, 219084999, 99283022>>, 28),
  Undigits(<<33685382, 133233992, 41474974, 34964758, 113207229, 63283565, 127262276, 193437181, 80714871, 208549382, 180449419, 15895206, 37714733, 194272626, 210798970, 113541062>>, 28),
  Undigits(<<147532624, 7255078, 43050224, 130976675, 218319957, 47503057, 267359350, 148138443, 795208, 42774405, 124007300, 154067149, 237305558, 150226454, 192985501, 8537016>>, 28),
  Undigits(<<17864716, 222215727, 161991305, 126145400, 259291392, 35747038, 250877555, 54048112, 265955176, 44336819, 183211079, 194466710, 149009777, 244656371, 217162270, 19897099>>, 28),
  Undigits(<<85840928, 90757656, 9871959, 103895844, 256692411, 171773874, 178551674, 40359155, 258990652, 121763050, 11924729, 43592809, 52385710, 60450814, 149665973, 89762772>>, 28),
  Undigits(<<79213798, 1863823, 117507597, 205131486, 128229641, 218980866, 223958891, 251534415, 218574306, 222578374, 126701615, 43281382, 244044308, 49167816, 19960944, 24835653>>, 28),
  Undigits(<<146507966, 202741451, 161320509, 17402544, 29518175, 80821725, 112251836, 257262440, 81484081, 60693510, 150175953, 157821372, 70430416, 117178772, 180846504, 202590973>>, 28),
  Undigits(<<117003940, 243702131, 33720816, 20984993, 124100807, 52881923, 55516993, 84251673, 179141537, 191113039, 53769249, 256240138, 200402267, 251342192, 51159182, 207479268>>, 28),
  Undigits(<<205876760, 178676802, 11830083, 223412268, 186808622, 31948701, 165824395, 192641682, 219188540, 191825903, 154146276, 171065855, 263690989, 159955505, 105381554, 109174100>>, 28),
  Undigits(<<184411978, 66346652, 227432985, 28042698, 127506043, 205857718, 125415946, 141853794, 253973438, 34842615, 232011961, 236753120, 5315931, 266599187, 91427800, 70431722>>, 28),
  Undigits(<<58792324, 205450236, 184421622, 227383132, 217323484, 116461318, 179642916, 10849993, 121828184, 98804450, 218454615, 19946933, 72140176, 186567778, 132885728, 90572272>>, 28)>>
cX448 == <<<<Undigits(<<221193788, 149868445, 106056072, 162144230, 42521140, 5176008, 30409809, 35527341, 209128048, 38062473, 265801208, 77548536, 144960323, 43302742, 206543397, 221292033>>, 28), Undigits(<<15137798, 141774756, 207608511, 40722214, 145590847, 198492984, 41894663, 261128432, 29379969, 205250003, 180754828, 262681181, 81471828, 145365721, 251373479, 141168516>>, 28), Undigits(<<156188366, 231081391, 232429414, 99453713, 165673834, 37792599, 223663890, 166868470, 230313953, 99897018, 92870, 160028539, 23148834, 123867617, 234324578, 116833683>>, 28)>>,
  <<Undigits(<<71908640, 60523140, 224809619, 49958341, 117368989, 149487631, 1852941, 207585819, 123548728, 75753421, 106947078, 96673076, 77979716, 136389499, 193801437, 233872949>>, 28), Undigits(<<163757071, 91019583, 190525651, 89778128, 195609044, 86750687, 161606136, 28445550, 134307094, 114186565, 242234701, 237174363, 143319557, 233950103, 136112061, 229997854>>, 28), Undigits(<<117590664, 267621925, 53423994, 112048934, 124842911, 90258116, 238034574, 175916607, 54401965, 14092894, 102843379, 241660429, 96809782, 88906775, 177819217, 164722637>>, 28)>>,
  <<Undigits(<<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 134217728>>, 28), Undigits(<<5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, 28), Undigits(<<170674239, 184654328, 239496222, 227613054, 201135324, 255307620, 247620871, 111690426, 229122893, 159088860, 154755592, 56292036, 66605323, 163100771, 163361730, 20192506>>, 28)>>>>

\* decaf448: the multiples of the generator 0..15 (libdecaf, and RFC 9496 A.1)
ASSUME Decaf == \A i \in 1..16 : DEnc(DMul(i - 1, DGen)) = cDecafMultiples[i] /\ DDec(cDecafMultiples[i]) # <<>>
\* X448 (RFC 7748, 5.2, the scalars clamped as it says), the last is 5 times the base point
ASSUME X448 == \A i \in 1..3 : Ladder(cX448[i][1], cX448[i][2]) = cX448[i][3]

\* The addition chains of FieldElement::invert and inverse_square_root, as exponents
Sq(e, n) == e * 2^n
ChainInv ==
  LET e10 == 2  e11 == 1 + e10  e110 == Sq(e11, 1)  e111 == 1 + e110  e6 == e111 + Sq(e111, 3)
      x12 == Sq(e6, 6) + e6  x24 == Sq(x12, 12) + x12  i34 == Sq(x24, 6)  x30 == e6 + i34
      x48 == Sq(i34, 18) + x24  x96 == Sq(x48, 48) + x48  x192 == Sq(x96, 96) + x96
      x222 == Sq(x192, 30) + x30  x223 == Sq(x222, 1) + 1
  IN Sq(Sq(x223, 223) + x222, 2) + 1
ASSUME Chain == ChainInv = P - 2
\* <<l1, l0>>: the root and the residue symbol
ChainRoot ==
  LET a == 1 + Sq(1 + 2, 1)  b == a + Sq(a, 3)  c == a + Sq(b, 3)  d == c + Sq(c, 9)
      e == 2 * d + 1  f == d + Sq(e, 18)  g == f + Sq(f, 37)  h == f + Sq(g, 37)
      i == h + Sq(h, 111)  j == 2 * i + 1  k == i + Sq(j, 223)
  IN <<k, 2 * k + 1>>
ASSUME Roots == ChainRoot = <<(P - 3) \div 4, (P - 1) \div 2>>
\* Scalar::invert: the sliding window of 3 bits, as exponents: <<exponent, residue, trailing, started>>
Slide(st, i) ==
  LET r0  == IF st[4] THEN 2 * st[1] ELSE st[1]
      res == 2 * st[2] + (IF i >= 0 THEN ((L - 2) \div 2^i) % 2 ELSE 0)
      tr  == IF res >= 8 THEN res ELSE st[3]
      now == tr > 0 /\ tr % 8 = 0
      r1  == IF now THEN (IF st[4] THEN r0 ELSE 0) + 2 * (tr \div 16) + 1 ELSE r0
  IN <<r1, IF res >= 8 THEN 0 ELSE res, (IF now THEN 0 ELSE tr) * 2, st[4] \/ now>>
ASSUME Sliding == FoldLeft(Slide, <<0, 0, 0, FALSE>>, [k \in 1..449 |-> 446 - k]) = <<L - 2, 0, 0, TRUE>>

VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
