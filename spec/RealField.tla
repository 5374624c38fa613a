---- MODULE RealField ----
(* field/u32: weak and strong reduction, sum and difference, on limbs up to what the operations leave
   Written by driver/real.py. *)
EXTENDS Integers
VARIABLES
  \* @type: Int;
  a0,
  \* @type: Int;
  a1,
  \* @type: Int;
  a2,
  \* @type: Int;
  a3,
  \* @type: Int;
  a4,
  \* @type: Int;
  a5,
  \* @type: Int;
  a6,
  \* @type: Int;
  a7,
  \* @type: Int;
  a8,
  \* @type: Int;
  a9,
  \* @type: Int;
  a10,
  \* @type: Int;
  a11,
  \* @type: Int;
  a12,
  \* @type: Int;
  a13,
  \* @type: Int;
  a14,
  \* @type: Int;
  a15,
  \* @type: Int;
  b0,
  \* @type: Int;
  b1,
  \* @type: Int;
  b2,
  \* @type: Int;
  b3,
  \* @type: Int;
  b4,
  \* @type: Int;
  b5,
  \* @type: Int;
  b6,
  \* @type: Int;
  b7,
  \* @type: Int;
  b8,
  \* @type: Int;
  b9,
  \* @type: Int;
  b10,
  \* @type: Int;
  b11,
  \* @type: Int;
  b12,
  \* @type: Int;
  b13,
  \* @type: Int;
  b14,
  \* @type: Int;
  b15,
  \* @type: Int;
  A,
  \* @type: Int;
  B,
  \* @type: Int;
  stop,
  \* @type: Int;
  sy0,
  \* @type: Int;
  sy1,
  \* @type: Int;
  sy2,
  \* @type: Int;
  sy3,
  \* @type: Int;
  sy4,
  \* @type: Int;
  sy5,
  \* @type: Int;
  sy6,
  \* @type: Int;
  sy7,
  \* @type: Int;
  sy8,
  \* @type: Int;
  sy9,
  \* @type: Int;
  sy10,
  \* @type: Int;
  sy11,
  \* @type: Int;
  sy12,
  \* @type: Int;
  sy13,
  \* @type: Int;
  sy14,
  \* @type: Int;
  sy15,
  \* @type: Int;
  sw0,
  \* @type: Int;
  sw1,
  \* @type: Int;
  sw2,
  \* @type: Int;
  sw3,
  \* @type: Int;
  sw4,
  \* @type: Int;
  sw5,
  \* @type: Int;
  sw6,
  \* @type: Int;
  sw7,
  \* @type: Int;
  sw8,
  \* @type: Int;
  sw9,
  \* @type: Int;
  sw10,
  \* @type: Int;
  sw11,
  \* @type: Int;
  sw12,
  \* @type: Int;
  sw13,
  \* @type: Int;
  sw14,
  \* @type: Int;
  sw15,
  \* @type: Int;
  S,
  \* @type: Int;
  dtop,
  \* @type: Int;
  dy0,
  \* @type: Int;
  dy1,
  \* @type: Int;
  dy2,
  \* @type: Int;
  dy3,
  \* @type: Int;
  dy4,
  \* @type: Int;
  dy5,
  \* @type: Int;
  dy6,
  \* @type: Int;
  dy7,
  \* @type: Int;
  dy8,
  \* @type: Int;
  dy9,
  \* @type: Int;
  dy10,
  \* @type: Int;
  dy11,
  \* @type: Int;
  dy12,
  \* @type: Int;
  dy13,
  \* @type: Int;
  dy14,
  \* @type: Int;
  dy15,
  \* @type: Int;
  dw0,
  \* @type: Int;
  dw1,
  \* @type: Int;
  dw2,
  \* @type: Int;
  dw3,
  \* @type: Int;
  dw4,
  \* @type: Int;
  dw5,
  \* @type: Int;
  dw6,
  \* @type: Int;
  dw7,
  \* @type: Int;
  dw8,
  \* @type: Int;
  dw9,
  \* @type: Int;
  dw10,
  \* @type: Int;
  dw11,
  \* @type: Int;
  dw12,
  \* @type: Int;
  dw13,
  \* @type: Int;
  dw14,
  \* @type: Int;
  dw15,
  \* @type: Int;
  D,
  \* @type: Int;
  wtop,
  \* @type: Int;
  wy0,
  \* @type: Int;
  wy1,
  \* @type: Int;
  wy2,
  \* @type: Int;
  wy3,
  \* @type: Int;
  wy4,
  \* @type: Int;
  wy5,
  \* @type: Int;
  wy6,
  \* @type: Int;
  wy7,
  \* @type: Int;
  wy8,
  \* @type: Int;
  wy9,
  \* @type: Int;
  wy10,
  \* @type: Int;
  wy11,
  \* @type: Int;
  wy12,
  \* @type: Int;
  wy13,
  \* @type: Int;
  wy14,
  \* @type: Int;
  wy15,
  \* @type: Int;
  ww0,
  \* @type: Int;
  ww1,
  \* @type: Int;
  ww2,
  \* @type: Int;
  ww3,
  \* @type: Int;
  ww4,
  \* @type: Int;
  ww5,
  \* @type: Int;
  ww6,
  \* @type: Int;
  ww7,
  \* @type: Int;
  ww8,
  \* @type: Int;
  ww9,
  \* @type: Int;
  ww10,
  \* @type: Int;
  ww11,
  \* @type: Int;
  ww12,
  \* @type: Int;
  ww13,
  \* @type: Int;
  ww14,
  \* @type: Int;
  ww15,
  \* @type: Int;
  tt0,
  \* @type: Int;
  tr0,
  \* @type: Int;
  tc0,
  \* @type: Int;
  tt1,
  \* @type: Int;
  tr1,
  \* @type: Int;
  tc1,
  \* @type: Int;
  tt2,
  \* @type: Int;
  tr2,
  \* @type: Int;
  tc2,
  \* @type: Int;
  tt3,
  \* @type: Int;
  tr3,
  \* @type: Int;
  tc3,
  \* @type: Int;
  tt4,
  \* @type: Int;
  tr4,
  \* @type: Int;
  tc4,
  \* @type: Int;
  tt5,
  \* @type: Int;
  tr5,
  \* @type: Int;
  tc5,
  \* @type: Int;
  tt6,
  \* @type: Int;
  tr6,
  \* @type: Int;
  tc6,
  \* @type: Int;
  tt7,
  \* @type: Int;
  tr7,
  \* @type: Int;
  tc7,
  \* @type: Int;
  tt8,
  \* @type: Int;
  tr8,
  \* @type: Int;
  tc8,
  \* @type: Int;
  tt9,
  \* @type: Int;
  tr9,
  \* @type: Int;
  tc9,
  \* @type: Int;
  tt10,
  \* @type: Int;
  tr10,
  \* @type: Int;
  tc10,
  \* @type: Int;
  tt11,
  \* @type: Int;
  tr11,
  \* @type: Int;
  tc11,
  \* @type: Int;
  tt12,
  \* @type: Int;
  tr12,
  \* @type: Int;
  tc12,
  \* @type: Int;
  tt13,
  \* @type: Int;
  tr13,
  \* @type: Int;
  tc13,
  \* @type: Int;
  tt14,
  \* @type: Int;
  tr14,
  \* @type: Int;
  tc14,
  \* @type: Int;
  tt15,
  \* @type: Int;
  tr15,
  \* @type: Int;
  tc15,
  \* @type: Int;
  ut0,
  \* @type: Int;
  ur0,
  \* @type: Int;
  uc0,
  \* @type: Int;
  ut1,
  \* @type: Int;
  ur1,
  \* @type: Int;
  uc1,
  \* @type: Int;
  ut2,
  \* @type: Int;
  ur2,
  \* @type: Int;
  uc2,
  \* @type: Int;
  ut3,
  \* @type: Int;
  ur3,
  \* @type: Int;
  uc3,
  \* @type: Int;
  ut4,
  \* @type: Int;
  ur4,
  \* @type: Int;
  uc4,
  \* @type: Int;
  ut5,
  \* @type: Int;
  ur5,
  \* @type: Int;
  uc5,
  \* @type: Int;
  ut6,
  \* @type: Int;
  ur6,
  \* @type: Int;
  uc6,
  \* @type: Int;
  ut7,
  \* @type: Int;
  ur7,
  \* @type: Int;
  uc7,
  \* @type: Int;
  ut8,
  \* @type: Int;
  ur8,
  \* @type: Int;
  uc8,
  \* @type: Int;
  ut9,
  \* @type: Int;
  ur9,
  \* @type: Int;
  uc9,
  \* @type: Int;
  ut10,
  \* @type: Int;
  ur10,
  \* @type: Int;
  uc10,
  \* @type: Int;
  ut11,
  \* @type: Int;
  ur11,
  \* @type: Int;
  uc11,
  \* @type: Int;
  ut12,
  \* @type: Int;
  ur12,
  \* @type: Int;
  uc12,
  \* @type: Int;
  ut13,
  \* @type: Int;
  ur13,
  \* @type: Int;
  uc13,
  \* @type: Int;
  ut14,
  \* @type: Int;
  ur14,
  \* @type: Int;
  uc14,
  \* @type: Int;
  ut15,
  \* @type: Int;
  ur15,
  \* @type: Int;
  uc15,
  \* @type: Int;
  U
Init ==
  /\ a0 \in Int /\ 0 <= a0 /\ a0 < 268435546
  /\ a1 \in Int /\ 0 <= a1 /\ a1 < 268435546
  /\ a2 \in Int /\ 0 <= a2 /\ a2 < 268435546
  /\ a3 \in Int /\ 0 <= a3 /\ a3 < 268435546
  /\ a4 \in Int /\ 0 <= a4 /\ a4 < 268435546
  /\ a5 \in Int /\ 0 <= a5 /\ a5 < 268435546
  /\ a6 \in Int /\ 0 <= a6 /\ a6 < 268435546
  /\ a7 \in Int /\ 0 <= a7 /\ a7 < 268435546
  /\ a8 \in Int /\ 0 <= a8 /\ a8 < 268435546
  /\ a9 \in Int /\ 0 <= a9 /\ a9 < 268435546
  /\ a10 \in Int /\ 0 <= a10 /\ a10 < 268435546
  /\ a11 \in Int /\ 0 <= a11 /\ a11 < 268435546
  /\ a12 \in Int /\ 0 <= a12 /\ a12 < 268435546
  /\ a13 \in Int /\ 0 <= a13 /\ a13 < 268435546
  /\ a14 \in Int /\ 0 <= a14 /\ a14 < 268435546
  /\ a15 \in Int /\ 0 <= a15 /\ a15 < 268435546
  /\ b0 \in Int /\ 0 <= b0 /\ b0 < 268435546
  /\ b1 \in Int /\ 0 <= b1 /\ b1 < 268435546
  /\ b2 \in Int /\ 0 <= b2 /\ b2 < 268435546
  /\ b3 \in Int /\ 0 <= b3 /\ b3 < 268435546
  /\ b4 \in Int /\ 0 <= b4 /\ b4 < 268435546
  /\ b5 \in Int /\ 0 <= b5 /\ b5 < 268435546
  /\ b6 \in Int /\ 0 <= b6 /\ b6 < 268435546
  /\ b7 \in Int /\ 0 <= b7 /\ b7 < 268435546
  /\ b8 \in Int /\ 0 <= b8 /\ b8 < 268435546
  /\ b9 \in Int /\ 0 <= b9 /\ b9 < 268435546
  /\ b10 \in Int /\ 0 <= b10 /\ b10 < 268435546
  /\ b11 \in Int /\ 0 <= b11 /\ b11 < 268435546
  /\ b12 \in Int /\ 0 <= b12 /\ b12 < 268435546
  /\ b13 \in Int /\ 0 <= b13 /\ b13 < 268435546
  /\ b14 \in Int /\ 0 <= b14 /\ b14 < 268435546
  /\ b15 \in Int /\ 0 <= b15 /\ b15 < 268435546
  /\ A = a0 * 1 + a1 * 268435456 + a2 * 72057594037927936 + a3 * 19342813113834066795298816 + a4 * 5192296858534827628530496329220096 + a5 * 1393796574908163946345982392040522594123776 + a6 * 374144419156711147060143317175368453031918731001856 + a7 * 100433627766186892221372630771322662657637687111424552206336 + a8 * 26959946667150639794667015087019630673637144422540572481103610249216 + a9 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + a10 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + a11 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + a12 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + a13 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + a14 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + a15 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576
  /\ B = b0 * 1 + b1 * 268435456 + b2 * 72057594037927936 + b3 * 19342813113834066795298816 + b4 * 5192296858534827628530496329220096 + b5 * 1393796574908163946345982392040522594123776 + b6 * 374144419156711147060143317175368453031918731001856 + b7 * 100433627766186892221372630771322662657637687111424552206336 + b8 * 26959946667150639794667015087019630673637144422540572481103610249216 + b9 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + b10 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + b11 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + b12 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + b13 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + b14 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + b15 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576
  /\ stop = (a15 + b15) \div 268435456
  /\ sy0 = a0 + b0
  /\ sy1 = a1 + b1
  /\ sy2 = a2 + b2
  /\ sy3 = a3 + b3
  /\ sy4 = a4 + b4
  /\ sy5 = a5 + b5
  /\ sy6 = a6 + b6
  /\ sy7 = a7 + b7
  /\ sy8 = a8 + b8 + stop
  /\ sy9 = a9 + b9
  /\ sy10 = a10 + b10
  /\ sy11 = a11 + b11
  /\ sy12 = a12 + b12
  /\ sy13 = a13 + b13
  /\ sy14 = a14 + b14
  /\ sy15 = a15 + b15
  /\ sw0 = (sy0 % 268435456) + stop
  /\ sw1 = (sy1 % 268435456) + (sy0 \div 268435456)
  /\ sw2 = (sy2 % 268435456) + (sy1 \div 268435456)
  /\ sw3 = (sy3 % 268435456) + (sy2 \div 268435456)
  /\ sw4 = (sy4 % 268435456) + (sy3 \div 268435456)
  /\ sw5 = (sy5 % 268435456) + (sy4 \div 268435456)
  /\ sw6 = (sy6 % 268435456) + (sy5 \div 268435456)
  /\ sw7 = (sy7 % 268435456) + (sy6 \div 268435456)
  /\ sw8 = (sy8 % 268435456) + (sy7 \div 268435456)
  /\ sw9 = (sy9 % 268435456) + (sy8 \div 268435456)
  /\ sw10 = (sy10 % 268435456) + (sy9 \div 268435456)
  /\ sw11 = (sy11 % 268435456) + (sy10 \div 268435456)
  /\ sw12 = (sy12 % 268435456) + (sy11 \div 268435456)
  /\ sw13 = (sy13 % 268435456) + (sy12 \div 268435456)
  /\ sw14 = (sy14 % 268435456) + (sy13 \div 268435456)
  /\ sw15 = (sy15 % 268435456) + (sy14 \div 268435456)
  /\ S = sw0 * 1 + sw1 * 268435456 + sw2 * 72057594037927936 + sw3 * 19342813113834066795298816 + sw4 * 5192296858534827628530496329220096 + sw5 * 1393796574908163946345982392040522594123776 + sw6 * 374144419156711147060143317175368453031918731001856 + sw7 * 100433627766186892221372630771322662657637687111424552206336 + sw8 * 26959946667150639794667015087019630673637144422540572481103610249216 + sw9 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + sw10 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + sw11 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + sw12 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + sw13 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + sw14 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + sw15 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576
  /\ dtop = (a15 + 536870910 - b15) \div 268435456
  /\ dy0 = a0 + 536870910 - b0
  /\ dy1 = a1 + 536870910 - b1
  /\ dy2 = a2 + 536870910 - b2
  /\ dy3 = a3 + 536870910 - b3
  /\ dy4 = a4 + 536870910 - b4
  /\ dy5 = a5 + 536870910 - b5
  /\ dy6 = a6 + 536870910 - b6
  /\ dy7 = a7 + 536870910 - b7
  /\ dy8 = a8 + 536870908 - b8 + dtop
  /\ dy9 = a9 + 536870910 - b9
  /\ dy10 = a10 + 536870910 - b10
  /\ dy11 = a11 + 536870910 - b11
  /\ dy12 = a12 + 536870910 - b12
  /\ dy13 = a13 + 536870910 - b13
  /\ dy14 = a14 + 536870910 - b14
  /\ dy15 = a15 + 536870910 - b15
  /\ dw0 = (dy0 % 268435456) + dtop
  /\ dw1 = (dy1 % 268435456) + (dy0 \div 268435456)
  /\ dw2 = (dy2 % 268435456) + (dy1 \div 268435456)
  /\ dw3 = (dy3 % 268435456) + (dy2 \div 268435456)
  /\ dw4 = (dy4 % 268435456) + (dy3 \div 268435456)
  /\ dw5 = (dy5 % 268435456) + (dy4 \div 268435456)
  /\ dw6 = (dy6 % 268435456) + (dy5 \div 268435456)
  /\ dw7 = (dy7 % 268435456) + (dy6 \div 268435456)
  /\ dw8 = (dy8 % 268435456) + (dy7 \div 268435456)
  /\ dw9 = (dy9 % 268435456) + (dy8 \div 268435456)
  /\ dw10 = (dy10 % 268435456) + (dy9 \div 268435456)
  /\ dw11 = (dy11 % 268435456) + (dy10 \div 268435456)
  /\ dw12 = (dy12 % 268435456) + (dy11 \div 268435456)
  /\ dw13 = (dy13 % 268435456) + (dy12 \div 268435456)
  /\ dw14 = (dy14 % 268435456) + (dy13 \div 268435456)
  /\ dw15 = (dy15 % 268435456) + (dy14 \div 268435456)
  /\ D = dw0 * 1 + dw1 * 268435456 + dw2 * 72057594037927936 + dw3 * 19342813113834066795298816 + dw4 * 5192296858534827628530496329220096 + dw5 * 1393796574908163946345982392040522594123776 + dw6 * 374144419156711147060143317175368453031918731001856 + dw7 * 100433627766186892221372630771322662657637687111424552206336 + dw8 * 26959946667150639794667015087019630673637144422540572481103610249216 + dw9 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + dw10 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + dw11 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + dw12 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + dw13 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + dw14 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + dw15 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576
  /\ wtop = (a15) \div 268435456
  /\ wy0 = a0
  /\ wy1 = a1
  /\ wy2 = a2
  /\ wy3 = a3
  /\ wy4 = a4
  /\ wy5 = a5
  /\ wy6 = a6
  /\ wy7 = a7
  /\ wy8 = a8 + wtop
  /\ wy9 = a9
  /\ wy10 = a10
  /\ wy11 = a11
  /\ wy12 = a12
  /\ wy13 = a13
  /\ wy14 = a14
  /\ wy15 = a15
  /\ ww0 = (wy0 % 268435456) + wtop
  /\ ww1 = (wy1 % 268435456) + (wy0 \div 268435456)
  /\ ww2 = (wy2 % 268435456) + (wy1 \div 268435456)
  /\ ww3 = (wy3 % 268435456) + (wy2 \div 268435456)
  /\ ww4 = (wy4 % 268435456) + (wy3 \div 268435456)
  /\ ww5 = (wy5 % 268435456) + (wy4 \div 268435456)
  /\ ww6 = (wy6 % 268435456) + (wy5 \div 268435456)
  /\ ww7 = (wy7 % 268435456) + (wy6 \div 268435456)
  /\ ww8 = (wy8 % 268435456) + (wy7 \div 268435456)
  /\ ww9 = (wy9 % 268435456) + (wy8 \div 268435456)
  /\ ww10 = (wy10 % 268435456) + (wy9 \div 268435456)
  /\ ww11 = (wy11 % 268435456) + (wy10 \div 268435456)
  /\ ww12 = (wy12 % 268435456) + (wy11 \div 268435456)
  /\ ww13 = (wy13 % 268435456) + (wy12 \div 268435456)
  /\ ww14 = (wy14 % 268435456) + (wy13 \div 268435456)
  /\ ww15 = (wy15 % 268435456) + (wy14 \div 268435456)
  /\ tt0 = ww0 - 268435455
  /\ tr0 = tt0 % 268435456
  /\ tc0 = tt0 \div 268435456
  /\ tt1 = tc0 + ww1 - 268435455
  /\ tr1 = tt1 % 268435456
  /\ tc1 = tt1 \div 268435456
  /\ tt2 = tc1 + ww2 - 268435455
  /\ tr2 = tt2 % 268435456
  /\ tc2 = tt2 \div 268435456
  /\ tt3 = tc2 + ww3 - 268435455
  /\ tr3 = tt3 % 268435456
  /\ tc3 = tt3 \div 268435456
  /\ tt4 = tc3 + ww4 - 268435455
  /\ tr4 = tt4 % 268435456
  /\ tc4 = tt4 \div 268435456
  /\ tt5 = tc4 + ww5 - 268435455
  /\ tr5 = tt5 % 268435456
  /\ tc5 = tt5 \div 268435456
  /\ tt6 = tc5 + ww6 - 268435455
  /\ tr6 = tt6 % 268435456
  /\ tc6 = tt6 \div 268435456
  /\ tt7 = tc6 + ww7 - 268435455
  /\ tr7 = tt7 % 268435456
  /\ tc7 = tt7 \div 268435456
  /\ tt8 = tc7 + ww8 - 268435454
  /\ tr8 = tt8 % 268435456
  /\ tc8 = tt8 \div 268435456
  /\ tt9 = tc8 + ww9 - 268435455
  /\ tr9 = tt9 % 268435456
  /\ tc9 = tt9 \div 268435456
  /\ tt10 = tc9 + ww10 - 268435455
  /\ tr10 = tt10 % 268435456
  /\ tc10 = tt10 \div 268435456
  /\ tt11 = tc10 + ww11 - 268435455
  /\ tr11 = tt11 % 268435456
  /\ tc11 = tt11 \div 268435456
  /\ tt12 = tc11 + ww12 - 268435455
  /\ tr12 = tt12 % 268435456
  /\ tc12 = tt12 \div 268435456
  /\ tt13 = tc12 + ww13 - 268435455
  /\ tr13 = tt13 % 268435456
  /\ tc13 = tt13 \div 268435456
  /\ tt14 = tc13 + ww14 - 268435455
  /\ tr14 = tt14 % 268435456
  /\ tc14 = tt14 \div 268435456
  /\ tt15 = tc14 + ww15 - 268435455
  /\ tr15 = tt15 % 268435456
  /\ tc15 = tt15 \div 268435456
  /\ ut0 = tr0 + (IF tc15 = 0 THEN 0 ELSE 268435455)
  /\ ur0 = ut0 % 268435456
  /\ uc0 = ut0 \div 268435456
  /\ ut1 = uc0 + tr1 + (IF tc15 = 0 THEN 0 ELSE 268435455)
  /\ ur1 = ut1 % 268435456
  /\ uc1 = ut1 \div 268435456
  /\ ut2 = uc1 + tr2 + (IF tc15 = 0 THEN 0 ELSE 268435455)
  /\ ur2 = ut2 % 268435456
  /\ uc2 = ut2 \div 268435456
  /\ ut3 = uc2 + tr3 + (IF tc15 = 0 THEN 0 ELSE 268435455)
  /\ ur3 = ut3 % 268435456
  /\ uc3 = ut3 \div 268435456
  /\ ut4 = uc3 + tr4 + (IF tc15 = 0 THEN 0 ELSE 268435455)
  /\ ur4 = ut4 % 268435456
  /\ uc4 = ut4 \div 268435456
  /\ ut5 = uc4 + tr5 + (IF tc15 = 0 THEN 0 ELSE 268435455)
  /\ ur5 = ut5 % 268435456
  /\ uc5 = ut5 \div 268435456
  /\ ut6 = uc5 + tr6 + (IF tc15 = 0 THEN 0 ELSE 268435455)
  /\ ur6 = ut6 % 268435456
  /\ uc6 = ut6 \div 268435456
  /\ ut7 = uc6 + tr7 + (IF tc15 = 0 THEN 0 ELSE 268435455)
  /\ ur7 = ut7 % 268435456
  /\ uc7 = ut7 \div 268435456
  /\ ut8 = uc7 + tr8 + (IF tc15 = 0 THEN 0 ELSE 268435454)
  /\ ur8 = ut8 % 268435456
  /\ uc8 = ut8 \div 268435456
  /\ ut9 = uc8 + tr9 + (IF tc15 = 0 THEN 0 ELSE 268435455)
  /\ ur9 = ut9 % 268435456
  /\ uc9 = ut9 \div 268435456
  /\ ut10 = uc9 + tr10 + (IF tc15 = 0 THEN 0 ELSE 268435455)
  /\ ur10 = ut10 % 268435456
  /\ uc10 = ut10 \div 268435456
  /\ ut11 = uc10 + tr11 + (IF tc15 = 0 THEN 0 ELSE 268435455)
  /\ ur11 = ut11 % 268435456
  /\ uc11 = ut11 \div 268435456
  /\ ut12 = uc11 + tr12 + (IF tc15 = 0 THEN 0 ELSE 268435455)
  /\ ur12 = ut12 % 268435456
  /\ uc12 = ut12 \div 268435456
  /\ ut13 = uc12 + tr13 + (IF tc15 = 0 THEN 0 ELSE 268435455)
  /\ ur13 = ut13 % 268435456
  /\ uc13 = ut13 \div 268435456
  /\ ut14 = uc13 + tr14 + (IF tc15 = 0 THEN 0 ELSE 268435455)
  /\ ur14 = ut14 % 268435456
  /\ uc14 = ut14 \div 268435456
  /\ ut15 = uc14 + tr15 + (IF tc15 = 0 THEN 0 ELSE 268435455)
  /\ ur15 = ut15 % 268435456
  /\ uc15 = ut15 \div 268435456
  /\ U = ur0 * 1 + ur1 * 268435456 + ur2 * 72057594037927936 + ur3 * 19342813113834066795298816 + ur4 * 5192296858534827628530496329220096 + ur5 * 1393796574908163946345982392040522594123776 + ur6 * 374144419156711147060143317175368453031918731001856 + ur7 * 100433627766186892221372630771322662657637687111424552206336 + ur8 * 26959946667150639794667015087019630673637144422540572481103610249216 + ur9 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + ur10 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + ur11 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + ur12 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + ur13 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + ur14 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + ur15 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576
Next == UNCHANGED <<a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, A, B, stop, sy0, sy1, sy2, sy3, sy4, sy5, sy6, sy7, sy8, sy9, sy10, sy11, sy12, sy13, sy14, sy15, sw0, sw1, sw2, sw3, sw4, sw5, sw6, sw7, sw8, sw9, sw10, sw11, sw12, sw13, sw14, sw15, S, dtop, dy0, dy1, dy2, dy3, dy4, dy5, dy6, dy7, dy8, dy9, dy10, dy11, dy12, dy13, dy14, dy15, dw0, dw1, dw2, dw3, dw4, dw5, dw6, dw7, dw8, dw9, dw10, dw11, dw12, dw13, dw14, dw15, D, wtop, wy0, wy1, wy2, wy3, wy4, wy5, wy6, wy7, wy8, wy9, wy10, wy11, wy12, wy13, wy14, wy15, ww0, ww1, ww2, ww3, ww4, ww5, ww6, ww7, ww8, ww9, ww10, ww11, ww12, ww13, ww14, ww15, tt0, tr0, tc0, tt1, tr1, tc1, tt2, tr2, tc2, tt3, tr3, tc3, tt4, tr4, tc4, tt5, tr5, tc5, tt6, tr6, tc6, tt7, tr7, tc7, tt8, tr8, tc8, tt9, tr9, tc9, tt10, tr10, tc10, tt11, tr11, tc11, tt12, tr12, tc12, tt13, tr13, tc13, tt14, tr14, tc14, tt15, tr15, tc15, ut0, ur0, uc0, ut1, ur1, uc1, ut2, ur2, uc2, ut3, ur3, uc3, ut4, ur4, uc4, ut5, ur5, uc5, ut6, ur6, uc6, ut7, ur7, uc7, ut8, ur8, uc8, ut9, ur9, uc9, ut10, ur10, uc10, ut11, ur11, uc11, ut12, ur12, uc12, ut13, ur13, uc13, ut14, ur14, uc14, ut15, ur15, uc15, U>>
Sum == S = A + B - stop * 726838724295606890549323807888004534353641360687318060281490199180612328166730772686396383698676545930088884461843637361053498018365439
NotBelow == a0 + 536870910 - b0 >= 0 /\ a1 + 536870910 - b1 >= 0 /\ a2 + 536870910 - b2 >= 0 /\ a3 + 536870910 - b3 >= 0 /\ a4 + 536870910 - b4 >= 0 /\ a5 + 536870910 - b5 >= 0 /\ a6 + 536870910 - b6 >= 0 /\ a7 + 536870910 - b7 >= 0 /\ a8 + 536870908 - b8 >= 0 /\ a9 + 536870910 - b9 >= 0 /\ a10 + 536870910 - b10 >= 0 /\ a11 + 536870910 - b11 >= 0 /\ a12 + 536870910 - b12 >= 0 /\ a13 + 536870910 - b13 >= 0 /\ a14 + 536870910 - b14 >= 0 /\ a15 + 536870910 - b15 >= 0
Difference == D = A + 1453677448591213781098647615776009068707282721374636120562980398361224656333461545372792767397353091860177768923687274722106996036730878 - B - dtop * 726838724295606890549323807888004534353641360687318060281490199180612328166730772686396383698676545930088884461843637361053498018365439
Fits == sw0 < 268435546 /\ dw0 < 268435546 /\ sw0 >= 0 /\ dw0 >= 0 /\ sw1 < 268435546 /\ dw1 < 268435546 /\ sw1 >= 0 /\ dw1 >= 0 /\ sw2 < 268435546 /\ dw2 < 268435546 /\ sw2 >= 0 /\ dw2 >= 0 /\ sw3 < 268435546 /\ dw3 < 268435546 /\ sw3 >= 0 /\ dw3 >= 0 /\ sw4 < 268435546 /\ dw4 < 268435546 /\ sw4 >= 0 /\ dw4 >= 0 /\ sw5 < 268435546 /\ dw5 < 268435546 /\ sw5 >= 0 /\ dw5 >= 0 /\ sw6 < 268435546 /\ dw6 < 268435546 /\ sw6 >= 0 /\ dw6 >= 0 /\ sw7 < 268435546 /\ dw7 < 268435546 /\ sw7 >= 0 /\ dw7 >= 0 /\ sw8 < 268435546 /\ dw8 < 268435546 /\ sw8 >= 0 /\ dw8 >= 0 /\ sw9 < 268435546 /\ dw9 < 268435546 /\ sw9 >= 0 /\ dw9 >= 0 /\ sw10 < 268435546 /\ dw10 < 268435546 /\ sw10 >= 0 /\ dw10 >= 0 /\ sw11 < 268435546 /\ dw11 < 268435546 /\ sw11 >= 0 /\ dw11 >= 0 /\ sw12 < 268435546 /\ dw12 < 268435546 /\ sw12 >= 0 /\ dw12 >= 0 /\ sw13 < 268435546 /\ dw13 < 268435546 /\ sw13 >= 0 /\ dw13 >= 0 /\ sw14 < 268435546 /\ dw14 < 268435546 /\ sw14 >= 0 /\ dw14 >= 0 /\ sw15 < 268435546 /\ dw15 < 268435546 /\ sw15 >= 0 /\ dw15 >= 0
Asserts == tc15 \in {-1, 0} /\ uc15 + tc15 = 0
Strong == 0 <= U /\ U < 726838724295606890549323807888004534353641360687318060281490199180612328166730772686396383698676545930088884461843637361053498018365439 /\ (U = A \/ U = A - 726838724295606890549323807888004534353641360687318060281490199180612328166730772686396383698676545930088884461843637361053498018365439 \/ U = A - 1453677448591213781098647615776009068707282721374636120562980398361224656333461545372792767397353091860177768923687274722106996036730878)
\* to be refuted: that there are no operands
Empty == FALSE
====
