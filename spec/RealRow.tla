---- MODULE RealRow ----
(* field/scalar.rs: one row of montgomery_multiply, as a step: v is what there is so far, with v < y + l, and p_j = x_i y_j.
   By Exact and Bound, fourteen rows from 0 give v 2^448 = x y + k l with v < y + l, and by Final the result is v modulo l if y < l
   Written by driver/real.py. *)
EXTENDS Integers
VARIABLES
  \* @type: Int;
  v0,
  \* @type: Int;
  v1,
  \* @type: Int;
  v2,
  \* @type: Int;
  v3,
  \* @type: Int;
  v4,
  \* @type: Int;
  v5,
  \* @type: Int;
  v6,
  \* @type: Int;
  v7,
  \* @type: Int;
  v8,
  \* @type: Int;
  v9,
  \* @type: Int;
  v10,
  \* @type: Int;
  v11,
  \* @type: Int;
  v12,
  \* @type: Int;
  v13,
  \* @type: Int;
  g,
  \* @type: Int;
  y,
  \* @type: Int;
  p0,
  \* @type: Int;
  p1,
  \* @type: Int;
  p2,
  \* @type: Int;
  p3,
  \* @type: Int;
  p4,
  \* @type: Int;
  p5,
  \* @type: Int;
  p6,
  \* @type: Int;
  p7,
  \* @type: Int;
  p8,
  \* @type: Int;
  p9,
  \* @type: Int;
  p10,
  \* @type: Int;
  p11,
  \* @type: Int;
  p12,
  \* @type: Int;
  p13,
  \* @type: Int;
  V,
  \* @type: Int;
  XY,
  \* @type: Int;
  ut0,
  \* @type: Int;
  ur0,
  \* @type: Int;
  uc0,
  \* @type: Int;
  ut1,
  \* @type: Int;
  ur1,
  \* @type: Int;
  uc1,
  \* @type: Int;
  ut2,
  \* @type: Int;
  ur2,
  \* @type: Int;
  uc2,
  \* @type: Int;
  ut3,
  \* @type: Int;
  ur3,
  \* @type: Int;
  uc3,
  \* @type: Int;
  ut4,
  \* @type: Int;
  ur4,
  \* @type: Int;
  uc4,
  \* @type: Int;
  ut5,
  \* @type: Int;
  ur5,
  \* @type: Int;
  uc5,
  \* @type: Int;
  ut6,
  \* @type: Int;
  ur6,
  \* @type: Int;
  uc6,
  \* @type: Int;
  ut7,
  \* @type: Int;
  ur7,
  \* @type: Int;
  uc7,
  \* @type: Int;
  ut8,
  \* @type: Int;
  ur8,
  \* @type: Int;
  uc8,
  \* @type: Int;
  ut9,
  \* @type: Int;
  ur9,
  \* @type: Int;
  uc9,
  \* @type: Int;
  ut10,
  \* @type: Int;
  ur10,
  \* @type: Int;
  uc10,
  \* @type: Int;
  ut11,
  \* @type: Int;
  ur11,
  \* @type: Int;
  uc11,
  \* @type: Int;
  ut12,
  \* @type: Int;
  ur12,
  \* @type: Int;
  uc12,
  \* @type: Int;
  ut13,
  \* @type: Int;
  ur13,
  \* @type: Int;
  uc13,
  \* @type: Int;
  k,
  \* @type: Int;
  wt0,
  \* @type: Int;
  wr0,
  \* @type: Int;
  wc0,
  \* @type: Int;
  wt1,
  \* @type: Int;
  wr1,
  \* @type: Int;
  wc1,
  \* @type: Int;
  wt2,
  \* @type: Int;
  wr2,
  \* @type: Int;
  wc2,
  \* @type: Int;
  wt3,
  \* @type: Int;
  wr3,
  \* @type: Int;
  wc3,
  \* @type: Int;
  wt4,
  \* @type: Int;
  wr4,
  \* @type: Int;
  wc4,
  \* @type: Int;
  wt5,
  \* @type: Int;
  wr5,
  \* @type: Int;
  wc5,
  \* @type: Int;
  wt6,
  \* @type: Int;
  wr6,
  \* @type: Int;
  wc6,
  \* @type: Int;
  wt7,
  \* @type: Int;
  wr7,
  \* @type: Int;
  wc7,
  \* @type: Int;
  wt8,
  \* @type: Int;
  wr8,
  \* @type: Int;
  wc8,
  \* @type: Int;
  wt9,
  \* @type: Int;
  wr9,
  \* @type: Int;
  wc9,
  \* @type: Int;
  wt10,
  \* @type: Int;
  wr10,
  \* @type: Int;
  wc10,
  \* @type: Int;
  wt11,
  \* @type: Int;
  wr11,
  \* @type: Int;
  wc11,
  \* @type: Int;
  wt12,
  \* @type: Int;
  wr12,
  \* @type: Int;
  wc12,
  \* @type: Int;
  wt13,
  \* @type: Int;
  wr13,
  \* @type: Int;
  wc13,
  \* @type: Int;
  top,
  \* @type: Int;
  n,
  \* @type: Int;
  h,
  \* @type: Int;
  W,
  \* @type: Int;
  xdt0,
  \* @type: Int;
  xdr0,
  \* @type: Int;
  xdc0,
  \* @type: Int;
  xdt1,
  \* @type: Int;
  xdr1,
  \* @type: Int;
  xdc1,
  \* @type: Int;
  xdt2,
  \* @type: Int;
  xdr2,
  \* @type: Int;
  xdc2,
  \* @type: Int;
  xdt3,
  \* @type: Int;
  xdr3,
  \* @type: Int;
  xdc3,
  \* @type: Int;
  xdt4,
  \* @type: Int;
  xdr4,
  \* @type: Int;
  xdc4,
  \* @type: Int;
  xdt5,
  \* @type: Int;
  xdr5,
  \* @type: Int;
  xdc5,
  \* @type: Int;
  xdt6,
  \* @type: Int;
  xdr6,
  \* @type: Int;
  xdc6,
  \* @type: Int;
  xdt7,
  \* @type: Int;
  xdr7,
  \* @type: Int;
  xdc7,
  \* @type: Int;
  xdt8,
  \* @type: Int;
  xdr8,
  \* @type: Int;
  xdc8,
  \* @type: Int;
  xdt9,
  \* @type: Int;
  xdr9,
  \* @type: Int;
  xdc9,
  \* @type: Int;
  xdt10,
  \* @type: Int;
  xdr10,
  \* @type: Int;
  xdc10,
  \* @type: Int;
  xdt11,
  \* @type: Int;
  xdr11,
  \* @type: Int;
  xdc11,
  \* @type: Int;
  xdt12,
  \* @type: Int;
  xdr12,
  \* @type: Int;
  xdc12,
  \* @type: Int;
  xdt13,
  \* @type: Int;
  xdr13,
  \* @type: Int;
  xdc13,
  \* @type: Int;
  xborrow,
  \* @type: Int;
  xet0,
  \* @type: Int;
  xer0,
  \* @type: Int;
  xec0,
  \* @type: Int;
  xet1,
  \* @type: Int;
  xer1,
  \* @type: Int;
  xec1,
  \* @type: Int;
  xet2,
  \* @type: Int;
  xer2,
  \* @type: Int;
  xec2,
  \* @type: Int;
  xet3,
  \* @type: Int;
  xer3,
  \* @type: Int;
  xec3,
  \* @type: Int;
  xet4,
  \* @type: Int;
  xer4,
  \* @type: Int;
  xec4,
  \* @type: Int;
  xet5,
  \* @type: Int;
  xer5,
  \* @type: Int;
  xec5,
  \* @type: Int;
  xet6,
  \* @type: Int;
  xer6,
  \* @type: Int;
  xec6,
  \* @type: Int;
  xet7,
  \* @type: Int;
  xer7,
  \* @type: Int;
  xec7,
  \* @type: Int;
  xet8,
  \* @type: Int;
  xer8,
  \* @type: Int;
  xec8,
  \* @type: Int;
  xet9,
  \* @type: Int;
  xer9,
  \* @type: Int;
  xec9,
  \* @type: Int;
  xet10,
  \* @type: Int;
  xer10,
  \* @type: Int;
  xec10,
  \* @type: Int;
  xet11,
  \* @type: Int;
  xer11,
  \* @type: Int;
  xec11,
  \* @type: Int;
  xet12,
  \* @type: Int;
  xer12,
  \* @type: Int;
  xec12,
  \* @type: Int;
  xet13,
  \* @type: Int;
  xer13,
  \* @type: Int;
  xec13,
  \* @type: Int;
  R
Init ==
  /\ v0 \in Int /\ 0 <= v0 /\ v0 < 4294967296
  /\ v1 \in Int /\ 0 <= v1 /\ v1 < 4294967296
  /\ v2 \in Int /\ 0 <= v2 /\ v2 < 4294967296
  /\ v3 \in Int /\ 0 <= v3 /\ v3 < 4294967296
  /\ v4 \in Int /\ 0 <= v4 /\ v4 < 4294967296
  /\ v5 \in Int /\ 0 <= v5 /\ v5 < 4294967296
  /\ v6 \in Int /\ 0 <= v6 /\ v6 < 4294967296
  /\ v7 \in Int /\ 0 <= v7 /\ v7 < 4294967296
  /\ v8 \in Int /\ 0 <= v8 /\ v8 < 4294967296
  /\ v9 \in Int /\ 0 <= v9 /\ v9 < 4294967296
  /\ v10 \in Int /\ 0 <= v10 /\ v10 < 4294967296
  /\ v11 \in Int /\ 0 <= v11 /\ v11 < 4294967296
  /\ v12 \in Int /\ 0 <= v12 /\ v12 < 4294967296
  /\ v13 \in Int /\ 0 <= v13 /\ v13 < 4294967296
  /\ g \in Int /\ 0 <= g /\ g < 2
  /\ y \in Int /\ 0 <= y /\ y < 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656
  /\ p0 \in Int /\ 0 <= p0 /\ p0 < 18446744065119617026
  /\ p1 \in Int /\ 0 <= p1 /\ p1 < 18446744065119617026
  /\ p2 \in Int /\ 0 <= p2 /\ p2 < 18446744065119617026
  /\ p3 \in Int /\ 0 <= p3 /\ p3 < 18446744065119617026
  /\ p4 \in Int /\ 0 <= p4 /\ p4 < 18446744065119617026
  /\ p5 \in Int /\ 0 <= p5 /\ p5 < 18446744065119617026
  /\ p6 \in Int /\ 0 <= p6 /\ p6 < 18446744065119617026
  /\ p7 \in Int /\ 0 <= p7 /\ p7 < 18446744065119617026
  /\ p8 \in Int /\ 0 <= p8 /\ p8 < 18446744065119617026
  /\ p9 \in Int /\ 0 <= p9 /\ p9 < 18446744065119617026
  /\ p10 \in Int /\ 0 <= p10 /\ p10 < 18446744065119617026
  /\ p11 \in Int /\ 0 <= p11 /\ p11 < 18446744065119617026
  /\ p12 \in Int /\ 0 <= p12 /\ p12 < 18446744065119617026
  /\ p13 \in Int /\ 0 <= p13 /\ p13 < 18446744065119617026
  /\ V = v0 * 1 + v1 * 4294967296 + v2 * 18446744073709551616 + v3 * 79228162514264337593543950336 + v4 * 340282366920938463463374607431768211456 + v5 * 1461501637330902918203684832716283019655932542976 + v6 * 6277101735386680763835789423207666416102355444464034512896 + v7 * 26959946667150639794667015087019630673637144422540572481103610249216 + v8 * 115792089237316195423570985008687907853269984665640564039457584007913129639936 + v9 * 497323236409786642155382248146820840100456150797347717440463976893159497012533375533056 + v10 * 2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576 + v11 * 9173994463960286046443283581208347763186259956673124494950355357547691504353939232280074212440502746218496 + v12 * 39402006196394479212279040100143613805079739270465446667948293404245721771497210611414266254884915640806627990306816 + v13 * 169230328010303641331690318856389386196071598838855992136870091590247882556495704531248437872567112920983350278405979725889536 + g * 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656
  /\ XY = p0 * 1 + p1 * 4294967296 + p2 * 18446744073709551616 + p3 * 79228162514264337593543950336 + p4 * 340282366920938463463374607431768211456 + p5 * 1461501637330902918203684832716283019655932542976 + p6 * 6277101735386680763835789423207666416102355444464034512896 + p7 * 26959946667150639794667015087019630673637144422540572481103610249216 + p8 * 115792089237316195423570985008687907853269984665640564039457584007913129639936 + p9 * 497323236409786642155382248146820840100456150797347717440463976893159497012533375533056 + p10 * 2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576 + p11 * 9173994463960286046443283581208347763186259956673124494950355357547691504353939232280074212440502746218496 + p12 * 39402006196394479212279040100143613805079739270465446667948293404245721771497210611414266254884915640806627990306816 + p13 * 169230328010303641331690318856389386196071598838855992136870091590247882556495704531248437872567112920983350278405979725889536
  /\ V < y + 181709681073901722637330951972001133588410340171829515070372549795146003961539585716195755291692375963310293709091662304773755859649779
  /\ XY <= 4294967295 * y
  /\ ut0 = p0 + v0
  /\ ur0 = ut0 % 4294967296
  /\ uc0 = ut0 \div 4294967296
  /\ ut1 = uc0 + p1 + v1
  /\ ur1 = ut1 % 4294967296
  /\ uc1 = ut1 \div 4294967296
  /\ ut2 = uc1 + p2 + v2
  /\ ur2 = ut2 % 4294967296
  /\ uc2 = ut2 \div 4294967296
  /\ ut3 = uc2 + p3 + v3
  /\ ur3 = ut3 % 4294967296
  /\ uc3 = ut3 \div 4294967296
  /\ ut4 = uc3 + p4 + v4
  /\ ur4 = ut4 % 4294967296
  /\ uc4 = ut4 \div 4294967296
  /\ ut5 = uc4 + p5 + v5
  /\ ur5 = ut5 % 4294967296
  /\ uc5 = ut5 \div 4294967296
  /\ ut6 = uc5 + p6 + v6
  /\ ur6 = ut6 % 4294967296
  /\ uc6 = ut6 \div 4294967296
  /\ ut7 = uc6 + p7 + v7
  /\ ur7 = ut7 % 4294967296
  /\ uc7 = ut7 \div 4294967296
  /\ ut8 = uc7 + p8 + v8
  /\ ur8 = ut8 % 4294967296
  /\ uc8 = ut8 \div 4294967296
  /\ ut9 = uc8 + p9 + v9
  /\ ur9 = ut9 % 4294967296
  /\ uc9 = ut9 \div 4294967296
  /\ ut10 = uc9 + p10 + v10
  /\ ur10 = ut10 % 4294967296
  /\ uc10 = ut10 \div 4294967296
  /\ ut11 = uc10 + p11 + v11
  /\ ur11 = ut11 % 4294967296
  /\ uc11 = ut11 \div 4294967296
  /\ ut12 = uc11 + p12 + v12
  /\ ur12 = ut12 % 4294967296
  /\ uc12 = ut12 \div 4294967296
  /\ ut13 = uc12 + p13 + v13
  /\ ur13 = ut13 % 4294967296
  /\ uc13 = ut13 \div 4294967296
  /\ k = (ur0 * 2928774085) % 4294967296
  /\ wt0 = k * 2874688755 + ur0
  /\ wr0 = wt0 % 4294967296
  /\ wc0 = wt0 \div 4294967296
  /\ wt1 = wc0 + k * 595116690 + ur1
  /\ wr1 = wt1 % 4294967296
  /\ wc1 = wt1 \div 4294967296
  /\ wt2 = wc1 + k * 2378534741 + ur2
  /\ wr2 = wt2 % 4294967296
  /\ wc2 = wt2 \div 4294967296
  /\ wt3 = wc2 + k * 560775794 + ur3
  /\ wr3 = wt3 % 4294967296
  /\ wc3 = wt3 \div 4294967296
  /\ wt4 = wc3 + k * 2933274256 + ur4
  /\ wr4 = wt4 % 4294967296
  /\ wc4 = wt4 \div 4294967296
  /\ wt5 = wc4 + k * 3293502281 + ur5
  /\ wr5 = wt5 % 4294967296
  /\ wc5 = wt5 \div 4294967296
  /\ wt6 = wc5 + k * 2093622249 + ur6
  /\ wr6 = wt6 % 4294967296
  /\ wc6 = wt6 \div 4294967296
  /\ wt7 = wc6 + k * 4294967295 + ur7
  /\ wr7 = wt7 % 4294967296
  /\ wc7 = wt7 \div 4294967296
  /\ wt8 = wc7 + k * 4294967295 + ur8
  /\ wr8 = wt8 % 4294967296
  /\ wc8 = wt8 \div 4294967296
  /\ wt9 = wc8 + k * 4294967295 + ur9
  /\ wr9 = wt9 % 4294967296
  /\ wc9 = wt9 \div 4294967296
  /\ wt10 = wc9 + k * 4294967295 + ur10
  /\ wr10 = wt10 % 4294967296
  /\ wc10 = wt10 \div 4294967296
  /\ wt11 = wc10 + k * 4294967295 + ur11
  /\ wr11 = wt11 % 4294967296
  /\ wc11 = wt11 \div 4294967296
  /\ wt12 = wc11 + k * 4294967295 + ur12
  /\ wr12 = wt12 % 4294967296
  /\ wc12 = wt12 \div 4294967296
  /\ wt13 = wc12 + k * 1073741823 + ur13
  /\ wr13 = wt13 % 4294967296
  /\ wc13 = wt13 \div 4294967296
  /\ top = wc13 + uc13 + g
  /\ n = top % 4294967296
  /\ h = top \div 4294967296
  /\ W = wr1 * 1 + wr2 * 4294967296 + wr3 * 18446744073709551616 + wr4 * 79228162514264337593543950336 + wr5 * 340282366920938463463374607431768211456 + wr6 * 1461501637330902918203684832716283019655932542976 + wr7 * 6277101735386680763835789423207666416102355444464034512896 + wr8 * 26959946667150639794667015087019630673637144422540572481103610249216 + wr9 * 115792089237316195423570985008687907853269984665640564039457584007913129639936 + wr10 * 497323236409786642155382248146820840100456150797347717440463976893159497012533375533056 + wr11 * 2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576 + wr12 * 9173994463960286046443283581208347763186259956673124494950355357547691504353939232280074212440502746218496 + wr13 * 39402006196394479212279040100143613805079739270465446667948293404245721771497210611414266254884915640806627990306816 + n * 169230328010303641331690318856389386196071598838855992136870091590247882556495704531248437872567112920983350278405979725889536 + h * 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656
  /\ xdt0 = v0 - 2874688755
  /\ xdr0 = xdt0 % 4294967296
  /\ xdc0 = xdt0 \div 4294967296
  /\ xdt1 = xdc0 + v1 - 595116690
  /\ xdr1 = xdt1 % 4294967296
  /\ xdc1 = xdt1 \div 4294967296
  /\ xdt2 = xdc1 + v2 - 2378534741
  /\ xdr2 = xdt2 % 4294967296
  /\ xdc2 = xdt2 \div 4294967296
  /\ xdt3 = xdc2 + v3 - 560775794
  /\ xdr3 = xdt3 % 4294967296
  /\ xdc3 = xdt3 \div 4294967296
  /\ xdt4 = xdc3 + v4 - 2933274256
  /\ xdr4 = xdt4 % 4294967296
  /\ xdc4 = xdt4 \div 4294967296
  /\ xdt5 = xdc4 + v5 - 3293502281
  /\ xdr5 = xdt5 % 4294967296
  /\ xdc5 = xdt5 \div 4294967296
  /\ xdt6 = xdc5 + v6 - 2093622249
  /\ xdr6 = xdt6 % 4294967296
  /\ xdc6 = xdt6 \div 4294967296
  /\ xdt7 = xdc6 + v7 - 4294967295
  /\ xdr7 = xdt7 % 4294967296
  /\ xdc7 = xdt7 \div 4294967296
  /\ xdt8 = xdc7 + v8 - 4294967295
  /\ xdr8 = xdt8 % 4294967296
  /\ xdc8 = xdt8 \div 4294967296
  /\ xdt9 = xdc8 + v9 - 4294967295
  /\ xdr9 = xdt9 % 4294967296
  /\ xdc9 = xdt9 \div 4294967296
  /\ xdt10 = xdc9 + v10 - 4294967295
  /\ xdr10 = xdt10 % 4294967296
  /\ xdc10 = xdt10 \div 4294967296
  /\ xdt11 = xdc10 + v11 - 4294967295
  /\ xdr11 = xdt11 % 4294967296
  /\ xdc11 = xdt11 \div 4294967296
  /\ xdt12 = xdc11 + v12 - 4294967295
  /\ xdr12 = xdt12 % 4294967296
  /\ xdc12 = xdt12 \div 4294967296
  /\ xdt13 = xdc12 + v13 - 1073741823
  /\ xdr13 = xdt13 % 4294967296
  /\ xdc13 = xdt13 \div 4294967296
  /\ xborrow = xdc13 + g
  /\ xet0 = xdr0 + (IF xborrow = -1 THEN 2874688755 ELSE 0)
  /\ xer0 = xet0 % 4294967296
  /\ xec0 = xet0 \div 4294967296
  /\ xet1 = xec0 + xdr1 + (IF xborrow = -1 THEN 595116690 ELSE 0)
  /\ xer1 = xet1 % 4294967296
  /\ xec1 = xet1 \div 4294967296
  /\ xet2 = xec1 + xdr2 + (IF xborrow = -1 THEN 2378534741 ELSE 0)
  /\ xer2 = xet2 % 4294967296
  /\ xec2 = xet2 \div 4294967296
  /\ xet3 = xec2 + xdr3 + (IF xborrow = -1 THEN 560775794 ELSE 0)
  /\ xer3 = xet3 % 4294967296
  /\ xec3 = xet3 \div 4294967296
  /\ xet4 = xec3 + xdr4 + (IF xborrow = -1 THEN 2933274256 ELSE 0)
  /\ xer4 = xet4 % 4294967296
  /\ xec4 = xet4 \div 4294967296
  /\ xet5 = xec4 + xdr5 + (IF xborrow = -1 THEN 3293502281 ELSE 0)
  /\ xer5 = xet5 % 4294967296
  /\ xec5 = xet5 \div 4294967296
  /\ xet6 = xec5 + xdr6 + (IF xborrow = -1 THEN 2093622249 ELSE 0)
  /\ xer6 = xet6 % 4294967296
  /\ xec6 = xet6 \div 4294967296
  /\ xet7 = xec6 + xdr7 + (IF xborrow = -1 THEN 4294967295 ELSE 0)
  /\ xer7 = xet7 % 4294967296
  /\ xec7 = xet7 \div 4294967296
  /\ xet8 = xec7 + xdr8 + (IF xborrow = -1 THEN 4294967295 ELSE 0)
  /\ xer8 = xet8 % 4294967296
  /\ xec8 = xet8 \div 4294967296
  /\ xet9 = xec8 + xdr9 + (IF xborrow = -1 THEN 4294967295 ELSE 0)
  /\ xer9 = xet9 % 4294967296
  /\ xec9 = xet9 \div 4294967296
  /\ xet10 = xec9 + xdr10 + (IF xborrow = -1 THEN 4294967295 ELSE 0)
  /\ xer10 = xet10 % 4294967296
  /\ xec10 = xet10 \div 4294967296
  /\ xet11 = xec10 + xdr11 + (IF xborrow = -1 THEN 4294967295 ELSE 0)
  /\ xer11 = xet11 % 4294967296
  /\ xec11 = xet11 \div 4294967296
  /\ xet12 = xec11 + xdr12 + (IF xborrow = -1 THEN 4294967295 ELSE 0)
  /\ xer12 = xet12 % 4294967296
  /\ xec12 = xet12 \div 4294967296
  /\ xet13 = xec12 + xdr13 + (IF xborrow = -1 THEN 1073741823 ELSE 0)
  /\ xer13 = xet13 % 4294967296
  /\ xec13 = xet13 \div 4294967296
  /\ R = xer0 * 1 + xer1 * 4294967296 + xer2 * 18446744073709551616 + xer3 * 79228162514264337593543950336 + xer4 * 340282366920938463463374607431768211456 + xer5 * 1461501637330902918203684832716283019655932542976 + xer6 * 6277101735386680763835789423207666416102355444464034512896 + xer7 * 26959946667150639794667015087019630673637144422540572481103610249216 + xer8 * 115792089237316195423570985008687907853269984665640564039457584007913129639936 + xer9 * 497323236409786642155382248146820840100456150797347717440463976893159497012533375533056 + xer10 * 2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576 + xer11 * 9173994463960286046443283581208347763186259956673124494950355357547691504353939232280074212440502746218496 + xer12 * 39402006196394479212279040100143613805079739270465446667948293404245721771497210611414266254884915640806627990306816 + xer13 * 169230328010303641331690318856389386196071598838855992136870091590247882556495704531248437872567112920983350278405979725889536
Next == UNCHANGED <<v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, g, y, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11, p12, p13, V, XY, ut0, ur0, uc0, ut1, ur1, uc1, ut2, ur2, uc2, ut3, ur3, uc3, ut4, ur4, uc4, ut5, ur5, uc5, ut6, ur6, uc6, ut7, ur7, uc7, ut8, ur8, uc8, ut9, ur9, uc9, ut10, ur10, uc10, ut11, ur11, uc11, ut12, ur12, uc12, ut13, ur13, uc13, k, wt0, wr0, wc0, wt1, wr1, wc1, wt2, wr2, wc2, wt3, wr3, wc3, wt4, wr4, wc4, wt5, wr5, wc5, wt6, wr6, wc6, wt7, wr7, wc7, wt8, wr8, wc8, wt9, wr9, wc9, wt10, wr10, wc10, wt11, wr11, wc11, wt12, wr12, wc12, wt13, wr13, wc13, top, n, h, W, xdt0, xdr0, xdc0, xdt1, xdr1, xdc1, xdt2, xdr2, xdc2, xdt3, xdr3, xdc3, xdt4, xdr4, xdc4, xdt5, xdr5, xdc5, xdt6, xdr6, xdc6, xdt7, xdr7, xdc7, xdt8, xdr8, xdc8, xdt9, xdr9, xdc9, xdt10, xdr10, xdc10, xdt11, xdr11, xdc11, xdt12, xdr12, xdc12, xdt13, xdr13, xdc13, xborrow, xet0, xer0, xec0, xet1, xer1, xec1, xet2, xer2, xec2, xet3, xer3, xec3, xet4, xer4, xec4, xet5, xer5, xec5, xet6, xer6, xec6, xet7, xer7, xec7, xet8, xer8, xec8, xet9, xer9, xec9, xet10, xer10, xec10, xet11, xer11, xec11, xet12, xer12, xec12, xet13, xer13, xec13, R>>
Exact == W * 4294967296 = V + XY + k * 181709681073901722637330951972001133588410340171829515070372549795146003961539585716195755291692375963310293709091662304773755859649779
Bound == W < y + 181709681073901722637330951972001133588410340171829515070372549795146003961539585716195755291692375963310293709091662304773755859649779 /\ h \in {0, 1}
Wide == ut0 < 18446744073709551616 /\ wt0 < 18446744073709551616 /\ ut1 < 18446744073709551616 /\ wt1 < 18446744073709551616 /\ ut2 < 18446744073709551616 /\ wt2 < 18446744073709551616 /\ ut3 < 18446744073709551616 /\ wt3 < 18446744073709551616 /\ ut4 < 18446744073709551616 /\ wt4 < 18446744073709551616 /\ ut5 < 18446744073709551616 /\ wt5 < 18446744073709551616 /\ ut6 < 18446744073709551616 /\ wt6 < 18446744073709551616 /\ ut7 < 18446744073709551616 /\ wt7 < 18446744073709551616 /\ ut8 < 18446744073709551616 /\ wt8 < 18446744073709551616 /\ ut9 < 18446744073709551616 /\ wt9 < 18446744073709551616 /\ ut10 < 18446744073709551616 /\ wt10 < 18446744073709551616 /\ ut11 < 18446744073709551616 /\ wt11 < 18446744073709551616 /\ ut12 < 18446744073709551616 /\ wt12 < 18446744073709551616 /\ ut13 < 18446744073709551616 /\ wt13 < 18446744073709551616 /\ uc13 < 4294967296
BorrowOk == xborrow \in {-1, 0}
Final == (R = V \/ R = V - 181709681073901722637330951972001133588410340171829515070372549795146003961539585716195755291692375963310293709091662304773755859649779) /\ ((y <= 181709681073901722637330951972001133588410340171829515070372549795146003961539585716195755291692375963310293709091662304773755859649779) => (R < 181709681073901722637330951972001133588410340171829515070372549795146003961539585716195755291692375963310293709091662304773755859649779))
\* to be refuted: that there are no operands
Empty == FALSE
====
