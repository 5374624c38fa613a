---- MODULE RealAdd ----
(* field/scalar.rs: add, on reduced operands
   Written by driver/real.py. *)
EXTENDS Integers
VARIABLES
  \* @type: Int;
  a0,
  \* @type: Int;
  a1,
  \* @type: Int;
  a2,
  \* @type: Int;
  a3,
  \* @type: Int;
  a4,
  \* @type: Int;
  a5,
  \* @type: Int;
  a6,
  \* @type: Int;
  a7,
  \* @type: Int;
  a8,
  \* @type: Int;
  a9,
  \* @type: Int;
  a10,
  \* @type: Int;
  a11,
  \* @type: Int;
  a12,
  \* @type: Int;
  a13,
  \* @type: Int;
  b0,
  \* @type: Int;
  b1,
  \* @type: Int;
  b2,
  \* @type: Int;
  b3,
  \* @type: Int;
  b4,
  \* @type: Int;
  b5,
  \* @type: Int;
  b6,
  \* @type: Int;
  b7,
  \* @type: Int;
  b8,
  \* @type: Int;
  b9,
  \* @type: Int;
  b10,
  \* @type: Int;
  b11,
  \* @type: Int;
  b12,
  \* @type: Int;
  b13,
  \* @type: Int;
  A,
  \* @type: Int;
  B,
  \* @type: Int;
  st0,
  \* @type: Int;
  sr0,
  \* @type: Int;
  sc0,
  \* @type: Int;
  st1,
  \* @type: Int;
  sr1,
  \* @type: Int;
  sc1,
  \* @type: Int;
  st2,
  \* @type: Int;
  sr2,
  \* @type: Int;
  sc2,
  \* @type: Int;
  st3,
  \* @type: Int;
  sr3,
  \* @type: Int;
  sc3,
  \* @type: Int;
  st4,
  \* @type: Int;
  sr4,
  \* @type: Int;
  sc4,
  \* @type: Int;
  st5,
  \* @type: Int;
  sr5,
  \* @type: Int;
  sc5,
  \* @type: Int;
  st6,
  \* @type: Int;
  sr6,
  \* @type: Int;
  sc6,
  \* @type: Int;
  st7,
  \* @type: Int;
  sr7,
  \* @type: Int;
  sc7,
  \* @type: Int;
  st8,
  \* @type: Int;
  sr8,
  \* @type: Int;
  sc8,
  \* @type: Int;
  st9,
  \* @type: Int;
  sr9,
  \* @type: Int;
  sc9,
  \* @type: Int;
  st10,
  \* @type: Int;
  sr10,
  \* @type: Int;
  sc10,
  \* @type: Int;
  st11,
  \* @type: Int;
  sr11,
  \* @type: Int;
  sc11,
  \* @type: Int;
  st12,
  \* @type: Int;
  sr12,
  \* @type: Int;
  sc12,
  \* @type: Int;
  st13,
  \* @type: Int;
  sr13,
  \* @type: Int;
  sc13,
  \* @type: Int;
  xdt0,
  \* @type: Int;
  xdr0,
  \* @type: Int;
  xdc0,
  \* @type: Int;
  xdt1,
  \* @type: Int;
  xdr1,
  \* @type: Int;
  xdc1,
  \* @type: Int;
  xdt2,
  \* @type: Int;
  xdr2,
  \* @type: Int;
  xdc2,
  \* @type: Int;
  xdt3,
  \* @type: Int;
  xdr3,
  \* @type: Int;
  xdc3,
  \* @type: Int;
  xdt4,
  \* @type: Int;
  xdr4,
  \* @type: Int;
  xdc4,
  \* @type: Int;
  xdt5,
  \* @type: Int;
  xdr5,
  \* @type: Int;
  xdc5,
  \* @type: Int;
  xdt6,
  \* @type: Int;
  xdr6,
  \* @type: Int;
  xdc6,
  \* @type: Int;
  xdt7,
  \* @type: Int;
  xdr7,
  \* @type: Int;
  xdc7,
  \* @type: Int;
  xdt8,
  \* @type: Int;
  xdr8,
  \* @type: Int;
  xdc8,
  \* @type: Int;
  xdt9,
  \* @type: Int;
  xdr9,
  \* @type: Int;
  xdc9,
  \* @type: Int;
  xdt10,
  \* @type: Int;
  xdr10,
  \* @type: Int;
  xdc10,
  \* @type: Int;
  xdt11,
  \* @type: Int;
  xdr11,
  \* @type: Int;
  xdc11,
  \* @type: Int;
  xdt12,
  \* @type: Int;
  xdr12,
  \* @type: Int;
  xdc12,
  \* @type: Int;
  xdt13,
  \* @type: Int;
  xdr13,
  \* @type: Int;
  xdc13,
  \* @type: Int;
  xborrow,
  \* @type: Int;
  xet0,
  \* @type: Int;
  xer0,
  \* @type: Int;
  xec0,
  \* @type: Int;
  xet1,
  \* @type: Int;
  xer1,
  \* @type: Int;
  xec1,
  \* @type: Int;
  xet2,
  \* @type: Int;
  xer2,
  \* @type: Int;
  xec2,
  \* @type: Int;
  xet3,
  \* @type: Int;
  xer3,
  \* @type: Int;
  xec3,
  \* @type: Int;
  xet4,
  \* @type: Int;
  xer4,
  \* @type: Int;
  xec4,
  \* @type: Int;
  xet5,
  \* @type: Int;
  xer5,
  \* @type: Int;
  xec5,
  \* @type: Int;
  xet6,
  \* @type: Int;
  xer6,
  \* @type: Int;
  xec6,
  \* @type: Int;
  xet7,
  \* @type: Int;
  xer7,
  \* @type: Int;
  xec7,
  \* @type: Int;
  xet8,
  \* @type: Int;
  xer8,
  \* @type: Int;
  xec8,
  \* @type: Int;
  xet9,
  \* @type: Int;
  xer9,
  \* @type: Int;
  xec9,
  \* @type: Int;
  xet10,
  \* @type: Int;
  xer10,
  \* @type: Int;
  xec10,
  \* @type: Int;
  xet11,
  \* @type: Int;
  xer11,
  \* @type: Int;
  xec11,
  \* @type: Int;
  xet12,
  \* @type: Int;
  xer12,
  \* @type: Int;
  xec12,
  \* @type: Int;
  xet13,
  \* @type: Int;
  xer13,
  \* @type: Int;
  xec13,
  \* @type: Int;
  R
Init ==
  /\ a0 \in Int /\ 0 <= a0 /\ a0 < 4294967296
  /\ a1 \in Int /\ 0 <= a1 /\ a1 < 4294967296
  /\ a2 \in Int /\ 0 <= a2 /\ a2 < 4294967296
  /\ a3 \in Int /\ 0 <= a3 /\ a3 < 4294967296
  /\ a4 \in Int /\ 0 <= a4 /\ a4 < 4294967296
  /\ a5 \in Int /\ 0 <= a5 /\ a5 < 4294967296
  /\ a6 \in Int /\ 0 <= a6 /\ a6 < 4294967296
  /\ a7 \in Int /\ 0 <= a7 /\ a7 < 4294967296
  /\ a8 \in Int /\ 0 <= a8 /\ a8 < 4294967296
  /\ a9 \in Int /\ 0 <= a9 /\ a9 < 4294967296
  /\ a10 \in Int /\ 0 <= a10 /\ a10 < 4294967296
  /\ a11 \in Int /\ 0 <= a11 /\ a11 < 4294967296
  /\ a12 \in Int /\ 0 <= a12 /\ a12 < 4294967296
  /\ a13 \in Int /\ 0 <= a13 /\ a13 < 4294967296
  /\ b0 \in Int /\ 0 <= b0 /\ b0 < 4294967296
  /\ b1 \in Int /\ 0 <= b1 /\ b1 < 4294967296
  /\ b2 \in Int /\ 0 <= b2 /\ b2 < 4294967296
  /\ b3 \in Int /\ 0 <= b3 /\ b3 < 4294967296
  /\ b4 \in Int /\ 0 <= b4 /\ b4 < 4294967296
  /\ b5 \in Int /\ 0 <= b5 /\ b5 < 4294967296
  /\ b6 \in Int /\ 0 <= b6 /\ b6 < 4294967296
  /\ b7 \in Int /\ 0 <= b7 /\ b7 < 4294967296
  /\ b8 \in Int /\ 0 <= b8 /\ b8 < 4294967296
  /\ b9 \in Int /\ 0 <= b9 /\ b9 < 4294967296
  /\ b10 \in Int /\ 0 <= b10 /\ b10 < 4294967296
  /\ b11 \in Int /\ 0 <= b11 /\ b11 < 4294967296
  /\ b12 \in Int /\ 0 <= b12 /\ b12 < 4294967296
  /\ b13 \in Int /\ 0 <= b13 /\ b13 < 4294967296
  /\ A = a0 * 1 + a1 * 4294967296 + a2 * 18446744073709551616 + a3 * 79228162514264337593543950336 + a4 * 340282366920938463463374607431768211456 + a5 * 1461501637330902918203684832716283019655932542976 + a6 * 6277101735386680763835789423207666416102355444464034512896 + a7 * 26959946667150639794667015087019630673637144422540572481103610249216 + a8 * 115792089237316195423570985008687907853269984665640564039457584007913129639936 + a9 * 497323236409786642155382248146820840100456150797347717440463976893159497012533375533056 + a10 * 2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576 + a11 * 9173994463960286046443283581208347763186259956673124494950355357547691504353939232280074212440502746218496 + a12 * 39402006196394479212279040100143613805079739270465446667948293404245721771497210611414266254884915640806627990306816 + a13 * 169230328010303641331690318856389386196071598838855992136870091590247882556495704531248437872567112920983350278405979725889536
  /\ B = b0 * 1 + b1 * 4294967296 + b2 * 18446744073709551616 + b3 * 79228162514264337593543950336 + b4 * 340282366920938463463374607431768211456 + b5 * 1461501637330902918203684832716283019655932542976 + b6 * 6277101735386680763835789423207666416102355444464034512896 + b7 * 26959946667150639794667015087019630673637144422540572481103610249216 + b8 * 115792089237316195423570985008687907853269984665640564039457584007913129639936 + b9 * 497323236409786642155382248146820840100456150797347717440463976893159497012533375533056 + b10 * 2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576 + b11 * 9173994463960286046443283581208347763186259956673124494950355357547691504353939232280074212440502746218496 + b12 * 39402006196394479212279040100143613805079739270465446667948293404245721771497210611414266254884915640806627990306816 + b13 * 169230328010303641331690318856389386196071598838855992136870091590247882556495704531248437872567112920983350278405979725889536
  /\ A < 181709681073901722637330951972001133588410340171829515070372549795146003961539585716195755291692375963310293709091662304773755859649779 /\ B < 181709681073901722637330951972001133588410340171829515070372549795146003961539585716195755291692375963310293709091662304773755859649779
  /\ st0 = a0 + b0
  /\ sr0 = st0 % 4294967296
  /\ sc0 = st0 \div 4294967296
  /\ st1 = sc0 + a1 + b1
  /\ sr1 = st1 % 4294967296
  /\ sc1 = st1 \div 4294967296
  /\ st2 = sc1 + a2 + b2
  /\ sr2 = st2 % 4294967296
  /\ sc2 = st2 \div 4294967296
  /\ st3 = sc2 + a3 + b3
  /\ sr3 = st3 % 4294967296
  /\ sc3 = st3 \div 4294967296
  /\ st4 = sc3 + a4 + b4
  /\ sr4 = st4 % 4294967296
  /\ sc4 = st4 \div 4294967296
  /\ st5 = sc4 + a5 + b5
  /\ sr5 = st5 % 4294967296
  /\ sc5 = st5 \div 4294967296
  /\ st6 = sc5 + a6 + b6
  /\ sr6 = st6 % 4294967296
  /\ sc6 = st6 \div 4294967296
  /\ st7 = sc6 + a7 + b7
  /\ sr7 = st7 % 4294967296
  /\ sc7 = st7 \div 4294967296
  /\ st8 = sc7 + a8 + b8
  /\ sr8 = st8 % 4294967296
  /\ sc8 = st8 \div 4294967296
  /\ st9 = sc8 + a9 + b9
  /\ sr9 = st9 % 4294967296
  /\ sc9 = st9 \div 4294967296
  /\ st10 = sc9 + a10 + b10
  /\ sr10 = st10 % 4294967296
  /\ sc10 = st10 \div 4294967296
  /\ st11 = sc10 + a11 + b11
  /\ sr11 = st11 % 4294967296
  /\ sc11 = st11 \div 4294967296
  /\ st12 = sc11 + a12 + b12
  /\ sr12 = st12 % 4294967296
  /\ sc12 = st12 \div 4294967296
  /\ st13 = sc12 + a13 + b13
  /\ sr13 = st13 % 4294967296
  /\ sc13 = st13 \div 4294967296
  /\ xdt0 = sr0 - 2874688755
  /\ xdr0 = xdt0 % 4294967296
  /\ xdc0 = xdt0 \div 4294967296
  /\ xdt1 = xdc0 + sr1 - 595116690
  /\ xdr1 = xdt1 % 4294967296
  /\ xdc1 = xdt1 \div 4294967296
  /\ xdt2 = xdc1 + sr2 - 2378534741
  /\ xdr2 = xdt2 % 4294967296
  /\ xdc2 = xdt2 \div 4294967296
  /\ xdt3 = xdc2 + sr3 - 560775794
  /\ xdr3 = xdt3 % 4294967296
  /\ xdc3 = xdt3 \div 4294967296
  /\ xdt4 = xdc3 + sr4 - 2933274256
  /\ xdr4 = xdt4 % 4294967296
  /\ xdc4 = xdt4 \div 4294967296
  /\ xdt5 = xdc4 + sr5 - 3293502281
  /\ xdr5 = xdt5 % 4294967296
  /\ xdc5 = xdt5 \div 4294967296
  /\ xdt6 = xdc5 + sr6 - 2093622249
  /\ xdr6 = xdt6 % 4294967296
  /\ xdc6 = xdt6 \div 4294967296
  /\ xdt7 = xdc6 + sr7 - 4294967295
  /\ xdr7 = xdt7 % 4294967296
  /\ xdc7 = xdt7 \div 4294967296
  /\ xdt8 = xdc7 + sr8 - 4294967295
  /\ xdr8 = xdt8 % 4294967296
  /\ xdc8 = xdt8 \div 4294967296
  /\ xdt9 = xdc8 + sr9 - 4294967295
  /\ xdr9 = xdt9 % 4294967296
  /\ xdc9 = xdt9 \div 4294967296
  /\ xdt10 = xdc9 + sr10 - 4294967295
  /\ xdr10 = xdt10 % 4294967296
  /\ xdc10 = xdt10 \div 4294967296
  /\ xdt11 = xdc10 + sr11 - 4294967295
  /\ xdr11 = xdt11 % 4294967296
  /\ xdc11 = xdt11 \div 4294967296
  /\ xdt12 = xdc11 + sr12 - 4294967295
  /\ xdr12 = xdt12 % 4294967296
  /\ xdc12 = xdt12 \div 4294967296
  /\ xdt13 = xdc12 + sr13 - 1073741823
  /\ xdr13 = xdt13 % 4294967296
  /\ xdc13 = xdt13 \div 4294967296
  /\ xborrow = xdc13 + sc13
  /\ xet0 = xdr0 + (IF xborrow = -1 THEN 2874688755 ELSE 0)
  /\ xer0 = xet0 % 4294967296
  /\ xec0 = xet0 \div 4294967296
  /\ xet1 = xec0 + xdr1 + (IF xborrow = -1 THEN 595116690 ELSE 0)
  /\ xer1 = xet1 % 4294967296
  /\ xec1 = xet1 \div 4294967296
  /\ xet2 = xec1 + xdr2 + (IF xborrow = -1 THEN 2378534741 ELSE 0)
  /\ xer2 = xet2 % 4294967296
  /\ xec2 = xet2 \div 4294967296
  /\ xet3 = xec2 + xdr3 + (IF xborrow = -1 THEN 560775794 ELSE 0)
  /\ xer3 = xet3 % 4294967296
  /\ xec3 = xet3 \div 4294967296
  /\ xet4 = xec3 + xdr4 + (IF xborrow = -1 THEN 2933274256 ELSE 0)
  /\ xer4 = xet4 % 4294967296
  /\ xec4 = xet4 \div 4294967296
  /\ xet5 = xec4 + xdr5 + (IF xborrow = -1 THEN 3293502281 ELSE 0)
  /\ xer5 = xet5 % 4294967296
  /\ xec5 = xet5 \div 4294967296
  /\ xet6 = xec5 + xdr6 + (IF xborrow = -1 THEN 2093622249 ELSE 0)
  /\ xer6 = xet6 % 4294967296
  /\ xec6 = xet6 \div 4294967296
  /\ xet7 = xec6 + xdr7 + (IF xborrow = -1 THEN 4294967295 ELSE 0)
  /\ xer7 = xet7 % 4294967296
  /\ xec7 = xet7 \div 4294967296
  /\ xet8 = xec7 + xdr8 + (IF xborrow = -1 THEN 4294967295 ELSE 0)
  /\ xer8 = xet8 % 4294967296
  /\ xec8 = xet8 \div 4294967296
  /\ xet9 = xec8 + xdr9 + (IF xborrow = -1 THEN 4294967295 ELSE 0)
  /\ xer9 = xet9 % 4294967296
  /\ xec9 = xet9 \div 4294967296
  /\ xet10 = xec9 + xdr10 + (IF xborrow = -1 THEN 4294967295 ELSE 0)
  /\ xer10 = xet10 % 4294967296
  /\ xec10 = xet10 \div 4294967296
  /\ xet11 = xec10 + xdr11 + (IF xborrow = -1 THEN 4294967295 ELSE 0)
  /\ xer11 = xet11 % 4294967296
  /\ xec11 = xet11 \div 4294967296
  /\ xet12 = xec11 + xdr12 + (IF xborrow = -1 THEN 4294967295 ELSE 0)
  /\ xer12 = xet12 % 4294967296
  /\ xec12 = xet12 \div 4294967296
  /\ xet13 = xec12 + xdr13 + (IF xborrow = -1 THEN 1073741823 ELSE 0)
  /\ xer13 = xet13 % 4294967296
  /\ xec13 = xet13 \div 4294967296
  /\ R = xer0 * 1 + xer1 * 4294967296 + xer2 * 18446744073709551616 + xer3 * 79228162514264337593543950336 + xer4 * 340282366920938463463374607431768211456 + xer5 * 1461501637330902918203684832716283019655932542976 + xer6 * 6277101735386680763835789423207666416102355444464034512896 + xer7 * 26959946667150639794667015087019630673637144422540572481103610249216 + xer8 * 115792089237316195423570985008687907853269984665640564039457584007913129639936 + xer9 * 497323236409786642155382248146820840100456150797347717440463976893159497012533375533056 + xer10 * 2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576 + xer11 * 9173994463960286046443283581208347763186259956673124494950355357547691504353939232280074212440502746218496 + xer12 * 39402006196394479212279040100143613805079739270465446667948293404245721771497210611414266254884915640806627990306816 + xer13 * 169230328010303641331690318856389386196071598838855992136870091590247882556495704531248437872567112920983350278405979725889536
Next == UNCHANGED <<a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, A, B, st0, sr0, sc0, st1, sr1, sc1, st2, sr2, sc2, st3, sr3, sc3, st4, sr4, sc4, st5, sr5, sc5, st6, sr6, sc6, st7, sr7, sc7, st8, sr8, sc8, st9, sr9, sc9, st10, sr10, sc10, st11, sr11, sc11, st12, sr12, sc12, st13, sr13, sc13, xdt0, xdr0, xdc0, xdt1, xdr1, xdc1, xdt2, xdr2, xdc2, xdt3, xdr3, xdc3, xdt4, xdr4, xdc4, xdt5, xdr5, xdc5, xdt6, xdr6, xdc6, xdt7, xdr7, xdc7, xdt8, xdr8, xdc8, xdt9, xdr9, xdc9, xdt10, xdr10, xdc10, xdt11, xdr11, xdc11, xdt12, xdr12, xdc12, xdt13, xdr13, xdc13, xborrow, xet0, xer0, xec0, xet1, xer1, xec1, xet2, xer2, xec2, xet3, xer3, xec3, xet4, xer4, xec4, xet5, xer5, xec5, xet6, xer6, xec6, xet7, xer7, xec7, xet8, xer8, xec8, xet9, xer9, xec9, xet10, xer10, xec10, xet11, xer11, xec11, xet12, xer12, xec12, xet13, xer13, xec13, R>>
BorrowOk == xborrow \in {-1, 0}
Right == R = (IF A + B < 181709681073901722637330951972001133588410340171829515070372549795146003961539585716195755291692375963310293709091662304773755859649779 THEN A + B ELSE A + B - 181709681073901722637330951972001133588410340171829515070372549795146003961539585716195755291692375963310293709091662304773755859649779)
\* to be refuted: that there are no operands
Empty == FALSE
====
