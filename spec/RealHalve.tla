---- MODULE RealHalve ----
(* field/scalar.rs: halve, div_by_four and the canonical test, on all of 448 bits
   Written by driver/real.py. *)
EXTENDS Integers
VARIABLES
  \* @type: Int;
  a0,
  \* @type: Int;
  a1,
  \* @type: Int;
  a2,
  \* @type: Int;
  a3,
  \* @type: Int;
  a4,
  \* @type: Int;
  a5,
  \* @type: Int;
  a6,
  \* @type: Int;
  a7,
  \* @type: Int;
  a8,
  \* @type: Int;
  a9,
  \* @type: Int;
  a10,
  \* @type: Int;
  a11,
  \* @type: Int;
  a12,
  \* @type: Int;
  a13,
  \* @type: Int;
  A,
  \* @type: Int;
  odd,
  \* @type: Int;
  st0,
  \* @type: Int;
  sr0,
  \* @type: Int;
  sc0,
  \* @type: Int;
  st1,
  \* @type: Int;
  sr1,
  \* @type: Int;
  sc1,
  \* @type: Int;
  st2,
  \* @type: Int;
  sr2,
  \* @type: Int;
  sc2,
  \* @type: Int;
  st3,
  \* @type: Int;
  sr3,
  \* @type: Int;
  sc3,
  \* @type: Int;
  st4,
  \* @type: Int;
  sr4,
  \* @type: Int;
  sc4,
  \* @type: Int;
  st5,
  \* @type: Int;
  sr5,
  \* @type: Int;
  sc5,
  \* @type: Int;
  st6,
  \* @type: Int;
  sr6,
  \* @type: Int;
  sc6,
  \* @type: Int;
  st7,
  \* @type: Int;
  sr7,
  \* @type: Int;
  sc7,
  \* @type: Int;
  st8,
  \* @type: Int;
  sr8,
  \* @type: Int;
  sc8,
  \* @type: Int;
  st9,
  \* @type: Int;
  sr9,
  \* @type: Int;
  sc9,
  \* @type: Int;
  st10,
  \* @type: Int;
  sr10,
  \* @type: Int;
  sc10,
  \* @type: Int;
  st11,
  \* @type: Int;
  sr11,
  \* @type: Int;
  sc11,
  \* @type: Int;
  st12,
  \* @type: Int;
  sr12,
  \* @type: Int;
  sc12,
  \* @type: Int;
  st13,
  \* @type: Int;
  sr13,
  \* @type: Int;
  sc13,
  \* @type: Int;
  h0,
  \* @type: Int;
  h1,
  \* @type: Int;
  h2,
  \* @type: Int;
  h3,
  \* @type: Int;
  h4,
  \* @type: Int;
  h5,
  \* @type: Int;
  h6,
  \* @type: Int;
  h7,
  \* @type: Int;
  h8,
  \* @type: Int;
  h9,
  \* @type: Int;
  h10,
  \* @type: Int;
  h11,
  \* @type: Int;
  h12,
  \* @type: Int;
  h13,
  \* @type: Int;
  R,
  \* @type: Int;
  q0,
  \* @type: Int;
  q1,
  \* @type: Int;
  q2,
  \* @type: Int;
  q3,
  \* @type: Int;
  q4,
  \* @type: Int;
  q5,
  \* @type: Int;
  q6,
  \* @type: Int;
  q7,
  \* @type: Int;
  q8,
  \* @type: Int;
  q9,
  \* @type: Int;
  q10,
  \* @type: Int;
  q11,
  \* @type: Int;
  q12,
  \* @type: Int;
  q13,
  \* @type: Int;
  Q,
  \* @type: Int;
  kdt0,
  \* @type: Int;
  kdr0,
  \* @type: Int;
  kdc0,
  \* @type: Int;
  kdt1,
  \* @type: Int;
  kdr1,
  \* @type: Int;
  kdc1,
  \* @type: Int;
  kdt2,
  \* @type: Int;
  kdr2,
  \* @type: Int;
  kdc2,
  \* @type: Int;
  kdt3,
  \* @type: Int;
  kdr3,
  \* @type: Int;
  kdc3,
  \* @type: Int;
  kdt4,
  \* @type: Int;
  kdr4,
  \* @type: Int;
  kdc4,
  \* @type: Int;
  kdt5,
  \* @type: Int;
  kdr5,
  \* @type: Int;
  kdc5,
  \* @type: Int;
  kdt6,
  \* @type: Int;
  kdr6,
  \* @type: Int;
  kdc6,
  \* @type: Int;
  kdt7,
  \* @type: Int;
  kdr7,
  \* @type: Int;
  kdc7,
  \* @type: Int;
  kdt8,
  \* @type: Int;
  kdr8,
  \* @type: Int;
  kdc8,
  \* @type: Int;
  kdt9,
  \* @type: Int;
  kdr9,
  \* @type: Int;
  kdc9,
  \* @type: Int;
  kdt10,
  \* @type: Int;
  kdr10,
  \* @type: Int;
  kdc10,
  \* @type: Int;
  kdt11,
  \* @type: Int;
  kdr11,
  \* @type: Int;
  kdc11,
  \* @type: Int;
  kdt12,
  \* @type: Int;
  kdr12,
  \* @type: Int;
  kdc12,
  \* @type: Int;
  kdt13,
  \* @type: Int;
  kdr13,
  \* @type: Int;
  kdc13,
  \* @type: Int;
  kborrow,
  \* @type: Int;
  ket0,
  \* @type: Int;
  ker0,
  \* @type: Int;
  kec0,
  \* @type: Int;
  ket1,
  \* @type: Int;
  ker1,
  \* @type: Int;
  kec1,
  \* @type: Int;
  ket2,
  \* @type: Int;
  ker2,
  \* @type: Int;
  kec2,
  \* @type: Int;
  ket3,
  \* @type: Int;
  ker3,
  \* @type: Int;
  kec3,
  \* @type: Int;
  ket4,
  \* @type: Int;
  ker4,
  \* @type: Int;
  kec4,
  \* @type: Int;
  ket5,
  \* @type: Int;
  ker5,
  \* @type: Int;
  kec5,
  \* @type: Int;
  ket6,
  \* @type: Int;
  ker6,
  \* @type: Int;
  kec6,
  \* @type: Int;
  ket7,
  \* @type: Int;
  ker7,
  \* @type: Int;
  kec7,
  \* @type: Int;
  ket8,
  \* @type: Int;
  ker8,
  \* @type: Int;
  kec8,
  \* @type: Int;
  ket9,
  \* @type: Int;
  ker9,
  \* @type: Int;
  kec9,
  \* @type: Int;
  ket10,
  \* @type: Int;
  ker10,
  \* @type: Int;
  kec10,
  \* @type: Int;
  ket11,
  \* @type: Int;
  ker11,
  \* @type: Int;
  kec11,
  \* @type: Int;
  ket12,
  \* @type: Int;
  ker12,
  \* @type: Int;
  kec12,
  \* @type: Int;
  ket13,
  \* @type: Int;
  ker13,
  \* @type: Int;
  kec13
Init ==
  /\ a0 \in Int /\ 0 <= a0 /\ a0 < 4294967296
  /\ a1 \in Int /\ 0 <= a1 /\ a1 < 4294967296
  /\ a2 \in Int /\ 0 <= a2 /\ a2 < 4294967296
  /\ a3 \in Int /\ 0 <= a3 /\ a3 < 4294967296
  /\ a4 \in Int /\ 0 <= a4 /\ a4 < 4294967296
  /\ a5 \in Int /\ 0 <= a5 /\ a5 < 4294967296
  /\ a6 \in Int /\ 0 <= a6 /\ a6 < 4294967296
  /\ a7 \in Int /\ 0 <= a7 /\ a7 < 4294967296
  /\ a8 \in Int /\ 0 <= a8 /\ a8 < 4294967296
  /\ a9 \in Int /\ 0 <= a9 /\ a9 < 4294967296
  /\ a10 \in Int /\ 0 <= a10 /\ a10 < 4294967296
  /\ a11 \in Int /\ 0 <= a11 /\ a11 < 4294967296
  /\ a12 \in Int /\ 0 <= a12 /\ a12 < 4294967296
  /\ a13 \in Int /\ 0 <= a13 /\ a13 < 4294967296
  /\ A = a0 * 1 + a1 * 4294967296 + a2 * 18446744073709551616 + a3 * 79228162514264337593543950336 + a4 * 340282366920938463463374607431768211456 + a5 * 1461501637330902918203684832716283019655932542976 + a6 * 6277101735386680763835789423207666416102355444464034512896 + a7 * 26959946667150639794667015087019630673637144422540572481103610249216 + a8 * 115792089237316195423570985008687907853269984665640564039457584007913129639936 + a9 * 497323236409786642155382248146820840100456150797347717440463976893159497012533375533056 + a10 * 2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576 + a11 * 9173994463960286046443283581208347763186259956673124494950355357547691504353939232280074212440502746218496 + a12 * 39402006196394479212279040100143613805079739270465446667948293404245721771497210611414266254884915640806627990306816 + a13 * 169230328010303641331690318856389386196071598838855992136870091590247882556495704531248437872567112920983350278405979725889536
  /\ odd = a0 % 2
  /\ st0 = a0 + (IF odd = 1 THEN 2874688755 ELSE 0)
  /\ sr0 = st0 % 4294967296
  /\ sc0 = st0 \div 4294967296
  /\ st1 = sc0 + a1 + (IF odd = 1 THEN 595116690 ELSE 0)
  /\ sr1 = st1 % 4294967296
  /\ sc1 = st1 \div 4294967296
  /\ st2 = sc1 + a2 + (IF odd = 1 THEN 2378534741 ELSE 0)
  /\ sr2 = st2 % 4294967296
  /\ sc2 = st2 \div 4294967296
  /\ st3 = sc2 + a3 + (IF odd = 1 THEN 560775794 ELSE 0)
  /\ sr3 = st3 % 4294967296
  /\ sc3 = st3 \div 4294967296
  /\ st4 = sc3 + a4 + (IF odd = 1 THEN 2933274256 ELSE 0)
  /\ sr4 = st4 % 4294967296
  /\ sc4 = st4 \div 4294967296
  /\ st5 = sc4 + a5 + (IF odd = 1 THEN 3293502281 ELSE 0)
  /\ sr5 = st5 % 4294967296
  /\ sc5 = st5 \div 4294967296
  /\ st6 = sc5 + a6 + (IF odd = 1 THEN 2093622249 ELSE 0)
  /\ sr6 = st6 % 4294967296
  /\ sc6 = st6 \div 4294967296
  /\ st7 = sc6 + a7 + (IF odd = 1 THEN 4294967295 ELSE 0)
  /\ sr7 = st7 % 4294967296
  /\ sc7 = st7 \div 4294967296
  /\ st8 = sc7 + a8 + (IF odd = 1 THEN 4294967295 ELSE 0)
  /\ sr8 = st8 % 4294967296
  /\ sc8 = st8 \div 4294967296
  /\ st9 = sc8 + a9 + (IF odd = 1 THEN 4294967295 ELSE 0)
  /\ sr9 = st9 % 4294967296
  /\ sc9 = st9 \div 4294967296
  /\ st10 = sc9 + a10 + (IF odd = 1 THEN 4294967295 ELSE 0)
  /\ sr10 = st10 % 4294967296
  /\ sc10 = st10 \div 4294967296
  /\ st11 = sc10 + a11 + (IF odd = 1 THEN 4294967295 ELSE 0)
  /\ sr11 = st11 % 4294967296
  /\ sc11 = st11 \div 4294967296
  /\ st12 = sc11 + a12 + (IF odd = 1 THEN 4294967295 ELSE 0)
  /\ sr12 = st12 % 4294967296
  /\ sc12 = st12 \div 4294967296
  /\ st13 = sc12 + a13 + (IF odd = 1 THEN 1073741823 ELSE 0)
  /\ sr13 = st13 % 4294967296
  /\ sc13 = st13 \div 4294967296
  /\ h0 = (sr0 \div 2) + (sr1 % 2) * 2147483648
  /\ h1 = (sr1 \div 2) + (sr2 % 2) * 2147483648
  /\ h2 = (sr2 \div 2) + (sr3 % 2) * 2147483648
  /\ h3 = (sr3 \div 2) + (sr4 % 2) * 2147483648
  /\ h4 = (sr4 \div 2) + (sr5 % 2) * 2147483648
  /\ h5 = (sr5 \div 2) + (sr6 % 2) * 2147483648
  /\ h6 = (sr6 \div 2) + (sr7 % 2) * 2147483648
  /\ h7 = (sr7 \div 2) + (sr8 % 2) * 2147483648
  /\ h8 = (sr8 \div 2) + (sr9 % 2) * 2147483648
  /\ h9 = (sr9 \div 2) + (sr10 % 2) * 2147483648
  /\ h10 = (sr10 \div 2) + (sr11 % 2) * 2147483648
  /\ h11 = (sr11 \div 2) + (sr12 % 2) * 2147483648
  /\ h12 = (sr12 \div 2) + (sr13 % 2) * 2147483648
  /\ h13 = (sr13 \div 2) + (sc13 % 2) * 2147483648
  /\ R = h0 * 1 + h1 * 4294967296 + h2 * 18446744073709551616 + h3 * 79228162514264337593543950336 + h4 * 340282366920938463463374607431768211456 + h5 * 1461501637330902918203684832716283019655932542976 + h6 * 6277101735386680763835789423207666416102355444464034512896 + h7 * 26959946667150639794667015087019630673637144422540572481103610249216 + h8 * 115792089237316195423570985008687907853269984665640564039457584007913129639936 + h9 * 497323236409786642155382248146820840100456150797347717440463976893159497012533375533056 + h10 * 2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576 + h11 * 9173994463960286046443283581208347763186259956673124494950355357547691504353939232280074212440502746218496 + h12 * 39402006196394479212279040100143613805079739270465446667948293404245721771497210611414266254884915640806627990306816 + h13 * 169230328010303641331690318856389386196071598838855992136870091590247882556495704531248437872567112920983350278405979725889536
  /\ q0 = (a0 \div 4) + (a1 % 4) * 1073741824
  /\ q1 = (a1 \div 4) + (a2 % 4) * 1073741824
  /\ q2 = (a2 \div 4) + (a3 % 4) * 1073741824
  /\ q3 = (a3 \div 4) + (a4 % 4) * 1073741824
  /\ q4 = (a4 \div 4) + (a5 % 4) * 1073741824
  /\ q5 = (a5 \div 4) + (a6 % 4) * 1073741824
  /\ q6 = (a6 \div 4) + (a7 % 4) * 1073741824
  /\ q7 = (a7 \div 4) + (a8 % 4) * 1073741824
  /\ q8 = (a8 \div 4) + (a9 % 4) * 1073741824
  /\ q9 = (a9 \div 4) + (a10 % 4) * 1073741824
  /\ q10 = (a10 \div 4) + (a11 % 4) * 1073741824
  /\ q11 = (a11 \div 4) + (a12 % 4) * 1073741824
  /\ q12 = (a12 \div 4) + (a13 % 4) * 1073741824
  /\ q13 = (a13 \div 4)
  /\ Q = q0 * 1 + q1 * 4294967296 + q2 * 18446744073709551616 + q3 * 79228162514264337593543950336 + q4 * 340282366920938463463374607431768211456 + q5 * 1461501637330902918203684832716283019655932542976 + q6 * 6277101735386680763835789423207666416102355444464034512896 + q7 * 26959946667150639794667015087019630673637144422540572481103610249216 + q8 * 115792089237316195423570985008687907853269984665640564039457584007913129639936 + q9 * 497323236409786642155382248146820840100456150797347717440463976893159497012533375533056 + q10 * 2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576 + q11 * 9173994463960286046443283581208347763186259956673124494950355357547691504353939232280074212440502746218496 + q12 * 39402006196394479212279040100143613805079739270465446667948293404245721771497210611414266254884915640806627990306816 + q13 * 169230328010303641331690318856389386196071598838855992136870091590247882556495704531248437872567112920983350278405979725889536
  /\ kdt0 = a0 - 2874688755
  /\ kdr0 = kdt0 % 4294967296
  /\ kdc0 = kdt0 \div 4294967296
  /\ kdt1 = kdc0 + a1 - 595116690
  /\ kdr1 = kdt1 % 4294967296
  /\ kdc1 = kdt1 \div 4294967296
  /\ kdt2 = kdc1 + a2 - 2378534741
  /\ kdr2 = kdt2 % 4294967296
  /\ kdc2 = kdt2 \div 4294967296
  /\ kdt3 = kdc2 + a3 - 560775794
  /\ kdr3 = kdt3 % 4294967296
  /\ kdc3 = kdt3 \div 4294967296
  /\ kdt4 = kdc3 + a4 - 2933274256
  /\ kdr4 = kdt4 % 4294967296
  /\ kdc4 = kdt4 \div 4294967296
  /\ kdt5 = kdc4 + a5 - 3293502281
  /\ kdr5 = kdt5 % 4294967296
  /\ kdc5 = kdt5 \div 4294967296
  /\ kdt6 = kdc5 + a6 - 2093622249
  /\ kdr6 = kdt6 % 4294967296
  /\ kdc6 = kdt6 \div 4294967296
  /\ kdt7 = kdc6 + a7 - 4294967295
  /\ kdr7 = kdt7 % 4294967296
  /\ kdc7 = kdt7 \div 4294967296
  /\ kdt8 = kdc7 + a8 - 4294967295
  /\ kdr8 = kdt8 % 4294967296
  /\ kdc8 = kdt8 \div 4294967296
  /\ kdt9 = kdc8 + a9 - 4294967295
  /\ kdr9 = kdt9 % 4294967296
  /\ kdc9 = kdt9 \div 4294967296
  /\ kdt10 = kdc9 + a10 - 4294967295
  /\ kdr10 = kdt10 % 4294967296
  /\ kdc10 = kdt10 \div 4294967296
  /\ kdt11 = kdc10 + a11 - 4294967295
  /\ kdr11 = kdt11 % 4294967296
  /\ kdc11 = kdt11 \div 4294967296
  /\ kdt12 = kdc11 + a12 - 4294967295
  /\ kdr12 = kdt12 % 4294967296
  /\ kdc12 = kdt12 \div 4294967296
  /\ kdt13 = kdc12 + a13 - 1073741823
  /\ kdr13 = kdt13 % 4294967296
  /\ kdc13 = kdt13 \div 4294967296
  /\ kborrow = kdc13 + 0
  /\ ket0 = kdr0 + (IF kborrow = -1 THEN 2874688755 ELSE 0)
  /\ ker0 = ket0 % 4294967296
  /\ kec0 = ket0 \div 4294967296
  /\ ket1 = kec0 + kdr1 + (IF kborrow = -1 THEN 595116690 ELSE 0)
  /\ ker1 = ket1 % 4294967296
  /\ kec1 = ket1 \div 4294967296
  /\ ket2 = kec1 + kdr2 + (IF kborrow = -1 THEN 2378534741 ELSE 0)
  /\ ker2 = ket2 % 4294967296
  /\ kec2 = ket2 \div 4294967296
  /\ ket3 = kec2 + kdr3 + (IF kborrow = -1 THEN 560775794 ELSE 0)
  /\ ker3 = ket3 % 4294967296
  /\ kec3 = ket3 \div 4294967296
  /\ ket4 = kec3 + kdr4 + (IF kborrow = -1 THEN 2933274256 ELSE 0)
  /\ ker4 = ket4 % 4294967296
  /\ kec4 = ket4 \div 4294967296
  /\ ket5 = kec4 + kdr5 + (IF kborrow = -1 THEN 3293502281 ELSE 0)
  /\ ker5 = ket5 % 4294967296
  /\ kec5 = ket5 \div 4294967296
  /\ ket6 = kec5 + kdr6 + (IF kborrow = -1 THEN 2093622249 ELSE 0)
  /\ ker6 = ket6 % 4294967296
  /\ kec6 = ket6 \div 4294967296
  /\ ket7 = kec6 + kdr7 + (IF kborrow = -1 THEN 4294967295 ELSE 0)
  /\ ker7 = ket7 % 4294967296
  /\ kec7 = ket7 \div 4294967296
  /\ ket8 = kec7 + kdr8 + (IF kborrow = -1 THEN 4294967295 ELSE 0)
  /\ ker8 = ket8 % 4294967296
  /\ kec8 = ket8 \div 4294967296
  /\ ket9 = kec8 + kdr9 + (IF kborrow = -1 THEN 4294967295 ELSE 0)
  /\ ker9 = ket9 % 4294967296
  /\ kec9 = ket9 \div 4294967296
  /\ ket10 = kec9 + kdr10 + (IF kborrow = -1 THEN 4294967295 ELSE 0)
  /\ ker10 = ket10 % 4294967296
  /\ kec10 = ket10 \div 4294967296
  /\ ket11 = kec10 + kdr11 + (IF kborrow = -1 THEN 4294967295 ELSE 0)
  /\ ker11 = ket11 % 4294967296
  /\ kec11 = ket11 \div 4294967296
  /\ ket12 = kec11 + kdr12 + (IF kborrow = -1 THEN 4294967295 ELSE 0)
  /\ ker12 = ket12 % 4294967296
  /\ kec12 = ket12 \div 4294967296
  /\ ket13 = kec12 + kdr13 + (IF kborrow = -1 THEN 1073741823 ELSE 0)
  /\ ker13 = ket13 % 4294967296
  /\ kec13 = ket13 \div 4294967296
Next == UNCHANGED <<a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, A, odd, st0, sr0, sc0, st1, sr1, sc1, st2, sr2, sc2, st3, sr3, sc3, st4, sr4, sc4, st5, sr5, sc5, st6, sr6, sc6, st7, sr7, sc7, st8, sr8, sc8, st9, sr9, sc9, st10, sr10, sc10, st11, sr11, sc11, st12, sr12, sc12, st13, sr13, sc13, h0, h1, h2, h3, h4, h5, h6, h7, h8, h9, h10, h11, h12, h13, R, q0, q1, q2, q3, q4, q5, q6, q7, q8, q9, q10, q11, q12, q13, Q, kdt0, kdr0, kdc0, kdt1, kdr1, kdc1, kdt2, kdr2, kdc2, kdt3, kdr3, kdc3, kdt4, kdr4, kdc4, kdt5, kdr5, kdc5, kdt6, kdr6, kdc6, kdt7, kdr7, kdc7, kdt8, kdr8, kdc8, kdt9, kdr9, kdc9, kdt10, kdr10, kdc10, kdt11, kdr11, kdc11, kdt12, kdr12, kdc12, kdt13, kdr13, kdc13, kborrow, ket0, ker0, kec0, ket1, ker1, kec1, ket2, ker2, kec2, ket3, ker3, kec3, ket4, ker4, kec4, ket5, ker5, kec5, ket6, ker6, kec6, ket7, ker7, kec7, ket8, ker8, kec8, ket9, ker9, kec9, ket10, ker10, kec10, ket11, ker11, kec11, ket12, ker12, kec12, ket13, ker13, kec13>>
Halved == 2 * R = A + (IF odd = 1 THEN 181709681073901722637330951972001133588410340171829515070372549795146003961539585716195755291692375963310293709091662304773755859649779 ELSE 0) /\ sc13 \in {0, 1}
Small == (A < 181709681073901722637330951972001133588410340171829515070372549795146003961539585716195755291692375963310293709091662304773755859649779) => (R < 181709681073901722637330951972001133588410340171829515070372549795146003961539585716195755291692375963310293709091662304773755859649779)
Quarter == Q = A \div 4
Canonical == (a13 \div 1073741824 = 0 /\ ker0 = a0 /\ ker1 = a1 /\ ker2 = a2 /\ ker3 = a3 /\ ker4 = a4 /\ ker5 = a5 /\ ker6 = a6 /\ ker7 = a7 /\ ker8 = a8 /\ ker9 = a9 /\ ker10 = a10 /\ ker11 = a11 /\ ker12 = a12 /\ ker13 = a13) <=> A < 181709681073901722637330951972001133588410340171829515070372549795146003961539585716195755291692375963310293709091662304773755859649779
\* to be refuted: that there are no operands
Empty == FALSE
====
