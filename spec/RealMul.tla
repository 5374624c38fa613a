---- MODULE RealMul ----
(* field/u32/karatsuba.rs: the product of any two
   Written by driver/real.py. *)
EXTENDS Integers
VARIABLES
  \* @type: Int;
  p0_0,
  \* @type: Int;
  p0_1,
  \* @type: Int;
  p0_2,
  \* @type: Int;
  p0_3,
  \* @type: Int;
  p0_4,
  \* @type: Int;
  p0_5,
  \* @type: Int;
  p0_6,
  \* @type: Int;
  p0_7,
  \* @type: Int;
  p0_8,
  \* @type: Int;
  p0_9,
  \* @type: Int;
  p0_10,
  \* @type: Int;
  p0_11,
  \* @type: Int;
  p0_12,
  \* @type: Int;
  p0_13,
  \* @type: Int;
  p0_14,
  \* @type: Int;
  p0_15,
  \* @type: Int;
  p1_0,
  \* @type: Int;
  p1_1,
  \* @type: Int;
  p1_2,
  \* @type: Int;
  p1_3,
  \* @type: Int;
  p1_4,
  \* @type: Int;
  p1_5,
  \* @type: Int;
  p1_6,
  \* @type: Int;
  p1_7,
  \* @type: Int;
  p1_8,
  \* @type: Int;
  p1_9,
  \* @type: Int;
  p1_10,
  \* @type: Int;
  p1_11,
  \* @type: Int;
  p1_12,
  \* @type: Int;
  p1_13,
  \* @type: Int;
  p1_14,
  \* @type: Int;
  p1_15,
  \* @type: Int;
  p2_0,
  \* @type: Int;
  p2_1,
  \* @type: Int;
  p2_2,
  \* @type: Int;
  p2_3,
  \* @type: Int;
  p2_4,
  \* @type: Int;
  p2_5,
  \* @type: Int;
  p2_6,
  \* @type: Int;
  p2_7,
  \* @type: Int;
  p2_8,
  \* @type: Int;
  p2_9,
  \* @type: Int;
  p2_10,
  \* @type: Int;
  p2_11,
  \* @type: Int;
  p2_12,
  \* @type: Int;
  p2_13,
  \* @type: Int;
  p2_14,
  \* @type: Int;
  p2_15,
  \* @type: Int;
  p3_0,
  \* @type: Int;
  p3_1,
  \* @type: Int;
  p3_2,
  \* @type: Int;
  p3_3,
  \* @type: Int;
  p3_4,
  \* @type: Int;
  p3_5,
  \* @type: Int;
  p3_6,
  \* @type: Int;
  p3_7,
  \* @type: Int;
  p3_8,
  \* @type: Int;
  p3_9,
  \* @type: Int;
  p3_10,
  \* @type: Int;
  p3_11,
  \* @type: Int;
  p3_12,
  \* @type: Int;
  p3_13,
  \* @type: Int;
  p3_14,
  \* @type: Int;
  p3_15,
  \* @type: Int;
  p4_0,
  \* @type: Int;
  p4_1,
  \* @type: Int;
  p4_2,
  \* @type: Int;
  p4_3,
  \* @type: Int;
  p4_4,
  \* @type: Int;
  p4_5,
  \* @type: Int;
  p4_6,
  \* @type: Int;
  p4_7,
  \* @type: Int;
  p4_8,
  \* @type: Int;
  p4_9,
  \* @type: Int;
  p4_10,
  \* @type: Int;
  p4_11,
  \* @type: Int;
  p4_12,
  \* @type: Int;
  p4_13,
  \* @type: Int;
  p4_14,
  \* @type: Int;
  p4_15,
  \* @type: Int;
  p5_0,
  \* @type: Int;
  p5_1,
  \* @type: Int;
  p5_2,
  \* @type: Int;
  p5_3,
  \* @type: Int;
  p5_4,
  \* @type: Int;
  p5_5,
  \* @type: Int;
  p5_6,
  \* @type: Int;
  p5_7,
  \* @type: Int;
  p5_8,
  \* @type: Int;
  p5_9,
  \* @type: Int;
  p5_10,
  \* @type: Int;
  p5_11,
  \* @type: Int;
  p5_12,
  \* @type: Int;
  p5_13,
  \* @type: Int;
  p5_14,
  \* @type: Int;
  p5_15,
  \* @type: Int;
  p6_0,
  \* @type: Int;
  p6_1,
  \* @type: Int;
  p6_2,
  \* @type: Int;
  p6_3,
  \* @type: Int;
  p6_4,
  \* @type: Int;
  p6_5,
  \* @type: Int;
  p6_6,
  \* @type: Int;
  p6_7,
  \* @type: Int;
  p6_8,
  \* @type: Int;
  p6_9,
  \* @type: Int;
  p6_10,
  \* @type: Int;
  p6_11,
  \* @type: Int;
  p6_12,
  \* @type: Int;
  p6_13,
  \* @type: Int;
  p6_14,
  \* @type: Int;
  p6_15,
  \* @type: Int;
  p7_0,
  \* @type: Int;
  p7_1,
  \* @type: Int;
  p7_2,
  \* @type: Int;
  p7_3,
  \* @type: Int;
  p7_4,
  \* @type: Int;
  p7_5,
  \* @type: Int;
  p7_6,
  \* @type: Int;
  p7_7,
  \* @type: Int;
  p7_8,
  \* @type: Int;
  p7_9,
  \* @type: Int;
  p7_10,
  \* @type: Int;
  p7_11,
  \* @type: Int;
  p7_12,
  \* @type: Int;
  p7_13,
  \* @type: Int;
  p7_14,
  \* @type: Int;
  p7_15,
  \* @type: Int;
  p8_0,
  \* @type: Int;
  p8_1,
  \* @type: Int;
  p8_2,
  \* @type: Int;
  p8_3,
  \* @type: Int;
  p8_4,
  \* @type: Int;
  p8_5,
  \* @type: Int;
  p8_6,
  \* @type: Int;
  p8_7,
  \* @type: Int;
  p8_8,
  \* @type: Int;
  p8_9,
  \* @type: Int;
  p8_10,
  \* @type: Int;
  p8_11,
  \* @type: Int;
  p8_12,
  \* @type: Int;
  p8_13,
  \* @type: Int;
  p8_14,
  \* @type: Int;
  p8_15,
  \* @type: Int;
  p9_0,
  \* @type: Int;
  p9_1,
  \* @type: Int;
  p9_2,
  \* @type: Int;
  p9_3,
  \* @type: Int;
  p9_4,
  \* @type: Int;
  p9_5,
  \* @type: Int;
  p9_6,
  \* @type: Int;
  p9_7,
  \* @type: Int;
  p9_8,
  \* @type: Int;
  p9_9,
  \* @type: Int;
  p9_10,
  \* @type: Int;
  p9_11,
  \* @type: Int;
  p9_12,
  \* @type: Int;
  p9_13,
  \* @type: Int;
  p9_14,
  \* @type: Int;
  p9_15,
  \* @type: Int;
  p10_0,
  \* @type: Int;
  p10_1,
  \* @type: Int;
  p10_2,
  \* @type: Int;
  p10_3,
  \* @type: Int;
  p10_4,
  \* @type: Int;
  p10_5,
  \* @type: Int;
  p10_6,
  \* @type: Int;
  p10_7,
  \* @type: Int;
  p10_8,
  \* @type: Int;
  p10_9,
  \* @type: Int;
  p10_10,
  \* @type: Int;
  p10_11,
  \* @type: Int;
  p10_12,
  \* @type: Int;
  p10_13,
  \* @type: Int;
  p10_14,
  \* @type: Int;
  p10_15,
  \* @type: Int;
  p11_0,
  \* @type: Int;
  p11_1,
  \* @type: Int;
  p11_2,
  \* @type: Int;
  p11_3,
  \* @type: Int;
  p11_4,
  \* @type: Int;
  p11_5,
  \* @type: Int;
  p11_6,
  \* @type: Int;
  p11_7,
  \* @type: Int;
  p11_8,
  \* @type: Int;
  p11_9,
  \* @type: Int;
  p11_10,
  \* @type: Int;
  p11_11,
  \* @type: Int;
  p11_12,
  \* @type: Int;
  p11_13,
  \* @type: Int;
  p11_14,
  \* @type: Int;
  p11_15,
  \* @type: Int;
  p12_0,
  \* @type: Int;
  p12_1,
  \* @type: Int;
  p12_2,
  \* @type: Int;
  p12_3,
  \* @type: Int;
  p12_4,
  \* @type: Int;
  p12_5,
  \* @type: Int;
  p12_6,
  \* @type: Int;
  p12_7,
  \* @type: Int;
  p12_8,
  \* @type: Int;
  p12_9,
  \* @type: Int;
  p12_10,
  \* @type: Int;
  p12_11,
  \* @type: Int;
  p12_12,
  \* @type: Int;
  p12_13,
  \* @type: Int;
  p12_14,
  \* @type: Int;
  p12_15,
  \* @type: Int;
  p13_0,
  \* @type: Int;
  p13_1,
  \* @type: Int;
  p13_2,
  \* @type: Int;
  p13_3,
  \* @type: Int;
  p13_4,
  \* @type: Int;
  p13_5,
  \* @type: Int;
  p13_6,
  \* @type: Int;
  p13_7,
  \* @type: Int;
  p13_8,
  \* @type: Int;
  p13_9,
  \* @type: Int;
  p13_10,
  \* @type: Int;
  p13_11,
  \* @type: Int;
  p13_12,
  \* @type: Int;
  p13_13,
  \* @type: Int;
  p13_14,
  \* @type: Int;
  p13_15,
  \* @type: Int;
  p14_0,
  \* @type: Int;
  p14_1,
  \* @type: Int;
  p14_2,
  \* @type: Int;
  p14_3,
  \* @type: Int;
  p14_4,
  \* @type: Int;
  p14_5,
  \* @type: Int;
  p14_6,
  \* @type: Int;
  p14_7,
  \* @type: Int;
  p14_8,
  \* @type: Int;
  p14_9,
  \* @type: Int;
  p14_10,
  \* @type: Int;
  p14_11,
  \* @type: Int;
  p14_12,
  \* @type: Int;
  p14_13,
  \* @type: Int;
  p14_14,
  \* @type: Int;
  p14_15,
  \* @type: Int;
  p15_0,
  \* @type: Int;
  p15_1,
  \* @type: Int;
  p15_2,
  \* @type: Int;
  p15_3,
  \* @type: Int;
  p15_4,
  \* @type: Int;
  p15_5,
  \* @type: Int;
  p15_6,
  \* @type: Int;
  p15_7,
  \* @type: Int;
  p15_8,
  \* @type: Int;
  p15_9,
  \* @type: Int;
  p15_10,
  \* @type: Int;
  p15_11,
  \* @type: Int;
  p15_12,
  \* @type: Int;
  p15_13,
  \* @type: Int;
  p15_14,
  \* @type: Int;
  p15_15,
  \* @type: Int;
  AB,
  \* @type: Int;
  y0_0,
  \* @type: Int;
  y1_0,
  \* @type: Int;
  lo0,
  \* @type: Int;
  hi0,
  \* @type: Int;
  z0_0,
  \* @type: Int;
  z1_0,
  \* @type: Int;
  y0_1,
  \* @type: Int;
  y1_1,
  \* @type: Int;
  lo1,
  \* @type: Int;
  hi1,
  \* @type: Int;
  z0_1,
  \* @type: Int;
  z1_1,
  \* @type: Int;
  y0_2,
  \* @type: Int;
  y1_2,
  \* @type: Int;
  lo2,
  \* @type: Int;
  hi2,
  \* @type: Int;
  z0_2,
  \* @type: Int;
  z1_2,
  \* @type: Int;
  y0_3,
  \* @type: Int;
  y1_3,
  \* @type: Int;
  lo3,
  \* @type: Int;
  hi3,
  \* @type: Int;
  z0_3,
  \* @type: Int;
  z1_3,
  \* @type: Int;
  y0_4,
  \* @type: Int;
  y1_4,
  \* @type: Int;
  lo4,
  \* @type: Int;
  hi4,
  \* @type: Int;
  z0_4,
  \* @type: Int;
  z1_4,
  \* @type: Int;
  y0_5,
  \* @type: Int;
  y1_5,
  \* @type: Int;
  lo5,
  \* @type: Int;
  hi5,
  \* @type: Int;
  z0_5,
  \* @type: Int;
  z1_5,
  \* @type: Int;
  y0_6,
  \* @type: Int;
  y1_6,
  \* @type: Int;
  lo6,
  \* @type: Int;
  hi6,
  \* @type: Int;
  z0_6,
  \* @type: Int;
  z1_6,
  \* @type: Int;
  y0_7,
  \* @type: Int;
  y1_7,
  \* @type: Int;
  lo7,
  \* @type: Int;
  hi7,
  \* @type: Int;
  z0_7,
  \* @type: Int;
  z1_7,
  \* @type: Int;
  e0,
  \* @type: Int;
  e1,
  \* @type: Int;
  r0,
  \* @type: Int;
  r1,
  \* @type: Int;
  r2,
  \* @type: Int;
  r3,
  \* @type: Int;
  r4,
  \* @type: Int;
  r5,
  \* @type: Int;
  r6,
  \* @type: Int;
  r7,
  \* @type: Int;
  r8,
  \* @type: Int;
  r9,
  \* @type: Int;
  r10,
  \* @type: Int;
  r11,
  \* @type: Int;
  r12,
  \* @type: Int;
  r13,
  \* @type: Int;
  r14,
  \* @type: Int;
  r15,
  \* @type: Int;
  C,
  \* @type: Int;
  Q
Init ==
  /\ p0_0 \in Int /\ 0 <= p0_0 /\ p0_0 < 72057641819447026
  /\ p0_1 \in Int /\ 0 <= p0_1 /\ p0_1 < 72057641819447026
  /\ p0_2 \in Int /\ 0 <= p0_2 /\ p0_2 < 72057641819447026
  /\ p0_3 \in Int /\ 0 <= p0_3 /\ p0_3 < 72057641819447026
  /\ p0_4 \in Int /\ 0 <= p0_4 /\ p0_4 < 72057641819447026
  /\ p0_5 \in Int /\ 0 <= p0_5 /\ p0_5 < 72057641819447026
  /\ p0_6 \in Int /\ 0 <= p0_6 /\ p0_6 < 72057641819447026
  /\ p0_7 \in Int /\ 0 <= p0_7 /\ p0_7 < 72057641819447026
  /\ p0_8 \in Int /\ 0 <= p0_8 /\ p0_8 < 72057641819447026
  /\ p0_9 \in Int /\ 0 <= p0_9 /\ p0_9 < 72057641819447026
  /\ p0_10 \in Int /\ 0 <= p0_10 /\ p0_10 < 72057641819447026
  /\ p0_11 \in Int /\ 0 <= p0_11 /\ p0_11 < 72057641819447026
  /\ p0_12 \in Int /\ 0 <= p0_12 /\ p0_12 < 72057641819447026
  /\ p0_13 \in Int /\ 0 <= p0_13 /\ p0_13 < 72057641819447026
  /\ p0_14 \in Int /\ 0 <= p0_14 /\ p0_14 < 72057641819447026
  /\ p0_15 \in Int /\ 0 <= p0_15 /\ p0_15 < 72057641819447026
  /\ p1_0 \in Int /\ 0 <= p1_0 /\ p1_0 < 72057641819447026
  /\ p1_1 \in Int /\ 0 <= p1_1 /\ p1_1 < 72057641819447026
  /\ p1_2 \in Int /\ 0 <= p1_2 /\ p1_2 < 72057641819447026
  /\ p1_3 \in Int /\ 0 <= p1_3 /\ p1_3 < 72057641819447026
  /\ p1_4 \in Int /\ 0 <= p1_4 /\ p1_4 < 72057641819447026
  /\ p1_5 \in Int /\ 0 <= p1_5 /\ p1_5 < 72057641819447026
  /\ p1_6 \in Int /\ 0 <= p1_6 /\ p1_6 < 72057641819447026
  /\ p1_7 \in Int /\ 0 <= p1_7 /\ p1_7 < 72057641819447026
  /\ p1_8 \in Int /\ 0 <= p1_8 /\ p1_8 < 72057641819447026
  /\ p1_9 \in Int /\ 0 <= p1_9 /\ p1_9 < 72057641819447026
  /\ p1_10 \in Int /\ 0 <= p1_10 /\ p1_10 < 72057641819447026
  /\ p1_11 \in Int /\ 0 <= p1_11 /\ p1_11 < 72057641819447026
  /\ p1_12 \in Int /\ 0 <= p1_12 /\ p1_12 < 72057641819447026
  /\ p1_13 \in Int /\ 0 <= p1_13 /\ p1_13 < 72057641819447026
  /\ p1_14 \in Int /\ 0 <= p1_14 /\ p1_14 < 72057641819447026
  /\ p1_15 \in Int /\ 0 <= p1_15 /\ p1_15 < 72057641819447026
  /\ p2_0 \in Int /\ 0 <= p2_0 /\ p2_0 < 72057641819447026
  /\ p2_1 \in Int /\ 0 <= p2_1 /\ p2_1 < 72057641819447026
  /\ p2_2 \in Int /\ 0 <= p2_2 /\ p2_2 < 72057641819447026
  /\ p2_3 \in Int /\ 0 <= p2_3 /\ p2_3 < 72057641819447026
  /\ p2_4 \in Int /\ 0 <= p2_4 /\ p2_4 < 72057641819447026
  /\ p2_5 \in Int /\ 0 <= p2_5 /\ p2_5 < 72057641819447026
  /\ p2_6 \in Int /\ 0 <= p2_6 /\ p2_6 < 72057641819447026
  /\ p2_7 \in Int /\ 0 <= p2_7 /\ p2_7 < 72057641819447026
  /\ p2_8 \in Int /\ 0 <= p2_8 /\ p2_8 < 72057641819447026
  /\ p2_9 \in Int /\ 0 <= p2_9 /\ p2_9 < 72057641819447026
  /\ p2_10 \in Int /\ 0 <= p2_10 /\ p2_10 < 72057641819447026
  /\ p2_11 \in Int /\ 0 <= p2_11 /\ p2_11 < 72057641819447026
  /\ p2_12 \in Int /\ 0 <= p2_12 /\ p2_12 < 72057641819447026
  /\ p2_13 \in Int /\ 0 <= p2_13 /\ p2_13 < 72057641819447026
  /\ p2_14 \in Int /\ 0 <= p2_14 /\ p2_14 < 72057641819447026
  /\ p2_15 \in Int /\ 0 <= p2_15 /\ p2_15 < 72057641819447026
  /\ p3_0 \in Int /\ 0 <= p3_0 /\ p3_0 < 72057641819447026
  /\ p3_1 \in Int /\ 0 <= p3_1 /\ p3_1 < 72057641819447026
  /\ p3_2 \in Int /\ 0 <= p3_2 /\ p3_2 < 72057641819447026
  /\ p3_3 \in Int /\ 0 <= p3_3 /\ p3_3 < 72057641819447026
  /\ p3_4 \in Int /\ 0 <= p3_4 /\ p3_4 < 72057641819447026
  /\ p3_5 \in Int /\ 0 <= p3_5 /\ p3_5 < 72057641819447026
  /\ p3_6 \in Int /\ 0 <= p3_6 /\ p3_6 < 72057641819447026
  /\ p3_7 \in Int /\ 0 <= p3_7 /\ p3_7 < 72057641819447026
  /\ p3_8 \in Int /\ 0 <= p3_8 /\ p3_8 < 72057641819447026
  /\ p3_9 \in Int /\ 0 <= p3_9 /\ p3_9 < 72057641819447026
  /\ p3_10 \in Int /\ 0 <= p3_10 /\ p3_10 < 72057641819447026
  /\ p3_11 \in Int /\ 0 <= p3_11 /\ p3_11 < 72057641819447026
  /\ p3_12 \in Int /\ 0 <= p3_12 /\ p3_12 < 72057641819447026
  /\ p3_13 \in Int /\ 0 <= p3_13 /\ p3_13 < 72057641819447026
  /\ p3_14 \in Int /\ 0 <= p3_14 /\ p3_14 < 72057641819447026
  /\ p3_15 \in Int /\ 0 <= p3_15 /\ p3_15 < 72057641819447026
  /\ p4_0 \in Int /\ 0 <= p4_0 /\ p4_0 < 72057641819447026
  /\ p4_1 \in Int /\ 0 <= p4_1 /\ p4_1 < 72057641819447026
  /\ p4_2 \in Int /\ 0 <= p4_2 /\ p4_2 < 72057641819447026
  /\ p4_3 \in Int /\ 0 <= p4_3 /\ p4_3 < 72057641819447026
  /\ p4_4 \in Int /\ 0 <= p4_4 /\ p4_4 < 72057641819447026
  /\ p4_5 \in Int /\ 0 <= p4_5 /\ p4_5 < 72057641819447026
  /\ p4_6 \in Int /\ 0 <= p4_6 /\ p4_6 < 72057641819447026
  /\ p4_7 \in Int /\ 0 <= p4_7 /\ p4_7 < 72057641819447026
  /\ p4_8 \in Int /\ 0 <= p4_8 /\ p4_8 < 72057641819447026
  /\ p4_9 \in Int /\ 0 <= p4_9 /\ p4_9 < 72057641819447026
  /\ p4_10 \in Int /\ 0 <= p4_10 /\ p4_10 < 72057641819447026
  /\ p4_11 \in Int /\ 0 <= p4_11 /\ p4_11 < 72057641819447026
  /\ p4_12 \in Int /\ 0 <= p4_12 /\ p4_12 < 72057641819447026
  /\ p4_13 \in Int /\ 0 <= p4_13 /\ p4_13 < 72057641819447026
  /\ p4_14 \in Int /\ 0 <= p4_14 /\ p4_14 < 72057641819447026
  /\ p4_15 \in Int /\ 0 <= p4_15 /\ p4_15 < 72057641819447026
  /\ p5_0 \in Int /\ 0 <= p5_0 /\ p5_0 < 72057641819447026
  /\ p5_1 \in Int /\ 0 <= p5_1 /\ p5_1 < 72057641819447026
  /\ p5_2 \in Int /\ 0 <= p5_2 /\ p5_2 < 72057641819447026
  /\ p5_3 \in Int /\ 0 <= p5_3 /\ p5_3 < 72057641819447026
  /\ p5_4 \in Int /\ 0 <= p5_4 /\ p5_4 < 72057641819447026
  /\ p5_5 \in Int /\ 0 <= p5_5 /\ p5_5 < 72057641819447026
  /\ p5_6 \in Int /\ 0 <= p5_6 /\ p5_6 < 72057641819447026
  /\ p5_7 \in Int /\ 0 <= p5_7 /\ p5_7 < 72057641819447026
  /\ p5_8 \in Int /\ 0 <= p5_8 /\ p5_8 < 72057641819447026
  /\ p5_9 \in Int /\ 0 <= p5_9 /\ p5_9 < 72057641819447026
  /\ p5_10 \in Int /\ 0 <= p5_10 /\ p5_10 < 72057641819447026
  /\ p5_11 \in Int /\ 0 <= p5_11 /\ p5_11 < 72057641819447026
  /\ p5_12 \in Int /\ 0 <= p5_12 /\ p5_12 < 72057641819447026
  /\ p5_13 \in Int /\ 0 <= p5_13 /\ p5_13 < 72057641819447026
  /\ p5_14 \in Int /\ 0 <= p5_14 /\ p5_14 < 72057641819447026
  /\ p5_15 \in Int /\ 0 <= p5_15 /\ p5_15 < 72057641819447026
  /\ p6_0 \in Int /\ 0 <= p6_0 /\ p6_0 < 72057641819447026
  /\ p6_1 \in Int /\ 0 <= p6_1 /\ p6_1 < 72057641819447026
  /\ p6_2 \in Int /\ 0 <= p6_2 /\ p6_2 < 72057641819447026
  /\ p6_3 \in Int /\ 0 <= p6_3 /\ p6_3 < 72057641819447026
  /\ p6_4 \in Int /\ 0 <= p6_4 /\ p6_4 < 72057641819447026
  /\ p6_5 \in Int /\ 0 <= p6_5 /\ p6_5 < 72057641819447026
  /\ p6_6 \in Int /\ 0 <= p6_6 /\ p6_6 < 72057641819447026
  /\ p6_7 \in Int /\ 0 <= p6_7 /\ p6_7 < 72057641819447026
  /\ p6_8 \in Int /\ 0 <= p6_8 /\ p6_8 < 72057641819447026
  /\ p6_9 \in Int /\ 0 <= p6_9 /\ p6_9 < 72057641819447026
  /\ p6_10 \in Int /\ 0 <= p6_10 /\ p6_10 < 72057641819447026
  /\ p6_11 \in Int /\ 0 <= p6_11 /\ p6_11 < 72057641819447026
  /\ p6_12 \in Int /\ 0 <= p6_12 /\ p6_12 < 72057641819447026
  /\ p6_13 \in Int /\ 0 <= p6_13 /\ p6_13 < 72057641819447026
  /\ p6_14 \in Int /\ 0 <= p6_14 /\ p6_14 < 72057641819447026
  /\ p6_15 \in Int /\ 0 <= p6_15 /\ p6_15 < 72057641819447026
  /\ p7_0 \in Int /\ 0 <= p7_0 /\ p7_0 < 72057641819447026
  /\ p7_1 \in Int /\ 0 <= p7_1 /\ p7_1 < 72057641819447026
  /\ p7_2 \in Int /\ 0 <= p7_2 /\ p7_2 < 72057641819447026
  /\ p7_3 \in Int /\ 0 <= p7_3 /\ p7_3 < 72057641819447026
  /\ p7_4 \in Int /\ 0 <= p7_4 /\ p7_4 < 72057641819447026
  /\ p7_5 \in Int /\ 0 <= p7_5 /\ p7_5 < 72057641819447026
  /\ p7_6 \in Int /\ 0 <= p7_6 /\ p7_6 < 72057641819447026
  /\ p7_7 \in Int /\ 0 <= p7_7 /\ p7_7 < 72057641819447026
  /\ p7_8 \in Int /\ 0 <= p7_8 /\ p7_8 < 72057641819447026
  /\ p7_9 \in Int /\ 0 <= p7_9 /\ p7_9 < 72057641819447026
  /\ p7_10 \in Int /\ 0 <= p7_10 /\ p7_10 < 72057641819447026
  /\ p7_11 \in Int /\ 0 <= p7_11 /\ p7_11 < 72057641819447026
  /\ p7_12 \in Int /\ 0 <= p7_12 /\ p7_12 < 72057641819447026
  /\ p7_13 \in Int /\ 0 <= p7_13 /\ p7_13 < 72057641819447026
  /\ p7_14 \in Int /\ 0 <= p7_14 /\ p7_14 < 72057641819447026
  /\ p7_15 \in Int /\ 0 <= p7_15 /\ p7_15 < 72057641819447026
  /\ p8_0 \in Int /\ 0 <= p8_0 /\ p8_0 < 72057641819447026
  /\ p8_1 \in Int /\ 0 <= p8_1 /\ p8_1 < 72057641819447026
  /\ p8_2 \in Int /\ 0 <= p8_2 /\ p8_2 < 72057641819447026
  /\ p8_3 \in Int /\ 0 <= p8_3 /\ p8_3 < 72057641819447026
  /\ p8_4 \in Int /\ 0 <= p8_4 /\ p8_4 < 72057641819447026
  /\ p8_5 \in Int /\ 0 <= p8_5 /\ p8_5 < 72057641819447026
  /\ p8_6 \in Int /\ 0 <= p8_6 /\ p8_6 < 72057641819447026
  /\ p8_7 \in Int /\ 0 <= p8_7 /\ p8_7 < 72057641819447026
  /\ p8_8 \in Int /\ 0 <= p8_8 /\ p8_8 < 72057641819447026
  /\ p8_9 \in Int /\ 0 <= p8_9 /\ p8_9 < 72057641819447026
  /\ p8_10 \in Int /\ 0 <= p8_10 /\ p8_10 < 72057641819447026
  /\ p8_11 \in Int /\ 0 <= p8_11 /\ p8_11 < 72057641819447026
  /\ p8_12 \in Int /\ 0 <= p8_12 /\ p8_12 < 72057641819447026
  /\ p8_13 \in Int /\ 0 <= p8_13 /\ p8_13 < 72057641819447026
  /\ p8_14 \in Int /\ 0 <= p8_14 /\ p8_14 < 72057641819447026
  /\ p8_15 \in Int /\ 0 <= p8_15 /\ p8_15 < 72057641819447026
  /\ p9_0 \in Int /\ 0 <= p9_0 /\ p9_0 < 72057641819447026
  /\ p9_1 \in Int /\ 0 <= p9_1 /\ p9_1 < 72057641819447026
  /\ p9_2 \in Int /\ 0 <= p9_2 /\ p9_2 < 72057641819447026
  /\ p9_3 \in Int /\ 0 <= p9_3 /\ p9_3 < 72057641819447026
  /\ p9_4 \in Int /\ 0 <= p9_4 /\ p9_4 < 72057641819447026
  /\ p9_5 \in Int /\ 0 <= p9_5 /\ p9_5 < 72057641819447026
  /\ p9_6 \in Int /\ 0 <= p9_6 /\ p9_6 < 72057641819447026
  /\ p9_7 \in Int /\ 0 <= p9_7 /\ p9_7 < 72057641819447026
  /\ p9_8 \in Int /\ 0 <= p9_8 /\ p9_8 < 72057641819447026
  /\ p9_9 \in Int /\ 0 <= p9_9 /\ p9_9 < 72057641819447026
  /\ p9_10 \in Int /\ 0 <= p9_10 /\ p9_10 < 72057641819447026
  /\ p9_11 \in Int /\ 0 <= p9_11 /\ p9_11 < 72057641819447026
  /\ p9_12 \in Int /\ 0 <= p9_12 /\ p9_12 < 72057641819447026
  /\ p9_13 \in Int /\ 0 <= p9_13 /\ p9_13 < 72057641819447026
  /\ p9_14 \in Int /\ 0 <= p9_14 /\ p9_14 < 72057641819447026
  /\ p9_15 \in Int /\ 0 <= p9_15 /\ p9_15 < 72057641819447026
  /\ p10_0 \in Int /\ 0 <= p10_0 /\ p10_0 < 72057641819447026
  /\ p10_1 \in Int /\ 0 <= p10_1 /\ p10_1 < 72057641819447026
  /\ p10_2 \in Int /\ 0 <= p10_2 /\ p10_2 < 72057641819447026
  /\ p10_3 \in Int /\ 0 <= p10_3 /\ p10_3 < 72057641819447026
  /\ p10_4 \in Int /\ 0 <= p10_4 /\ p10_4 < 72057641819447026
  /\ p10_5 \in Int /\ 0 <= p10_5 /\ p10_5 < 72057641819447026
  /\ p10_6 \in Int /\ 0 <= p10_6 /\ p10_6 < 72057641819447026
  /\ p10_7 \in Int /\ 0 <= p10_7 /\ p10_7 < 72057641819447026
  /\ p10_8 \in Int /\ 0 <= p10_8 /\ p10_8 < 72057641819447026
  /\ p10_9 \in Int /\ 0 <= p10_9 /\ p10_9 < 72057641819447026
  /\ p10_10 \in Int /\ 0 <= p10_10 /\ p10_10 < 72057641819447026
  /\ p10_11 \in Int /\ 0 <= p10_11 /\ p10_11 < 72057641819447026
  /\ p10_12 \in Int /\ 0 <= p10_12 /\ p10_12 < 72057641819447026
  /\ p10_13 \in Int /\ 0 <= p10_13 /\ p10_13 < 72057641819447026
  /\ p10_14 \in Int /\ 0 <= p10_14 /\ p10_14 < 72057641819447026
  /\ p10_15 \in Int /\ 0 <= p10_15 /\ p10_15 < 72057641819447026
  /\ p11_0 \in Int /\ 0 <= p11_0 /\ p11_0 < 72057641819447026
  /\ p11_1 \in Int /\ 0 <= p11_1 /\ p11_1 < 72057641819447026
  /\ p11_2 \in Int /\ 0 <= p11_2 /\ p11_2 < 72057641819447026
  /\ p11_3 \in Int /\ 0 <= p11_3 /\ p11_3 < 72057641819447026
  /\ p11_4 \in Int /\ 0 <= p11_4 /\ p11_4 < 72057641819447026
  /\ p11_5 \in Int /\ 0 <= p11_5 /\ p11_5 < 72057641819447026
  /\ p11_6 \in Int /\ 0 <= p11_6 /\ p11_6 < 72057641819447026
  /\ p11_7 \in Int /\ 0 <= p11_7 /\ p11_7 < 72057641819447026
  /\ p11_8 \in Int /\ 0 <= p11_8 /\ p11_8 < 72057641819447026
  /\ p11_9 \in Int /\ 0 <= p11_9 /\ p11_9 < 72057641819447026
  /\ p11_10 \in Int /\ 0 <= p11_10 /\ p11_10 < 72057641819447026
  /\ p11_11 \in Int /\ 0 <= p11_11 /\ p11_11 < 72057641819447026
  /\ p11_12 \in Int /\ 0 <= p11_12 /\ p11_12 < 72057641819447026
  /\ p11_13 \in Int /\ 0 <= p11_13 /\ p11_13 < 72057641819447026
  /\ p11_14 \in Int /\ 0 <= p11_14 /\ p11_14 < 72057641819447026
  /\ p11_15 \in Int /\ 0 <= p11_15 /\ p11_15 < 72057641819447026
  /\ p12_0 \in Int /\ 0 <= p12_0 /\ p12_0 < 72057641819447026
  /\ p12_1 \in Int /\ 0 <= p12_1 /\ p12_1 < 72057641819447026
  /\ p12_2 \in Int /\ 0 <= p12_2 /\ p12_2 < 72057641819447026
  /\ p12_3 \in Int /\ 0 <= p12_3 /\ p12_3 < 72057641819447026
  /\ p12_4 \in Int /\ 0 <= p12_4 /\ p12_4 < 72057641819447026
  /\ p12_5 \in Int /\ 0 <= p12_5 /\ p12_5 < 72057641819447026
  /\ p12_6 \in Int /\ 0 <= p12_6 /\ p12_6 < 72057641819447026
  /\ p12_7 \in Int /\ 0 <= p12_7 /\ p12_7 < 72057641819447026
  /\ p12_8 \in Int /\ 0 <= p12_8 /\ p12_8 < 72057641819447026
  /\ p12_9 \in Int /\ 0 <= p12_9 /\ p12_9 < 72057641819447026
  /\ p12_10 \in Int /\ 0 <= p12_10 /\ p12_10 < 72057641819447026
  /\ p12_11 \in Int /\ 0 <= p12_11 /\ p12_11 < 72057641819447026
  /\ p12_12 \in Int /\ 0 <= p12_12 /\ p12_12 < 72057641819447026
  /\ p12_13 \in Int /\ 0 <= p12_13 /\ p12_13 < 72057641819447026
  /\ p12_14 \in Int /\ 0 <= p12_14 /\ p12_14 < 72057641819447026
  /\ p12_15 \in Int /\ 0 <= p12_15 /\ p12_15 < 72057641819447026
  /\ p13_0 \in Int /\ 0 <= p13_0 /\ p13_0 < 72057641819447026
  /\ p13_1 \in Int /\ 0 <= p13_1 /\ p13_1 < 72057641819447026
  /\ p13_2 \in Int /\ 0 <= p13_2 /\ p13_2 < 72057641819447026
  /\ p13_3 \in Int /\ 0 <= p13_3 /\ p13_3 < 72057641819447026
  /\ p13_4 \in Int /\ 0 <= p13_4 /\ p13_4 < 72057641819447026
  /\ p13_5 \in Int /\ 0 <= p13_5 /\ p13_5 < 72057641819447026
  /\ p13_6 \in Int /\ 0 <= p13_6 /\ p13_6 < 72057641819447026
  /\ p13_7 \in Int /\ 0 <= p13_7 /\ p13_7 < 72057641819447026
  /\ p13_8 \in Int /\ 0 <= p13_8 /\ p13_8 < 72057641819447026
  /\ p13_9 \in Int /\ 0 <= p13_9 /\ p13_9 < 72057641819447026
  /\ p13_10 \in Int /\ 0 <= p13_10 /\ p13_10 < 72057641819447026
  /\ p13_11 \in Int /\ 0 <= p13_11 /\ p13_11 < 72057641819447026
  /\ p13_12 \in Int /\ 0 <= p13_12 /\ p13_12 < 72057641819447026
  /\ p13_13 \in Int /\ 0 <= p13_13 /\ p13_13 < 72057641819447026
  /\ p13_14 \in Int /\ 0 <= p13_14 /\ p13_14 < 72057641819447026
  /\ p13_15 \in Int /\ 0 <= p13_15 /\ p13_15 < 72057641819447026
  /\ p14_0 \in Int /\ 0 <= p14_0 /\ p14_0 < 72057641819447026
  /\ p14_1 \in Int /\ 0 <= p14_1 /\ p14_1 < 72057641819447026
  /\ p14_2 \in Int /\ 0 <= p14_2 /\ p14_2 < 72057641819447026
  /\ p14_3 \in Int /\ 0 <= p14_3 /\ p14_3 < 72057641819447026
  /\ p14_4 \in Int /\ 0 <= p14_4 /\ p14_4 < 72057641819447026
  /\ p14_5 \in Int /\ 0 <= p14_5 /\ p14_5 < 72057641819447026
  /\ p14_6 \in Int /\ 0 <= p14_6 /\ p14_6 < 72057641819447026
  /\ p14_7 \in Int /\ 0 <= p14_7 /\ p14_7 < 72057641819447026
  /\ p14_8 \in Int /\ 0 <= p14_8 /\ p14_8 < 72057641819447026
  /\ p14_9 \in Int /\ 0 <= p14_9 /\ p14_9 < 72057641819447026
  /\ p14_10 \in Int /\ 0 <= p14_10 /\ p14_10 < 72057641819447026
  /\ p14_11 \in Int /\ 0 <= p14_11 /\ p14_11 < 72057641819447026
  /\ p14_12 \in Int /\ 0 <= p14_12 /\ p14_12 < 72057641819447026
  /\ p14_13 \in Int /\ 0 <= p14_13 /\ p14_13 < 72057641819447026
  /\ p14_14 \in Int /\ 0 <= p14_14 /\ p14_14 < 72057641819447026
  /\ p14_15 \in Int /\ 0 <= p14_15 /\ p14_15 < 72057641819447026
  /\ p15_0 \in Int /\ 0 <= p15_0 /\ p15_0 < 72057641819447026
  /\ p15_1 \in Int /\ 0 <= p15_1 /\ p15_1 < 72057641819447026
  /\ p15_2 \in Int /\ 0 <= p15_2 /\ p15_2 < 72057641819447026
  /\ p15_3 \in Int /\ 0 <= p15_3 /\ p15_3 < 72057641819447026
  /\ p15_4 \in Int /\ 0 <= p15_4 /\ p15_4 < 72057641819447026
  /\ p15_5 \in Int /\ 0 <= p15_5 /\ p15_5 < 72057641819447026
  /\ p15_6 \in Int /\ 0 <= p15_6 /\ p15_6 < 72057641819447026
  /\ p15_7 \in Int /\ 0 <= p15_7 /\ p15_7 < 72057641819447026
  /\ p15_8 \in Int /\ 0 <= p15_8 /\ p15_8 < 72057641819447026
  /\ p15_9 \in Int /\ 0 <= p15_9 /\ p15_9 < 72057641819447026
  /\ p15_10 \in Int /\ 0 <= p15_10 /\ p15_10 < 72057641819447026
  /\ p15_11 \in Int /\ 0 <= p15_11 /\ p15_11 < 72057641819447026
  /\ p15_12 \in Int /\ 0 <= p15_12 /\ p15_12 < 72057641819447026
  /\ p15_13 \in Int /\ 0 <= p15_13 /\ p15_13 < 72057641819447026
  /\ p15_14 \in Int /\ 0 <= p15_14 /\ p15_14 < 72057641819447026
  /\ p15_15 \in Int /\ 0 <= p15_15 /\ p15_15 < 72057641819447026
  /\ AB = p0_0 * 1 + p0_1 * 268435456 + p0_2 * 72057594037927936 + p0_3 * 19342813113834066795298816 + p0_4 * 5192296858534827628530496329220096 + p0_5 * 1393796574908163946345982392040522594123776 + p0_6 * 374144419156711147060143317175368453031918731001856 + p0_7 * 100433627766186892221372630771322662657637687111424552206336 + p0_8 * 26959946667150639794667015087019630673637144422540572481103610249216 + p0_9 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + p0_10 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + p0_11 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + p0_12 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + p0_13 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + p0_14 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + p0_15 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576 + p1_0 * 268435456 + p1_1 * 72057594037927936 + p1_2 * 19342813113834066795298816 + p1_3 * 5192296858534827628530496329220096 + p1_4 * 1393796574908163946345982392040522594123776 + p1_5 * 374144419156711147060143317175368453031918731001856 + p1_6 * 100433627766186892221372630771322662657637687111424552206336 + p1_7 * 26959946667150639794667015087019630673637144422540572481103610249216 + p1_8 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + p1_9 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + p1_10 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + p1_11 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + p1_12 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + p1_13 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + p1_14 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576 + p1_15 * 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656 + p2_0 * 72057594037927936 + p2_1 * 19342813113834066795298816 + p2_2 * 5192296858534827628530496329220096 + p2_3 * 1393796574908163946345982392040522594123776 + p2_4 * 374144419156711147060143317175368453031918731001856 + p2_5 * 100433627766186892221372630771322662657637687111424552206336 + p2_6 * 26959946667150639794667015087019630673637144422540572481103610249216 + p2_7 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + p2_8 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + p2_9 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + p2_10 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + p2_11 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + p2_12 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + p2_13 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576 + p2_14 * 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656 + p2_15 * 195109284394749514461349826862072894109287383916560696928697309976585733676235351257519131441468248197489183195087913930965498479955517831643136 + p3_0 * 19342813113834066795298816 + p3_1 * 5192296858534827628530496329220096 + p3_2 * 1393796574908163946345982392040522594123776 + p3_3 * 374144419156711147060143317175368453031918731001856 + p3_4 * 100433627766186892221372630771322662657637687111424552206336 + p3_5 * 26959946667150639794667015087019630673637144422540572481103610249216 + p3_6 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + p3_7 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + p3_8 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + p3_9 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + p3_10 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + p3_11 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + p3_12 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576 + p3_13 * 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656 + p3_14 * 195109284394749514461349826862072894109287383916560696928697309976585733676235351257519131441468248197489183195087913930965498479955517831643136 + p3_15 * 52374249726338269920211035149241586435466272736689036631732661889538140742474792878132321477214466514414186946040961136147476104734166288853256441430016 + p4_0 * 5192296858534827628530496329220096 + p4_1 * 1393796574908163946345982392040522594123776 + p4_2 * 374144419156711147060143317175368453031918731001856 + p4_3 * 100433627766186892221372630771322662657637687111424552206336 + p4_4 * 26959946667150639794667015087019630673637144422540572481103610249216 + p4_5 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + p4_6 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + p4_7 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + p4_8 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + p4_9 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + p4_10 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + p4_11 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576 + p4_12 * 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656 + p4_13 * 195109284394749514461349826862072894109287383916560696928697309976585733676235351257519131441468248197489183195087913930965498479955517831643136 + p4_14 * 52374249726338269920211035149241586435466272736689036631732661889538140742474792878132321477214466514414186946040961136147476104734166288853256441430016 + p4_15 * 14059105607947488696282932836518693308967803494693489478439861164411992439598399594747002144074658928593502845729752797260025831423419686528151609940203637047296 + p5_0 * 1393796574908163946345982392040522594123776 + p5_1 * 374144419156711147060143317175368453031918731001856 + p5_2 * 100433627766186892221372630771322662657637687111424552206336 + p5_3 * 26959946667150639794667015087019630673637144422540572481103610249216 + p5_4 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + p5_5 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + p5_6 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + p5_7 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + p5_8 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + p5_9 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + p5_10 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576 + p5_11 * 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656 + p5_12 * 195109284394749514461349826862072894109287383916560696928697309976585733676235351257519131441468248197489183195087913930965498479955517831643136 + p5_13 * 52374249726338269920211035149241586435466272736689036631732661889538140742474792878132321477214466514414186946040961136147476104734166288853256441430016 + p5_14 * 14059105607947488696282932836518693308967803494693489478439861164411992439598399594747002144074658928593502845729752797260025831423419686528151609940203637047296 + p5_15 * 3773962424821541352241554580988268890916921220416440428376206300245624162392148852086126725177658767541468375030763844899770584629924792632561434251432696043649395326976 + p6_0 * 374144419156711147060143317175368453031918731001856 + p6_1 * 100433627766186892221372630771322662657637687111424552206336 + p6_2 * 26959946667150639794667015087019630673637144422540572481103610249216 + p6_3 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + p6_4 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + p6_5 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + p6_6 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + p6_7 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + p6_8 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + p6_9 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576 + p6_10 * 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656 + p6_11 * 195109284394749514461349826862072894109287383916560696928697309976585733676235351257519131441468248197489183195087913930965498479955517831643136 + p6_12 * 52374249726338269920211035149241586435466272736689036631732661889538140742474792878132321477214466514414186946040961136147476104734166288853256441430016 + p6_13 * 14059105607947488696282932836518693308967803494693489478439861164411992439598399594747002144074658928593502845729752797260025831423419686528151609940203637047296 + p6_14 * 3773962424821541352241554580988268890916921220416440428376206300245624162392148852086126725177658767541468375030763844899770584629924792632561434251432696043649395326976 + p6_15 * 1013065324433836171511818326096474890383898005918563696288002277756507034036354527929615978746851512277392062160962106733983191180520452956027069051297354415786421338721071661056 + p7_0 * 100433627766186892221372630771322662657637687111424552206336 + p7_1 * 26959946667150639794667015087019630673637144422540572481103610249216 + p7_2 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + p7_3 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + p7_4 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + p7_5 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + p7_6 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + p7_7 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + p7_8 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576 + p7_9 * 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656 + p7_10 * 195109284394749514461349826862072894109287383916560696928697309976585733676235351257519131441468248197489183195087913930965498479955517831643136 + p7_11 * 52374249726338269920211035149241586435466272736689036631732661889538140742474792878132321477214466514414186946040961136147476104734166288853256441430016 + p7_12 * 14059105607947488696282932836518693308967803494693489478439861164411992439598399594747002144074658928593502845729752797260025831423419686528151609940203637047296 + p7_13 * 3773962424821541352241554580988268890916921220416440428376206300245624162392148852086126725177658767541468375030763844899770584629924792632561434251432696043649395326976 + p7_14 * 1013065324433836171511818326096474890383898005918563696288002277756507034036354527929615978746851512277392062160962106733983191180520452956027069051297354415786421338721071661056 + p7_15 * 271942652322184754529069161754863937192751676276240344678115398758606622648756348282451201159797394262471336696958208519857448620878186106577674229128492724195241610667721328144244801536 + p8_0 * 26959946667150639794667015087019630673637144422540572481103610249216 + p8_1 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + p8_2 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + p8_3 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + p8_4 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + p8_5 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + p8_6 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + p8_7 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576 + p8_8 * 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656 + p8_9 * 195109284394749514461349826862072894109287383916560696928697309976585733676235351257519131441468248197489183195087913930965498479955517831643136 + p8_10 * 52374249726338269920211035149241586435466272736689036631732661889538140742474792878132321477214466514414186946040961136147476104734166288853256441430016 + p8_11 * 14059105607947488696282932836518693308967803494693489478439861164411992439598399594747002144074658928593502845729752797260025831423419686528151609940203637047296 + p8_12 * 3773962424821541352241554580988268890916921220416440428376206300245624162392148852086126725177658767541468375030763844899770584629924792632561434251432696043649395326976 + p8_13 * 1013065324433836171511818326096474890383898005918563696288002277756507034036354527929615978746851512277392062160962106733983191180520452956027069051297354415786421338721071661056 + p8_14 * 271942652322184754529069161754863937192751676276240344678115398758606622648756348282451201159797394262471336696958208519857448620878186106577674229128492724195241610667721328144244801536 + p8_15 * 72999049881955123498258745691204661198291656115976958889267080286388402675338838184094604981077942396458276953177510516971019275542007007972042581115555427012031914789764239201325987075945660416 + p9_0 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + p9_1 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + p9_2 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + p9_3 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + p9_4 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + p9_5 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + p9_6 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576 + p9_7 * 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656 + p9_8 * 195109284394749514461349826862072894109287383916560696928697309976585733676235351257519131441468248197489183195087913930965498479955517831643136 + p9_9 * 52374249726338269920211035149241586435466272736689036631732661889538140742474792878132321477214466514414186946040961136147476104734166288853256441430016 + p9_10 * 14059105607947488696282932836518693308967803494693489478439861164411992439598399594747002144074658928593502845729752797260025831423419686528151609940203637047296 + p9_11 * 3773962424821541352241554580988268890916921220416440428376206300245624162392148852086126725177658767541468375030763844899770584629924792632561434251432696043649395326976 + p9_12 * 1013065324433836171511818326096474890383898005918563696288002277756507034036354527929615978746851512277392062160962106733983191180520452956027069051297354415786421338721071661056 + p9_13 * 271942652322184754529069161754863937192751676276240344678115398758606622648756348282451201159797394262471336696958208519857448620878186106577674229128492724195241610667721328144244801536 + p9_14 * 72999049881955123498258745691204661198291656115976958889267080286388402675338838184094604981077942396458276953177510516971019275542007007972042581115555427012031914789764239201325987075945660416 + p9_15 * 19595533242629369747791401605606558418088927130487463844933662202465281465266200982457647235235528838735010358900495684567911298014908298340170885513171109743249504533143507682501017145381579984990109696 + p10_0 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + p10_1 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + p10_2 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + p10_3 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + p10_4 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + p10_5 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576 + p10_6 * 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656 + p10_7 * 195109284394749514461349826862072894109287383916560696928697309976585733676235351257519131441468248197489183195087913930965498479955517831643136 + p10_8 * 52374249726338269920211035149241586435466272736689036631732661889538140742474792878132321477214466514414186946040961136147476104734166288853256441430016 + p10_9 * 14059105607947488696282932836518693308967803494693489478439861164411992439598399594747002144074658928593502845729752797260025831423419686528151609940203637047296 + p10_10 * 3773962424821541352241554580988268890916921220416440428376206300245624162392148852086126725177658767541468375030763844899770584629924792632561434251432696043649395326976 + p10_11 * 1013065324433836171511818326096474890383898005918563696288002277756507034036354527929615978746851512277392062160962106733983191180520452956027069051297354415786421338721071661056 + p10_12 * 271942652322184754529069161754863937192751676276240344678115398758606622648756348282451201159797394262471336696958208519857448620878186106577674229128492724195241610667721328144244801536 + p10_13 * 72999049881955123498258745691204661198291656115976958889267080286388402675338838184094604981077942396458276953177510516971019275542007007972042581115555427012031914789764239201325987075945660416 + p10_14 * 19595533242629369747791401605606558418088927130487463844933662202465281465266200982457647235235528838735010358900495684567911298014908298340170885513171109743249504533143507682501017145381579984990109696 + p10_15 * 5260135901548373507240989882880128665550339802823173859498280903068732154297080822113666536277588451226982968856178217713019432250183803863127814770651880849955223671128444598191663757884322717271293251735781376 + p11_0 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + p11_1 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + p11_2 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + p11_3 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + p11_4 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576 + p11_5 * 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656 + p11_6 * 195109284394749514461349826862072894109287383916560696928697309976585733676235351257519131441468248197489183195087913930965498479955517831643136 + p11_7 * 52374249726338269920211035149241586435466272736689036631732661889538140742474792878132321477214466514414186946040961136147476104734166288853256441430016 + p11_8 * 14059105607947488696282932836518693308967803494693489478439861164411992439598399594747002144074658928593502845729752797260025831423419686528151609940203637047296 + p11_9 * 3773962424821541352241554580988268890916921220416440428376206300245624162392148852086126725177658767541468375030763844899770584629924792632561434251432696043649395326976 + p11_10 * 1013065324433836171511818326096474890383898005918563696288002277756507034036354527929615978746851512277392062160962106733983191180520452956027069051297354415786421338721071661056 + p11_11 * 271942652322184754529069161754863937192751676276240344678115398758606622648756348282451201159797394262471336696958208519857448620878186106577674229128492724195241610667721328144244801536 + p11_12 * 72999049881955123498258745691204661198291656115976958889267080286388402675338838184094604981077942396458276953177510516971019275542007007972042581115555427012031914789764239201325987075945660416 + p11_13 * 19595533242629369747791401605606558418088927130487463844933662202465281465266200982457647235235528838735010358900495684567911298014908298340170885513171109743249504533143507682501017145381579984990109696 + p11_14 * 5260135901548373507240989882880128665550339802823173859498280903068732154297080822113666536277588451226982968856178217713019432250183803863127814770651880849955223671128444598191663757884322717271293251735781376 + p11_15 * 1412006979354108748474554421102313931675676955925788762341700965431346915180599249952936960497614998485448932749141998289061648432939195473813276544243473053215398045741358060286316036246351763861878679739417265182867456 + p12_0 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + p12_1 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + p12_2 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + p12_3 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576 + p12_4 * 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656 + p12_5 * 195109284394749514461349826862072894109287383916560696928697309976585733676235351257519131441468248197489183195087913930965498479955517831643136 + p12_6 * 52374249726338269920211035149241586435466272736689036631732661889538140742474792878132321477214466514414186946040961136147476104734166288853256441430016 + p12_7 * 14059105607947488696282932836518693308967803494693489478439861164411992439598399594747002144074658928593502845729752797260025831423419686528151609940203637047296 + p12_8 * 3773962424821541352241554580988268890916921220416440428376206300245624162392148852086126725177658767541468375030763844899770584629924792632561434251432696043649395326976 + p12_9 * 1013065324433836171511818326096474890383898005918563696288002277756507034036354527929615978746851512277392062160962106733983191180520452956027069051297354415786421338721071661056 + p12_10 * 271942652322184754529069161754863937192751676276240344678115398758606622648756348282451201159797394262471336696958208519857448620878186106577674229128492724195241610667721328144244801536 + p12_11 * 72999049881955123498258745691204661198291656115976958889267080286388402675338838184094604981077942396458276953177510516971019275542007007972042581115555427012031914789764239201325987075945660416 + p12_12 * 19595533242629369747791401605606558418088927130487463844933662202465281465266200982457647235235528838735010358900495684567911298014908298340170885513171109743249504533143507682501017145381579984990109696 + p12_13 * 5260135901548373507240989882880128665550339802823173859498280903068732154297080822113666536277588451226982968856178217713019432250183803863127814770651880849955223671128444598191663757884322717271293251735781376 + p12_14 * 1412006979354108748474554421102313931675676955925788762341700965431346915180599249952936960497614998485448932749141998289061648432939195473813276544243473053215398045741358060286316036246351763861878679739417265182867456 + p12_15 * 379032737378102767370356320425415662904513187772631008578870126471203845870697482014374611530431269030880793627229265919475483409207718357286202948008100864063587640630090308972232735749901964068667724412528434753635948938919936 + p13_0 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + p13_1 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + p13_2 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576 + p13_3 * 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656 + p13_4 * 195109284394749514461349826862072894109287383916560696928697309976585733676235351257519131441468248197489183195087913930965498479955517831643136 + p13_5 * 52374249726338269920211035149241586435466272736689036631732661889538140742474792878132321477214466514414186946040961136147476104734166288853256441430016 + p13_6 * 14059105607947488696282932836518693308967803494693489478439861164411992439598399594747002144074658928593502845729752797260025831423419686528151609940203637047296 + p13_7 * 3773962424821541352241554580988268890916921220416440428376206300245624162392148852086126725177658767541468375030763844899770584629924792632561434251432696043649395326976 + p13_8 * 1013065324433836171511818326096474890383898005918563696288002277756507034036354527929615978746851512277392062160962106733983191180520452956027069051297354415786421338721071661056 + p13_9 * 271942652322184754529069161754863937192751676276240344678115398758606622648756348282451201159797394262471336696958208519857448620878186106577674229128492724195241610667721328144244801536 + p13_10 * 72999049881955123498258745691204661198291656115976958889267080286388402675338838184094604981077942396458276953177510516971019275542007007972042581115555427012031914789764239201325987075945660416 + p13_11 * 19595533242629369747791401605606558418088927130487463844933662202465281465266200982457647235235528838735010358900495684567911298014908298340170885513171109743249504533143507682501017145381579984990109696 + p13_12 * 5260135901548373507240989882880128665550339802823173859498280903068732154297080822113666536277588451226982968856178217713019432250183803863127814770651880849955223671128444598191663757884322717271293251735781376 + p13_13 * 1412006979354108748474554421102313931675676955925788762341700965431346915180599249952936960497614998485448932749141998289061648432939195473813276544243473053215398045741358060286316036246351763861878679739417265182867456 + p13_14 * 379032737378102767370356320425415662904513187772631008578870126471203845870697482014374611530431269030880793627229265919475483409207718357286202948008100864063587640630090308972232735749901964068667724412528434753635948938919936 + p13_15 * 101745825697019260773923519755878567461315282017759829107608914364075275235254395622580447400994175578963163918967182013639660669771108475957692810857098847138903161308502419410142185759152435680068435915159402496058513611411689167650816 + p14_0 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + p14_1 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576 + p14_2 * 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656 + p14_3 * 195109284394749514461349826862072894109287383916560696928697309976585733676235351257519131441468248197489183195087913930965498479955517831643136 + p14_4 * 52374249726338269920211035149241586435466272736689036631732661889538140742474792878132321477214466514414186946040961136147476104734166288853256441430016 + p14_5 * 14059105607947488696282932836518693308967803494693489478439861164411992439598399594747002144074658928593502845729752797260025831423419686528151609940203637047296 + p14_6 * 3773962424821541352241554580988268890916921220416440428376206300245624162392148852086126725177658767541468375030763844899770584629924792632561434251432696043649395326976 + p14_7 * 1013065324433836171511818326096474890383898005918563696288002277756507034036354527929615978746851512277392062160962106733983191180520452956027069051297354415786421338721071661056 + p14_8 * 271942652322184754529069161754863937192751676276240344678115398758606622648756348282451201159797394262471336696958208519857448620878186106577674229128492724195241610667721328144244801536 + p14_9 * 72999049881955123498258745691204661198291656115976958889267080286388402675338838184094604981077942396458276953177510516971019275542007007972042581115555427012031914789764239201325987075945660416 + p14_10 * 19595533242629369747791401605606558418088927130487463844933662202465281465266200982457647235235528838735010358900495684567911298014908298340170885513171109743249504533143507682501017145381579984990109696 + p14_11 * 5260135901548373507240989882880128665550339802823173859498280903068732154297080822113666536277588451226982968856178217713019432250183803863127814770651880849955223671128444598191663757884322717271293251735781376 + p14_12 * 1412006979354108748474554421102313931675676955925788762341700965431346915180599249952936960497614998485448932749141998289061648432939195473813276544243473053215398045741358060286316036246351763861878679739417265182867456 + p14_13 * 379032737378102767370356320425415662904513187772631008578870126471203845870697482014374611530431269030880793627229265919475483409207718357286202948008100864063587640630090308972232735749901964068667724412528434753635948938919936 + p14_14 * 101745825697019260773923519755878567461315282017759829107608914364075275235254395622580447400994175578963163918967182013639660669771108475957692810857098847138903161308502419410142185759152435680068435915159402496058513611411689167650816 + p14_15 * 27312187117075883106631072934794271937104930088205959824983071996985496526101020964951786294769886374883040913790702552866360531575272919369168306390347079868805765445689403631464768659094790245289840706092591521717005303961503585448607241732096 + p15_0 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576 + p15_1 * 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656 + p15_2 * 195109284394749514461349826862072894109287383916560696928697309976585733676235351257519131441468248197489183195087913930965498479955517831643136 + p15_3 * 52374249726338269920211035149241586435466272736689036631732661889538140742474792878132321477214466514414186946040961136147476104734166288853256441430016 + p15_4 * 14059105607947488696282932836518693308967803494693489478439861164411992439598399594747002144074658928593502845729752797260025831423419686528151609940203637047296 + p15_5 * 3773962424821541352241554580988268890916921220416440428376206300245624162392148852086126725177658767541468375030763844899770584629924792632561434251432696043649395326976 + p15_6 * 1013065324433836171511818326096474890383898005918563696288002277756507034036354527929615978746851512277392062160962106733983191180520452956027069051297354415786421338721071661056 + p15_7 * 271942652322184754529069161754863937192751676276240344678115398758606622648756348282451201159797394262471336696958208519857448620878186106577674229128492724195241610667721328144244801536 + p15_8 * 72999049881955123498258745691204661198291656115976958889267080286388402675338838184094604981077942396458276953177510516971019275542007007972042581115555427012031914789764239201325987075945660416 + p15_9 * 19595533242629369747791401605606558418088927130487463844933662202465281465266200982457647235235528838735010358900495684567911298014908298340170885513171109743249504533143507682501017145381579984990109696 + p15_10 * 5260135901548373507240989882880128665550339802823173859498280903068732154297080822113666536277588451226982968856178217713019432250183803863127814770651880849955223671128444598191663757884322717271293251735781376 + p15_11 * 1412006979354108748474554421102313931675676955925788762341700965431346915180599249952936960497614998485448932749141998289061648432939195473813276544243473053215398045741358060286316036246351763861878679739417265182867456 + p15_12 * 379032737378102767370356320425415662904513187772631008578870126471203845870697482014374611530431269030880793627229265919475483409207718357286202948008100864063587640630090308972232735749901964068667724412528434753635948938919936 + p15_13 * 101745825697019260773923519755878567461315282017759829107608914364075275235254395622580447400994175578963163918967182013639660669771108475957692810857098847138903161308502419410142185759152435680068435915159402496058513611411689167650816 + p15_14 * 27312187117075883106631072934794271937104930088205959824983071996985496526101020964951786294769886374883040913790702552866360531575272919369168306390347079868805765445689403631464768659094790245289840706092591521717005303961503585448607241732096 + p15_15 * 7331559403129590068331208687020758653624765228075687047537011123791632385370343464792392772051104864109916034360063928339045596353810784435313926666640532382851295822842678298180301122938618566718730242107326783353838221723324821405531849499257419595776
  /\ y0_0 = p8_8 + p0_0 + (p1_7 + p1_15 + p9_7 + p9_15 + p2_6 + p2_14 + p10_6 + p10_14 + p3_5 + p3_13 + p11_5 + p11_13 + p4_4 + p4_12 + p12_4 + p12_12 + p5_3 + p5_11 + p13_3 + p13_11 + p6_2 + p6_10 + p14_2 + p14_10 + p7_1 + p7_9 + p15_1 + p15_9) - (p1_7 + p2_6 + p3_5 + p4_4 + p5_3 + p6_2 + p7_1)
  /\ y1_0 = p0_0 + p0_8 + p8_0 + p8_8 - (p0_0) + p9_15 + p10_14 + p11_13 + p12_12 + p13_11 + p14_10 + p15_9 + p1_7 + p1_15 + p9_7 + p9_15 + p2_6 + p2_14 + p10_6 + p10_14 + p3_5 + p3_13 + p11_5 + p11_13 + p4_4 + p4_12 + p12_4 + p12_12 + p5_3 + p5_11 + p13_3 + p13_11 + p6_2 + p6_10 + p14_2 + p14_10 + p7_1 + p7_9 + p15_1 + p15_9
  /\ lo0 = y0_0 % 268435456
  /\ hi0 = y1_0 % 268435456
  /\ z0_0 = y0_0 \div 268435456
  /\ z1_0 = y1_0 \div 268435456
  /\ y0_1 = z0_0 + p8_9 + p9_8 + p0_1 + p1_0 + (p2_7 + p2_15 + p10_7 + p10_15 + p3_6 + p3_14 + p11_6 + p11_14 + p4_5 + p4_13 + p12_5 + p12_13 + p5_4 + p5_12 + p13_4 + p13_12 + p6_3 + p6_11 + p14_3 + p14_11 + p7_2 + p7_10 + p15_2 + p15_10) - (p2_7 + p3_6 + p4_5 + p5_4 + p6_3 + p7_2)
  /\ y1_1 = z1_0 + p0_1 + p0_9 + p8_1 + p8_9 + p1_0 + p1_8 + p9_0 + p9_8 - (p0_1 + p1_0) + p10_15 + p11_14 + p12_13 + p13_12 + p14_11 + p15_10 + p2_7 + p2_15 + p10_7 + p10_15 + p3_6 + p3_14 + p11_6 + p11_14 + p4_5 + p4_13 + p12_5 + p12_13 + p5_4 + p5_12 + p13_4 + p13_12 + p6_3 + p6_11 + p14_3 + p14_11 + p7_2 + p7_10 + p15_2 + p15_10
  /\ lo1 = y0_1 % 268435456
  /\ hi1 = y1_1 % 268435456
  /\ z0_1 = y0_1 \div 268435456
  /\ z1_1 = y1_1 \div 268435456
  /\ y0_2 = z0_1 + p8_10 + p9_9 + p10_8 + p0_2 + p1_1 + p2_0 + (p3_7 + p3_15 + p11_7 + p11_15 + p4_6 + p4_14 + p12_6 + p12_14 + p5_5 + p5_13 + p13_5 + p13_13 + p6_4 + p6_12 + p14_4 + p14_12 + p7_3 + p7_11 + p15_3 + p15_11) - (p3_7 + p4_6 + p5_5 + p6_4 + p7_3)
  /\ y1_2 = z1_1 + p0_2 + p0_10 + p8_2 + p8_10 + p1_1 + p1_9 + p9_1 + p9_9 + p2_0 + p2_8 + p10_0 + p10_8 - (p0_2 + p1_1 + p2_0) + p11_15 + p12_14 + p13_13 + p14_12 + p15_11 + p3_7 + p3_15 + p11_7 + p11_15 + p4_6 + p4_14 + p12_6 + p12_14 + p5_5 + p5_13 + p13_5 + p13_13 + p6_4 + p6_12 + p14_4 + p14_12 + p7_3 + p7_11 + p15_3 + p15_11
  /\ lo2 = y0_2 % 268435456
  /\ hi2 = y1_2 % 268435456
  /\ z0_2 = y0_2 \div 268435456
  /\ z1_2 = y1_2 \div 268435456
  /\ y0_3 = z0_2 + p8_11 + p9_10 + p10_9 + p11_8 + p0_3 + p1_2 + p2_1 + p3_0 + (p4_7 + p4_15 + p12_7 + p12_15 + p5_6 + p5_14 + p13_6 + p13_14 + p6_5 + p6_13 + p14_5 + p14_13 + p7_4 + p7_12 + p15_4 + p15_12) - (p4_7 + p5_6 + p6_5 + p7_4)
  /\ y1_3 = z1_2 + p0_3 + p0_11 + p8_3 + p8_11 + p1_2 + p1_10 + p9_2 + p9_10 + p2_1 + p2_9 + p10_1 + p10_9 + p3_0 + p3_8 + p11_0 + p11_8 - (p0_3 + p1_2 + p2_1 + p3_0) + p12_15 + p13_14 + p14_13 + p15_12 + p4_7 + p4_15 + p12_7 + p12_15 + p5_6 + p5_14 + p13_6 + p13_14 + p6_5 + p6_13 + p14_5 + p14_13 + p7_4 + p7_12 + p15_4 + p15_12
  /\ lo3 = y0_3 % 268435456
  /\ hi3 = y1_3 % 268435456
  /\ z0_3 = y0_3 \div 268435456
  /\ z1_3 = y1_3 \div 268435456
  /\ y0_4 = z0_3 + p8_12 + p9_11 + p10_10 + p11_9 + p12_8 + p0_4 + p1_3 + p2_2 + p3_1 + p4_0 + (p5_7 + p5_15 + p13_7 + p13_15 + p6_6 + p6_14 + p14_6 + p14_14 + p7_5 + p7_13 + p15_5 + p15_13) - (p5_7 + p6_6 + p7_5)
  /\ y1_4 = z1_3 + p0_4 + p0_12 + p8_4 + p8_12 + p1_3 + p1_11 + p9_3 + p9_11 + p2_2 + p2_10 + p10_2 + p10_10 + p3_1 + p3_9 + p11_1 + p11_9 + p4_0 + p4_8 + p12_0 + p12_8 - (p0_4 + p1_3 + p2_2 + p3_1 + p4_0) + p13_15 + p14_14 + p15_13 + p5_7 + p5_15 + p13_7 + p13_15 + p6_6 + p6_14 + p14_6 + p14_14 + p7_5 + p7_13 + p15_5 + p15_13
  /\ lo4 = y0_4 % 268435456
  /\ hi4 = y1_4 % 268435456
  /\ z0_4 = y0_4 \div 268435456
  /\ z1_4 = y1_4 \div 268435456
  /\ y0_5 = z0_4 + p8_13 + p9_12 + p10_11 + p11_10 + p12_9 + p13_8 + p0_5 + p1_4 + p2_3 + p3_2 + p4_1 + p5_0 + (p6_7 + p6_15 + p14_7 + p14_15 + p7_6 + p7_14 + p15_6 + p15_14) - (p6_7 + p7_6)
  /\ y1_5 = z1_4 + p0_5 + p0_13 + p8_5 + p8_13 + p1_4 + p1_12 + p9_4 + p9_12 + p2_3 + p2_11 + p10_3 + p10_11 + p3_2 + p3_10 + p11_2 + p11_10 + p4_1 + p4_9 + p12_1 + p12_9 + p5_0 + p5_8 + p13_0 + p13_8 - (p0_5 + p1_4 + p2_3 + p3_2 + p4_1 + p5_0) + p14_15 + p15_14 + p6_7 + p6_15 + p14_7 + p14_15 + p7_6 + p7_14 + p15_6 + p15_14
  /\ lo5 = y0_5 % 268435456
  /\ hi5 = y1_5 % 268435456
  /\ z0_5 = y0_5 \div 268435456
  /\ z1_5 = y1_5 \div 268435456
  /\ y0_6 = z0_5 + p8_14 + p9_13 + p10_12 + p11_11 + p12_10 + p13_9 + p14_8 + p0_6 + p1_5 + p2_4 + p3_3 + p4_2 + p5_1 + p6_0 + (p7_7 + p7_15 + p15_7 + p15_15) - (p7_7)
  /\ y1_6 = z1_5 + p0_6 + p0_14 + p8_6 + p8_14 + p1_5 + p1_13 + p9_5 + p9_13 + p2_4 + p2_12 + p10_4 + p10_12 + p3_3 + p3_11 + p11_3 + p11_11 + p4_2 + p4_10 + p12_2 + p12_10 + p5_1 + p5_9 + p13_1 + p13_9 + p6_0 + p6_8 + p14_0 + p14_8 - (p0_6 + p1_5 + p2_4 + p3_3 + p4_2 + p5_1 + p6_0) + p15_15 + p7_7 + p7_15 + p15_7 + p15_15
  /\ lo6 = y0_6 % 268435456
  /\ hi6 = y1_6 % 268435456
  /\ z0_6 = y0_6 \div 268435456
  /\ z1_6 = y1_6 \div 268435456
  /\ y0_7 = z0_6 + p8_15 + p9_14 + p10_13 + p11_12 + p12_11 + p13_10 + p14_9 + p15_8 + p0_7 + p1_6 + p2_5 + p3_4 + p4_3 + p5_2 + p6_1 + p7_0 + (0) - (0)
  /\ y1_7 = z1_6 + p0_7 + p0_15 + p8_7 + p8_15 + p1_6 + p1_14 + p9_6 + p9_14 + p2_5 + p2_13 + p10_5 + p10_13 + p3_4 + p3_12 + p11_4 + p11_12 + p4_3 + p4_11 + p12_3 + p12_11 + p5_2 + p5_10 + p13_2 + p13_10 + p6_1 + p6_9 + p14_1 + p14_9 + p7_0 + p7_8 + p15_0 + p15_8 - (p0_7 + p1_6 + p2_5 + p3_4 + p4_3 + p5_2 + p6_1 + p7_0) + 0 + 0
  /\ lo7 = y0_7 % 268435456
  /\ hi7 = y1_7 % 268435456
  /\ z0_7 = y0_7 \div 268435456
  /\ z1_7 = y1_7 \div 268435456
  /\ e0 = z0_7 + z1_7 + hi0
  /\ e1 = z1_7 + lo0
  /\ r0 = e1 % 268435456
  /\ r1 = lo1 + (e1 \div 268435456)
  /\ r2 = lo2
  /\ r3 = lo3
  /\ r4 = lo4
  /\ r5 = lo5
  /\ r6 = lo6
  /\ r7 = lo7
  /\ r8 = e0 % 268435456
  /\ r9 = hi1 + (e0 \div 268435456)
  /\ r10 = hi2
  /\ r11 = hi3
  /\ r12 = hi4
  /\ r13 = hi5
  /\ r14 = hi6
  /\ r15 = hi7
  /\ C = r0 * 1 + r1 * 268435456 + r2 * 72057594037927936 + r3 * 19342813113834066795298816 + r4 * 5192296858534827628530496329220096 + r5 * 1393796574908163946345982392040522594123776 + r6 * 374144419156711147060143317175368453031918731001856 + r7 * 100433627766186892221372630771322662657637687111424552206336 + r8 * 26959946667150639794667015087019630673637144422540572481103610249216 + r9 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + r10 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + r11 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + r12 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + r13 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + r14 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + r15 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576
  /\ Q = p8_8 * 1 + p8_9 * 268435456 + p8_10 * 72057594037927936 + p8_11 * 19342813113834066795298816 + p8_12 * 5192296858534827628530496329220096 + p8_13 * 1393796574908163946345982392040522594123776 + p8_14 * 374144419156711147060143317175368453031918731001856 + p8_15 * 100433627766186892221372630771322662657637687111424552206336 + p9_8 * 268435456 + p9_9 * 72057594037927936 + p9_10 * 19342813113834066795298816 + p9_11 * 5192296858534827628530496329220096 + p9_12 * 1393796574908163946345982392040522594123776 + p9_13 * 374144419156711147060143317175368453031918731001856 + p9_14 * 100433627766186892221372630771322662657637687111424552206336 + p9_15 * 26959946667150639794667015087019630673637144422540572481103610249216 + p10_8 * 72057594037927936 + p10_9 * 19342813113834066795298816 + p10_10 * 5192296858534827628530496329220096 + p10_11 * 1393796574908163946345982392040522594123776 + p10_12 * 374144419156711147060143317175368453031918731001856 + p10_13 * 100433627766186892221372630771322662657637687111424552206336 + p10_14 * 26959946667150639794667015087019630673637144422540572481103610249216 + p10_15 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + p11_8 * 19342813113834066795298816 + p11_9 * 5192296858534827628530496329220096 + p11_10 * 1393796574908163946345982392040522594123776 + p11_11 * 374144419156711147060143317175368453031918731001856 + p11_12 * 100433627766186892221372630771322662657637687111424552206336 + p11_13 * 26959946667150639794667015087019630673637144422540572481103610249216 + p11_14 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + p11_15 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + p12_8 * 5192296858534827628530496329220096 + p12_9 * 1393796574908163946345982392040522594123776 + p12_10 * 374144419156711147060143317175368453031918731001856 + p12_11 * 100433627766186892221372630771322662657637687111424552206336 + p12_12 * 26959946667150639794667015087019630673637144422540572481103610249216 + p12_13 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + p12_14 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + p12_15 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + p13_8 * 1393796574908163946345982392040522594123776 + p13_9 * 374144419156711147060143317175368453031918731001856 + p13_10 * 100433627766186892221372630771322662657637687111424552206336 + p13_11 * 26959946667150639794667015087019630673637144422540572481103610249216 + p13_12 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + p13_13 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + p13_14 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + p13_15 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + p14_8 * 374144419156711147060143317175368453031918731001856 + p14_9 * 100433627766186892221372630771322662657637687111424552206336 + p14_10 * 26959946667150639794667015087019630673637144422540572481103610249216 + p14_11 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + p14_12 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + p14_13 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + p14_14 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + p14_15 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + p15_8 * 100433627766186892221372630771322662657637687111424552206336 + p15_9 * 26959946667150639794667015087019630673637144422540572481103610249216 + p15_10 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + p15_11 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + p15_12 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + p15_13 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + p15_14 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + p15_15 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + p1_15 * 1 + p9_7 * 1 + p2_14 * 1 + p10_6 * 1 + p2_15 * 268435456 + p10_7 * 268435456 + p3_13 * 1 + p11_5 * 1 + p3_14 * 268435456 + p11_6 * 268435456 + p3_15 * 72057594037927936 + p11_7 * 72057594037927936 + p4_12 * 1 + p12_4 * 1 + p4_13 * 268435456 + p12_5 * 268435456 + p4_14 * 72057594037927936 + p12_6 * 72057594037927936 + p4_15 * 19342813113834066795298816 + p12_7 * 19342813113834066795298816 + p5_11 * 1 + p13_3 * 1 + p5_12 * 268435456 + p13_4 * 268435456 + p5_13 * 72057594037927936 + p13_5 * 72057594037927936 + p5_14 * 19342813113834066795298816 + p13_6 * 19342813113834066795298816 + p5_15 * 5192296858534827628530496329220096 + p13_7 * 5192296858534827628530496329220096 + p6_10 * 1 + p14_2 * 1 + p6_11 * 268435456 + p14_3 * 268435456 + p6_12 * 72057594037927936 + p14_4 * 72057594037927936 + p6_13 * 19342813113834066795298816 + p14_5 * 19342813113834066795298816 + p6_14 * 5192296858534827628530496329220096 + p14_6 * 5192296858534827628530496329220096 + p6_15 * 1393796574908163946345982392040522594123776 + p14_7 * 1393796574908163946345982392040522594123776 + p7_9 * 1 + p15_1 * 1 + p7_10 * 268435456 + p15_2 * 268435456 + p7_11 * 72057594037927936 + p15_3 * 72057594037927936 + p7_12 * 19342813113834066795298816 + p15_4 * 19342813113834066795298816 + p7_13 * 5192296858534827628530496329220096 + p15_5 * 5192296858534827628530496329220096 + p7_14 * 1393796574908163946345982392040522594123776 + p15_6 * 1393796574908163946345982392040522594123776 + p7_15 * 374144419156711147060143317175368453031918731001856 + p15_7 * 374144419156711147060143317175368453031918731001856 + p9_15 * 1 + p10_14 * 1 + p10_15 * 268435456 + p11_13 * 1 + p11_14 * 268435456 + p11_15 * 72057594037927936 + p12_12 * 1 + p12_13 * 268435456 + p12_14 * 72057594037927936 + p12_15 * 19342813113834066795298816 + p13_11 * 1 + p13_12 * 268435456 + p13_13 * 72057594037927936 + p13_14 * 19342813113834066795298816 + p13_15 * 5192296858534827628530496329220096 + p14_10 * 1 + p14_11 * 268435456 + p14_12 * 72057594037927936 + p14_13 * 19342813113834066795298816 + p14_14 * 5192296858534827628530496329220096 + p14_15 * 1393796574908163946345982392040522594123776 + p15_9 * 1 + p15_10 * 268435456 + p15_11 * 72057594037927936 + p15_12 * 19342813113834066795298816 + p15_13 * 5192296858534827628530496329220096 + p15_14 * 1393796574908163946345982392040522594123776 + p15_15 * 374144419156711147060143317175368453031918731001856 + z1_7
Next == UNCHANGED <<p0_0, p0_1, p0_2, p0_3, p0_4, p0_5, p0_6, p0_7, p0_8, p0_9, p0_10, p0_11, p0_12, p0_13, p0_14, p0_15, p1_0, p1_1, p1_2, p1_3, p1_4, p1_5, p1_6, p1_7, p1_8, p1_9, p1_10, p1_11, p1_12, p1_13, p1_14, p1_15, p2_0, p2_1, p2_2, p2_3, p2_4, p2_5, p2_6, p2_7, p2_8, p2_9, p2_10, p2_11, p2_12, p2_13, p2_14, p2_15, p3_0, p3_1, p3_2, p3_3, p3_4, p3_5, p3_6, p3_7, p3_8, p3_9, p3_10, p3_11, p3_12, p3_13, p3_14, p3_15, p4_0, p4_1, p4_2, p4_3, p4_4, p4_5, p4_6, p4_7, p4_8, p4_9, p4_10, p4_11, p4_12, p4_13, p4_14, p4_15, p5_0, p5_1, p5_2, p5_3, p5_4, p5_5, p5_6, p5_7, p5_8, p5_9, p5_10, p5_11, p5_12, p5_13, p5_14, p5_15, p6_0, p6_1, p6_2, p6_3, p6_4, p6_5, p6_6, p6_7, p6_8, p6_9, p6_10, p6_11, p6_12, p6_13, p6_14, p6_15, p7_0, p7_1, p7_2, p7_3, p7_4, p7_5, p7_6, p7_7, p7_8, p7_9, p7_10, p7_11, p7_12, p7_13, p7_14, p7_15, p8_0, p8_1, p8_2, p8_3, p8_4, p8_5, p8_6, p8_7, p8_8, p8_9, p8_10, p8_11, p8_12, p8_13, p8_14, p8_15, p9_0, p9_1, p9_2, p9_3, p9_4, p9_5, p9_6, p9_7, p9_8, p9_9, p9_10, p9_11, p9_12, p9_13, p9_14, p9_15, p10_0, p10_1, p10_2, p10_3, p10_4, p10_5, p10_6, p10_7, p10_8, p10_9, p10_10, p10_11, p10_12, p10_13, p10_14, p10_15, p11_0, p11_1, p11_2, p11_3, p11_4, p11_5, p11_6, p11_7, p11_8, p11_9, p11_10, p11_11, p11_12, p11_13, p11_14, p11_15, p12_0, p12_1, p12_2, p12_3, p12_4, p12_5, p12_6, p12_7, p12_8, p12_9, p12_10, p12_11, p12_12, p12_13, p12_14, p12_15, p13_0, p13_1, p13_2, p13_3, p13_4, p13_5, p13_6, p13_7, p13_8, p13_9, p13_10, p13_11, p13_12, p13_13, p13_14, p13_15, p14_0, p14_1, p14_2, p14_3, p14_4, p14_5, p14_6, p14_7, p14_8, p14_9, p14_10, p14_11, p14_12, p14_13, p14_14, p14_15, p15_0, p15_1, p15_2, p15_3, p15_4, p15_5, p15_6, p15_7, p15_8, p15_9, p15_10, p15_11, p15_12, p15_13, p15_14, p15_15, AB, y0_0, y1_0, lo0, hi0, z0_0, z1_0, y0_1, y1_1, lo1, hi1, z0_1, z1_1, y0_2, y1_2, lo2, hi2, z0_2, z1_2, y0_3, y1_3, lo3, hi3, z0_3, z1_3, y0_4, y1_4, lo4, hi4, z0_4, z1_4, y0_5, y1_5, lo5, hi5, z0_5, z1_5, y0_6, y1_6, lo6, hi6, z0_6, z1_6, y0_7, y1_7, lo7, hi7, z0_7, z1_7, e0, e1, r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, C, Q>>
Exact == C = AB - Q * 726838724295606890549323807888004534353641360687318060281490199180612328166730772686396383698676545930088884461843637361053498018365439
Fits == 0 <= r0 /\ r0 < 268435546 /\ 0 <= r1 /\ r1 < 268435546 /\ 0 <= r2 /\ r2 < 268435546 /\ 0 <= r3 /\ r3 < 268435546 /\ 0 <= r4 /\ r4 < 268435546 /\ 0 <= r5 /\ r5 < 268435546 /\ 0 <= r6 /\ r6 < 268435546 /\ 0 <= r7 /\ r7 < 268435546 /\ 0 <= r8 /\ r8 < 268435546 /\ 0 <= r9 /\ r9 < 268435546 /\ 0 <= r10 /\ r10 < 268435546 /\ 0 <= r11 /\ r11 < 268435546 /\ 0 <= r12 /\ r12 < 268435546 /\ 0 <= r13 /\ r13 < 268435546 /\ 0 <= r14 /\ r14 < 268435546 /\ 0 <= r15 /\ r15 < 268435546
Wide == y0_0 < 18446744073709551616 /\ y1_0 < 18446744073709551616 /\ y0_0 > -9223372036854775808 /\ y1_0 > -9223372036854775808 /\ y0_1 < 18446744073709551616 /\ y1_1 < 18446744073709551616 /\ y0_1 > -9223372036854775808 /\ y1_1 > -9223372036854775808 /\ y0_2 < 18446744073709551616 /\ y1_2 < 18446744073709551616 /\ y0_2 > -9223372036854775808 /\ y1_2 > -9223372036854775808 /\ y0_3 < 18446744073709551616 /\ y1_3 < 18446744073709551616 /\ y0_3 > -9223372036854775808 /\ y1_3 > -9223372036854775808 /\ y0_4 < 18446744073709551616 /\ y1_4 < 18446744073709551616 /\ y0_4 > -9223372036854775808 /\ y1_4 > -9223372036854775808 /\ y0_5 < 18446744073709551616 /\ y1_5 < 18446744073709551616 /\ y0_5 > -9223372036854775808 /\ y1_5 > -9223372036854775808 /\ y0_6 < 18446744073709551616 /\ y1_6 < 18446744073709551616 /\ y0_6 > -9223372036854775808 /\ y1_6 > -9223372036854775808 /\ y0_7 < 18446744073709551616 /\ y1_7 < 18446744073709551616 /\ y0_7 > -9223372036854775808 /\ y1_7 > -9223372036854775808
\* to be refuted: that there are no operands
Empty == FALSE
====
