---- MODULE RealRadix ----
(* field/scalar.rs: to_radix_16, on scalars below 2^446 (a scalar divided by four)
   Written by driver/real.py. *)
EXTENDS Integers
VARIABLES
  \* @type: Int;
  n0,
  \* @type: Int;
  n1,
  \* @type: Int;
  n2,
  \* @type: Int;
  n3,
  \* @type: Int;
  n4,
  \* @type: Int;
  n5,
  \* @type: Int;
  n6,
  \* @type: Int;
  n7,
  \* @type: Int;
  n8,
  \* @type: Int;
  n9,
  \* @type: Int;
  n10,
  \* @type: Int;
  n11,
  \* @type: Int;
  n12,
  \* @type: Int;
  n13,
  \* @type: Int;
  n14,
  \* @type: Int;
  n15,
  \* @type: Int;
  n16,
  \* @type: Int;
  n17,
  \* @type: Int;
  n18,
  \* @type: Int;
  n19,
  \* @type: Int;
  n20,
  \* @type: Int;
  n21,
  \* @type: Int;
  n22,
  \* @type: Int;
  n23,
  \* @type: Int;
  n24,
  \* @type: Int;
  n25,
  \* @type: Int;
  n26,
  \* @type: Int;
  n27,
  \* @type: Int;
  n28,
  \* @type: Int;
  n29,
  \* @type: Int;
  n30,
  \* @type: Int;
  n31,
  \* @type: Int;
  n32,
  \* @type: Int;
  n33,
  \* @type: Int;
  n34,
  \* @type: Int;
  n35,
  \* @type: Int;
  n36,
  \* @type: Int;
  n37,
  \* @type: Int;
  n38,
  \* @type: Int;
  n39,
  \* @type: Int;
  n40,
  \* @type: Int;
  n41,
  \* @type: Int;
  n42,
  \* @type: Int;
  n43,
  \* @type: Int;
  n44,
  \* @type: Int;
  n45,
  \* @type: Int;
  n46,
  \* @type: Int;
  n47,
  \* @type: Int;
  n48,
  \* @type: Int;
  n49,
  \* @type: Int;
  n50,
  \* @type: Int;
  n51,
  \* @type: Int;
  n52,
  \* @type: Int;
  n53,
  \* @type: Int;
  n54,
  \* @type: Int;
  n55,
  \* @type: Int;
  n56,
  \* @type: Int;
  n57,
  \* @type: Int;
  n58,
  \* @type: Int;
  n59,
  \* @type: Int;
  n60,
  \* @type: Int;
  n61,
  \* @type: Int;
  n62,
  \* @type: Int;
  n63,
  \* @type: Int;
  n64,
  \* @type: Int;
  n65,
  \* @type: Int;
  n66,
  \* @type: Int;
  n67,
  \* @type: Int;
  n68,
  \* @type: Int;
  n69,
  \* @type: Int;
  n70,
  \* @type: Int;
  n71,
  \* @type: Int;
  n72,
  \* @type: Int;
  n73,
  \* @type: Int;
  n74,
  \* @type: Int;
  n75,
  \* @type: Int;
  n76,
  \* @type: Int;
  n77,
  \* @type: Int;
  n78,
  \* @type: Int;
  n79,
  \* @type: Int;
  n80,
  \* @type: Int;
  n81,
  \* @type: Int;
  n82,
  \* @type: Int;
  n83,
  \* @type: Int;
  n84,
  \* @type: Int;
  n85,
  \* @type: Int;
  n86,
  \* @type: Int;
  n87,
  \* @type: Int;
  n88,
  \* @type: Int;
  n89,
  \* @type: Int;
  n90,
  \* @type: Int;
  n91,
  \* @type: Int;
  n92,
  \* @type: Int;
  n93,
  \* @type: Int;
  n94,
  \* @type: Int;
  n95,
  \* @type: Int;
  n96,
  \* @type: Int;
  n97,
  \* @type: Int;
  n98,
  \* @type: Int;
  n99,
  \* @type: Int;
  n100,
  \* @type: Int;
  n101,
  \* @type: Int;
  n102,
  \* @type: Int;
  n103,
  \* @type: Int;
  n104,
  \* @type: Int;
  n105,
  \* @type: Int;
  n106,
  \* @type: Int;
  n107,
  \* @type: Int;
  n108,
  \* @type: Int;
  n109,
  \* @type: Int;
  n110,
  \* @type: Int;
  n111,
  \* @type: Int;
  A,
  \* @type: Int;
  t0,
  \* @type: Int;
  c0,
  \* @type: Int;
  o0,
  \* @type: Int;
  t1,
  \* @type: Int;
  c1,
  \* @type: Int;
  o1,
  \* @type: Int;
  t2,
  \* @type: Int;
  c2,
  \* @type: Int;
  o2,
  \* @type: Int;
  t3,
  \* @type: Int;
  c3,
  \* @type: Int;
  o3,
  \* @type: Int;
  t4,
  \* @type: Int;
  c4,
  \* @type: Int;
  o4,
  \* @type: Int;
  t5,
  \* @type: Int;
  c5,
  \* @type: Int;
  o5,
  \* @type: Int;
  t6,
  \* @type: Int;
  c6,
  \* @type: Int;
  o6,
  \* @type: Int;
  t7,
  \* @type: Int;
  c7,
  \* @type: Int;
  o7,
  \* @type: Int;
  t8,
  \* @type: Int;
  c8,
  \* @type: Int;
  o8,
  \* @type: Int;
  t9,
  \* @type: Int;
  c9,
  \* @type: Int;
  o9,
  \* @type: Int;
  t10,
  \* @type: Int;
  c10,
  \* @type: Int;
  o10,
  \* @type: Int;
  t11,
  \* @type: Int;
  c11,
  \* @type: Int;
  o11,
  \* @type: Int;
  t12,
  \* @type: Int;
  c12,
  \* @type: Int;
  o12,
  \* @type: Int;
  t13,
  \* @type: Int;
  c13,
  \* @type: Int;
  o13,
  \* @type: Int;
  t14,
  \* @type: Int;
  c14,
  \* @type: Int;
  o14,
  \* @type: Int;
  t15,
  \* @type: Int;
  c15,
  \* @type: Int;
  o15,
  \* @type: Int;
  t16,
  \* @type: Int;
  c16,
  \* @type: Int;
  o16,
  \* @type: Int;
  t17,
  \* @type: Int;
  c17,
  \* @type: Int;
  o17,
  \* @type: Int;
  t18,
  \* @type: Int;
  c18,
  \* @type: Int;
  o18,
  \* @type: Int;
  t19,
  \* @type: Int;
  c19,
  \* @type: Int;
  o19,
  \* @type: Int;
  t20,
  \* @type: Int;
  c20,
  \* @type: Int;
  o20,
  \* @type: Int;
  t21,
  \* @type: Int;
  c21,
  \* @type: Int;
  o21,
  \* @type: Int;
  t22,
  \* @type: Int;
  c22,
  \* @type: Int;
  o22,
  \* @type: Int;
  t23,
  \* @type: Int;
  c23,
  \* @type: Int;
  o23,
  \* @type: Int;
  t24,
  \* @type: Int;
  c24,
  \* @type: Int;
  o24,
  \* @type: Int;
  t25,
  \* @type: Int;
  c25,
  \* @type: Int;
  o25,
  \* @type: Int;
  t26,
  \* @type: Int;
  c26,
  \* @type: Int;
  o26,
  \* @type: Int;
  t27,
  \* @type: Int;
  c27,
  \* @type: Int;
  o27,
  \* @type: Int;
  t28,
  \* @type: Int;
  c28,
  \* @type: Int;
  o28,
  \* @type: Int;
  t29,
  \* @type: Int;
  c29,
  \* @type: Int;
  o29,
  \* @type: Int;
  t30,
  \* @type: Int;
  c30,
  \* @type: Int;
  o30,
  \* @type: Int;
  t31,
  \* @type: Int;
  c31,
  \* @type: Int;
  o31,
  \* @type: Int;
  t32,
  \* @type: Int;
  c32,
  \* @type: Int;
  o32,
  \* @type: Int;
  t33,
  \* @type: Int;
  c33,
  \* @type: Int;
  o33,
  \* @type: Int;
  t34,
  \* @type: Int;
  c34,
  \* @type: Int;
  o34,
  \* @type: Int;
  t35,
  \* @type: Int;
  c35,
  \* @type: Int;
  o35,
  \* @type: Int;
  t36,
  \* @type: Int;
  c36,
  \* @type: Int;
  o36,
  \* @type: Int;
  t37,
  \* @type: Int;
  c37,
  \* @type: Int;
  o37,
  \* @type: Int;
  t38,
  \* @type: Int;
  c38,
  \* @type: Int;
  o38,
  \* @type: Int;
  t39,
  \* @type: Int;
  c39,
  \* @type: Int;
  o39,
  \* @type: Int;
  t40,
  \* @type: Int;
  c40,
  \* @type: Int;
  o40,
  \* @type: Int;
  t41,
  \* @type: Int;
  c41,
  \* @type: Int;
  o41,
  \* @type: Int;
  t42,
  \* @type: Int;
  c42,
  \* @type: Int;
  o42,
  \* @type: Int;
  t43,
  \* @type: Int;
  c43,
  \* @type: Int;
  o43,
  \* @type: Int;
  t44,
  \* @type: Int;
  c44,
  \* @type: Int;
  o44,
  \* @type: Int;
  t45,
  \* @type: Int;
  c45,
  \* @type: Int;
  o45,
  \* @type: Int;
  t46,
  \* @type: Int;
  c46,
  \* @type: Int;
  o46,
  \* @type: Int;
  t47,
  \* @type: Int;
  c47,
  \* @type: Int;
  o47,
  \* @type: Int;
  t48,
  \* @type: Int;
  c48,
  \* @type: Int;
  o48,
  \* @type: Int;
  t49,
  \* @type: Int;
  c49,
  \* @type: Int;
  o49,
  \* @type: Int;
  t50,
  \* @type: Int;
  c50,
  \* @type: Int;
  o50,
  \* @type: Int;
  t51,
  \* @type: Int;
  c51,
  \* @type: Int;
  o51,
  \* @type: Int;
  t52,
  \* @type: Int;
  c52,
  \* @type: Int;
  o52,
  \* @type: Int;
  t53,
  \* @type: Int;
  c53,
  \* @type: Int;
  o53,
  \* @type: Int;
  t54,
  \* @type: Int;
  c54,
  \* @type: Int;
  o54,
  \* @type: Int;
  t55,
  \* @type: Int;
  c55,
  \* @type: Int;
  o55,
  \* @type: Int;
  t56,
  \* @type: Int;
  c56,
  \* @type: Int;
  o56,
  \* @type: Int;
  t57,
  \* @type: Int;
  c57,
  \* @type: Int;
  o57,
  \* @type: Int;
  t58,
  \* @type: Int;
  c58,
  \* @type: Int;
  o58,
  \* @type: Int;
  t59,
  \* @type: Int;
  c59,
  \* @type: Int;
  o59,
  \* @type: Int;
  t60,
  \* @type: Int;
  c60,
  \* @type: Int;
  o60,
  \* @type: Int;
  t61,
  \* @type: Int;
  c61,
  \* @type: Int;
  o61,
  \* @type: Int;
  t62,
  \* @type: Int;
  c62,
  \* @type: Int;
  o62,
  \* @type: Int;
  t63,
  \* @type: Int;
  c63,
  \* @type: Int;
  o63,
  \* @type: Int;
  t64,
  \* @type: Int;
  c64,
  \* @type: Int;
  o64,
  \* @type: Int;
  t65,
  \* @type: Int;
  c65,
  \* @type: Int;
  o65,
  \* @type: Int;
  t66,
  \* @type: Int;
  c66,
  \* @type: Int;
  o66,
  \* @type: Int;
  t67,
  \* @type: Int;
  c67,
  \* @type: Int;
  o67,
  \* @type: Int;
  t68,
  \* @type: Int;
  c68,
  \* @type: Int;
  o68,
  \* @type: Int;
  t69,
  \* @type: Int;
  c69,
  \* @type: Int;
  o69,
  \* @type: Int;
  t70,
  \* @type: Int;
  c70,
  \* @type: Int;
  o70,
  \* @type: Int;
  t71,
  \* @type: Int;
  c71,
  \* @type: Int;
  o71,
  \* @type: Int;
  t72,
  \* @type: Int;
  c72,
  \* @type: Int;
  o72,
  \* @type: Int;
  t73,
  \* @type: Int;
  c73,
  \* @type: Int;
  o73,
  \* @type: Int;
  t74,
  \* @type: Int;
  c74,
  \* @type: Int;
  o74,
  \* @type: Int;
  t75,
  \* @type: Int;
  c75,
  \* @type: Int;
  o75,
  \* @type: Int;
  t76,
  \* @type: Int;
  c76,
  \* @type: Int;
  o76,
  \* @type: Int;
  t77,
  \* @type: Int;
  c77,
  \* @type: Int;
  o77,
  \* @type: Int;
  t78,
  \* @type: Int;
  c78,
  \* @type: Int;
  o78,
  \* @type: Int;
  t79,
  \* @type: Int;
  c79,
  \* @type: Int;
  o79,
  \* @type: Int;
  t80,
  \* @type: Int;
  c80,
  \* @type: Int;
  o80,
  \* @type: Int;
  t81,
  \* @type: Int;
  c81,
  \* @type: Int;
  o81,
  \* @type: Int;
  t82,
  \* @type: Int;
  c82,
  \* @type: Int;
  o82,
  \* @type: Int;
  t83,
  \* @type: Int;
  c83,
  \* @type: Int;
  o83,
  \* @type: Int;
  t84,
  \* @type: Int;
  c84,
  \* @type: Int;
  o84,
  \* @type: Int;
  t85,
  \* @type: Int;
  c85,
  \* @type: Int;
  o85,
  \* @type: Int;
  t86,
  \* @type: Int;
  c86,
  \* @type: Int;
  o86,
  \* @type: Int;
  t87,
  \* @type: Int;
  c87,
  \* @type: Int;
  o87,
  \* @type: Int;
  t88,
  \* @type: Int;
  c88,
  \* @type: Int;
  o88,
  \* @type: Int;
  t89,
  \* @type: Int;
  c89,
  \* @type: Int;
  o89,
  \* @type: Int;
  t90,
  \* @type: Int;
  c90,
  \* @type: Int;
  o90,
  \* @type: Int;
  t91,
  \* @type: Int;
  c91,
  \* @type: Int;
  o91,
  \* @type: Int;
  t92,
  \* @type: Int;
  c92,
  \* @type: Int;
  o92,
  \* @type: Int;
  t93,
  \* @type: Int;
  c93,
  \* @type: Int;
  o93,
  \* @type: Int;
  t94,
  \* @type: Int;
  c94,
  \* @type: Int;
  o94,
  \* @type: Int;
  t95,
  \* @type: Int;
  c95,
  \* @type: Int;
  o95,
  \* @type: Int;
  t96,
  \* @type: Int;
  c96,
  \* @type: Int;
  o96,
  \* @type: Int;
  t97,
  \* @type: Int;
  c97,
  \* @type: Int;
  o97,
  \* @type: Int;
  t98,
  \* @type: Int;
  c98,
  \* @type: Int;
  o98,
  \* @type: Int;
  t99,
  \* @type: Int;
  c99,
  \* @type: Int;
  o99,
  \* @type: Int;
  t100,
  \* @type: Int;
  c100,
  \* @type: Int;
  o100,
  \* @type: Int;
  t101,
  \* @type: Int;
  c101,
  \* @type: Int;
  o101,
  \* @type: Int;
  t102,
  \* @type: Int;
  c102,
  \* @type: Int;
  o102,
  \* @type: Int;
  t103,
  \* @type: Int;
  c103,
  \* @type: Int;
  o103,
  \* @type: Int;
  t104,
  \* @type: Int;
  c104,
  \* @type: Int;
  o104,
  \* @type: Int;
  t105,
  \* @type: Int;
  c105,
  \* @type: Int;
  o105,
  \* @type: Int;
  t106,
  \* @type: Int;
  c106,
  \* @type: Int;
  o106,
  \* @type: Int;
  t107,
  \* @type: Int;
  c107,
  \* @type: Int;
  o107,
  \* @type: Int;
  t108,
  \* @type: Int;
  c108,
  \* @type: Int;
  o108,
  \* @type: Int;
  t109,
  \* @type: Int;
  c109,
  \* @type: Int;
  o109,
  \* @type: Int;
  t110,
  \* @type: Int;
  c110,
  \* @type: Int;
  o110,
  \* @type: Int;
  t111,
  \* @type: Int;
  c111,
  \* @type: Int;
  o111,
  \* @type: Int;
  R
Init ==
  /\ n0 \in Int /\ 0 <= n0 /\ n0 < 16
  /\ n1 \in Int /\ 0 <= n1 /\ n1 < 16
  /\ n2 \in Int /\ 0 <= n2 /\ n2 < 16
  /\ n3 \in Int /\ 0 <= n3 /\ n3 < 16
  /\ n4 \in Int /\ 0 <= n4 /\ n4 < 16
  /\ n5 \in Int /\ 0 <= n5 /\ n5 < 16
  /\ n6 \in Int /\ 0 <= n6 /\ n6 < 16
  /\ n7 \in Int /\ 0 <= n7 /\ n7 < 16
  /\ n8 \in Int /\ 0 <= n8 /\ n8 < 16
  /\ n9 \in Int /\ 0 <= n9 /\ n9 < 16
  /\ n10 \in Int /\ 0 <= n10 /\ n10 < 16
  /\ n11 \in Int /\ 0 <= n11 /\ n11 < 16
  /\ n12 \in Int /\ 0 <= n12 /\ n12 < 16
  /\ n13 \in Int /\ 0 <= n13 /\ n13 < 16
  /\ n14 \in Int /\ 0 <= n14 /\ n14 < 16
  /\ n15 \in Int /\ 0 <= n15 /\ n15 < 16
  /\ n16 \in Int /\ 0 <= n16 /\ n16 < 16
  /\ n17 \in Int /\ 0 <= n17 /\ n17 < 16
  /\ n18 \in Int /\ 0 <= n18 /\ n18 < 16
  /\ n19 \in Int /\ 0 <= n19 /\ n19 < 16
  /\ n20 \in Int /\ 0 <= n20 /\ n20 < 16
  /\ n21 \in Int /\ 0 <= n21 /\ n21 < 16
  /\ n22 \in Int /\ 0 <= n22 /\ n22 < 16
  /\ n23 \in Int /\ 0 <= n23 /\ n23 < 16
  /\ n24 \in Int /\ 0 <= n24 /\ n24 < 16
  /\ n25 \in Int /\ 0 <= n25 /\ n25 < 16
  /\ n26 \in Int /\ 0 <= n26 /\ n26 < 16
  /\ n27 \in Int /\ 0 <= n27 /\ n27 < 16
  /\ n28 \in Int /\ 0 <= n28 /\ n28 < 16
  /\ n29 \in Int /\ 0 <= n29 /\ n29 < 16
  /\ n30 \in Int /\ 0 <= n30 /\ n30 < 16
  /\ n31 \in Int /\ 0 <= n31 /\ n31 < 16
  /\ n32 \in Int /\ 0 <= n32 /\ n32 < 16
  /\ n33 \in Int /\ 0 <= n33 /\ n33 < 16
  /\ n34 \in Int /\ 0 <= n34 /\ n34 < 16
  /\ n35 \in Int /\ 0 <= n35 /\ n35 < 16
  /\ n36 \in Int /\ 0 <= n36 /\ n36 < 16
  /\ n37 \in Int /\ 0 <= n37 /\ n37 < 16
  /\ n38 \in Int /\ 0 <= n38 /\ n38 < 16
  /\ n39 \in Int /\ 0 <= n39 /\ n39 < 16
  /\ n40 \in Int /\ 0 <= n40 /\ n40 < 16
  /\ n41 \in Int /\ 0 <= n41 /\ n41 < 16
  /\ n42 \in Int /\ 0 <= n42 /\ n42 < 16
  /\ n43 \in Int /\ 0 <= n43 /\ n43 < 16
  /\ n44 \in Int /\ 0 <= n44 /\ n44 < 16
  /\ n45 \in Int /\ 0 <= n45 /\ n45 < 16
  /\ n46 \in Int /\ 0 <= n46 /\ n46 < 16
  /\ n47 \in Int /\ 0 <= n47 /\ n47 < 16
  /\ n48 \in Int /\ 0 <= n48 /\ n48 < 16
  /\ n49 \in Int /\ 0 <= n49 /\ n49 < 16
  /\ n50 \in Int /\ 0 <= n50 /\ n50 < 16
  /\ n51 \in Int /\ 0 <= n51 /\ n51 < 16
  /\ n52 \in Int /\ 0 <= n52 /\ n52 < 16
  /\ n53 \in Int /\ 0 <= n53 /\ n53 < 16
  /\ n54 \in Int /\ 0 <= n54 /\ n54 < 16
  /\ n55 \in Int /\ 0 <= n55 /\ n55 < 16
  /\ n56 \in Int /\ 0 <= n56 /\ n56 < 16
  /\ n57 \in Int /\ 0 <= n57 /\ n57 < 16
  /\ n58 \in Int /\ 0 <= n58 /\ n58 < 16
  /\ n59 \in Int /\ 0 <= n59 /\ n59 < 16
  /\ n60 \in Int /\ 0 <= n60 /\ n60 < 16
  /\ n61 \in Int /\ 0 <= n61 /\ n61 < 16
  /\ n62 \in Int /\ 0 <= n62 /\ n62 < 16
  /\ n63 \in Int /\ 0 <= n63 /\ n63 < 16
  /\ n64 \in Int /\ 0 <= n64 /\ n64 < 16
  /\ n65 \in Int /\ 0 <= n65 /\ n65 < 16
  /\ n66 \in Int /\ 0 <= n66 /\ n66 < 16
  /\ n67 \in Int /\ 0 <= n67 /\ n67 < 16
  /\ n68 \in Int /\ 0 <= n68 /\ n68 < 16
  /\ n69 \in Int /\ 0 <= n69 /\ n69 < 16
  /\ n70 \in Int /\ 0 <= n70 /\ n70 < 16
  /\ n71 \in Int /\ 0 <= n71 /\ n71 < 16
  /\ n72 \in Int /\ 0 <= n72 /\ n72 < 16
  /\ n73 \in Int /\ 0 <= n73 /\ n73 < 16
  /\ n74 \in Int /\ 0 <= n74 /\ n74 < 16
  /\ n75 \in Int /\ 0 <= n75 /\ n75 < 16
  /\ n76 \in Int /\ 0 <= n76 /\ n76 < 16
  /\ n77 \in Int /\ 0 <= n77 /\ n77 < 16
  /\ n78 \in Int /\ 0 <= n78 /\ n78 < 16
  /\ n79 \in Int /\ 0 <= n79 /\ n79 < 16
  /\ n80 \in Int /\ 0 <= n80 /\ n80 < 16
  /\ n81 \in Int /\ 0 <= n81 /\ n81 < 16
  /\ n82 \in Int /\ 0 <= n82 /\ n82 < 16
  /\ n83 \in Int /\ 0 <= n83 /\ n83 < 16
  /\ n84 \in Int /\ 0 <= n84 /\ n84 < 16
  /\ n85 \in Int /\ 0 <= n85 /\ n85 < 16
  /\ n86 \in Int /\ 0 <= n86 /\ n86 < 16
  /\ n87 \in Int /\ 0 <= n87 /\ n87 < 16
  /\ n88 \in Int /\ 0 <= n88 /\ n88 < 16
  /\ n89 \in Int /\ 0 <= n89 /\ n89 < 16
  /\ n90 \in Int /\ 0 <= n90 /\ n90 < 16
  /\ n91 \in Int /\ 0 <= n91 /\ n91 < 16
  /\ n92 \in Int /\ 0 <= n92 /\ n92 < 16
  /\ n93 \in Int /\ 0 <= n93 /\ n93 < 16
  /\ n94 \in Int /\ 0 <= n94 /\ n94 < 16
  /\ n95 \in Int /\ 0 <= n95 /\ n95 < 16
  /\ n96 \in Int /\ 0 <= n96 /\ n96 < 16
  /\ n97 \in Int /\ 0 <= n97 /\ n97 < 16
  /\ n98 \in Int /\ 0 <= n98 /\ n98 < 16
  /\ n99 \in Int /\ 0 <= n99 /\ n99 < 16
  /\ n100 \in Int /\ 0 <= n100 /\ n100 < 16
  /\ n101 \in Int /\ 0 <= n101 /\ n101 < 16
  /\ n102 \in Int /\ 0 <= n102 /\ n102 < 16
  /\ n103 \in Int /\ 0 <= n103 /\ n103 < 16
  /\ n104 \in Int /\ 0 <= n104 /\ n104 < 16
  /\ n105 \in Int /\ 0 <= n105 /\ n105 < 16
  /\ n106 \in Int /\ 0 <= n106 /\ n106 < 16
  /\ n107 \in Int /\ 0 <= n107 /\ n107 < 16
  /\ n108 \in Int /\ 0 <= n108 /\ n108 < 16
  /\ n109 \in Int /\ 0 <= n109 /\ n109 < 16
  /\ n110 \in Int /\ 0 <= n110 /\ n110 < 16
  /\ n111 \in Int /\ 0 <= n111 /\ n111 < 16
  /\ n111 < 4
  /\ A = n0 * 1 + n1 * 16 + n2 * 256 + n3 * 4096 + n4 * 65536 + n5 * 1048576 + n6 * 16777216 + n7 * 268435456 + n8 * 4294967296 + n9 * 68719476736 + n10 * 1099511627776 + n11 * 17592186044416 + n12 * 281474976710656 + n13 * 4503599627370496 + n14 * 72057594037927936 + n15 * 1152921504606846976 + n16 * 18446744073709551616 + n17 * 295147905179352825856 + n18 * 4722366482869645213696 + n19 * 75557863725914323419136 + n20 * 1208925819614629174706176 + n21 * 19342813113834066795298816 + n22 * 309485009821345068724781056 + n23 * 4951760157141521099596496896 + n24 * 79228162514264337593543950336 + n25 * 1267650600228229401496703205376 + n26 * 20282409603651670423947251286016 + n27 * 324518553658426726783156020576256 + n28 * 5192296858534827628530496329220096 + n29 * 83076749736557242056487941267521536 + n30 * 1329227995784915872903807060280344576 + n31 * 21267647932558653966460912964485513216 + n32 * 340282366920938463463374607431768211456 + n33 * 5444517870735015415413993718908291383296 + n34 * 87112285931760246646623899502532662132736 + n35 * 1393796574908163946345982392040522594123776 + n36 * 22300745198530623141535718272648361505980416 + n37 * 356811923176489970264571492362373784095686656 + n38 * 5708990770823839524233143877797980545530986496 + n39 * 91343852333181432387730302044767688728495783936 + n40 * 1461501637330902918203684832716283019655932542976 + n41 * 23384026197294446691258957323460528314494920687616 + n42 * 374144419156711147060143317175368453031918731001856 + n43 * 5986310706507378352962293074805895248510699696029696 + n44 * 95780971304118053647396689196894323976171195136475136 + n45 * 1532495540865888858358347027150309183618739122183602176 + n46 * 24519928653854221733733552434404946937899825954937634816 + n47 * 392318858461667547739736838950479151006397215279002157056 + n48 * 6277101735386680763835789423207666416102355444464034512896 + n49 * 100433627766186892221372630771322662657637687111424552206336 + n50 * 1606938044258990275541962092341162602522202993782792835301376 + n51 * 25711008708143844408671393477458601640355247900524685364822016 + n52 * 411376139330301510538742295639337626245683966408394965837152256 + n53 * 6582018229284824168619876730229402019930943462534319453394436096 + n54 * 105312291668557186697918027683670432318895095400549111254310977536 + n55 * 1684996666696914987166688442938726917102321526408785780068975640576 + n56 * 26959946667150639794667015087019630673637144422540572481103610249216 + n57 * 431359146674410236714672241392314090778194310760649159697657763987456 + n58 * 6901746346790563787434755862277025452451108972170386555162524223799296 + n59 * 110427941548649020598956093796432407239217743554726184882600387580788736 + n60 * 1766847064778384329583297500742918515827483896875618958121606201292619776 + n61 * 28269553036454149273332760011886696253239742350009903329945699220681916416 + n62 * 452312848583266388373324160190187140051835877600158453279131187530910662656 + n63 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + n64 * 115792089237316195423570985008687907853269984665640564039457584007913129639936 + n65 * 1852673427797059126777135760139006525652319754650249024631321344126610074238976 + n66 * 29642774844752946028434172162224104410437116074403984394101141506025761187823616 + n67 * 474284397516047136454946754595585670566993857190463750305618264096412179005177856 + n68 * 7588550360256754183279148073529370729071901715047420004889892225542594864082845696 + n69 * 121416805764108066932466369176469931665150427440758720078238275608681517825325531136 + n70 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + n71 * 31082702275611665134711390509176302506278509424834232340028998555822468563283335970816 + n72 * 497323236409786642155382248146820840100456150797347717440463976893159497012533375533056 + n73 * 7957171782556586274486115970349133441607298412757563479047423630290551952200534008528896 + n74 * 127314748520905380391777855525586135065716774604121015664758778084648831235208544136462336 + n75 * 2037035976334486086268445688409378161051468393665936250636140449354381299763336706183397376 + n76 * 32592575621351777380295131014550050576823494298654980010178247189670100796213387298934358016 + n77 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + n78 * 8343699359066055009355553539724812947666814540455674882605631280555545803830627148527195652096 + n79 * 133499189745056880149688856635597007162669032647290798121690100488888732861290034376435130433536 + n80 * 2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576 + n81 * 34175792574734561318320347298712833833643272357706444319152665725155515612490248800367393390985216 + n82 * 546812681195752981093125556779405341338292357723303109106442651602488249799843980805878294255763456 + n83 * 8749002899132047697490008908470485461412677723572849745703082425639811996797503692894052708092215296 + n84 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + n85 * 2239744742177804210557442280568444278121645497234649534899989100963791871180160945380877493271607115776 + n86 * 35835915874844867368919076489095108449946327955754392558399825615420669938882575126094039892345713852416 + n87 * 573374653997517877902705223825521735199141247292070280934397209846730719022121202017504638277531421638656 + n88 * 9173994463960286046443283581208347763186259956673124494950355357547691504353939232280074212440502746218496 + n89 * 146783911423364576743092537299333564210980159306769991919205685720763064069663027716481187399048043939495936 + n90 * 2348542582773833227889480596789337027375682548908319870707290971532209025114608443463698998384768703031934976 + n91 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + n92 * 601226901190101306339707032778070279008174732520529886901066488712245510429339761526706943586500787976175353856 + n93 * 9619630419041620901435312524449124464130795720328478190417063819395928166869436184427311097384012607618805661696 + n94 * 153914086704665934422965000391185991426092731525255651046673021110334850669910978950836977558144201721900890587136 + n95 * 2462625387274654950767440006258975862817483704404090416746768337765357610718575663213391640930307227550414249394176 + n96 * 39402006196394479212279040100143613805079739270465446667948293404245721771497210611414266254884915640806627990306816 + n97 * 630432099142311667396464641602297820881275828327447146687172694467931548343955369782628260078158650252906047844909056 + n98 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + n99 * 161390617380431786853494948250188242145606612051826469551916209783790476376052574664352834580008614464743948248296718336 + n100 * 2582249878086908589655919172003011874329705792829223512830659356540647622016841194629645353280137831435903171972747493376 + n101 * 41315998049390537434494706752048189989275292685267576205290549704650361952269459114074325652482205302974450751563959894016 + n102 * 661055968790248598951915308032771039828404682964281219284648795274405791236311345825189210439715284847591212025023358304256 + n103 * 10576895500643977583230644928524336637254474927428499508554380724390492659780981533203027367035444557561459392400373732868096 + n104 * 169230328010303641331690318856389386196071598838855992136870091590247882556495704531248437872567112920983350278405979725889536 + n105 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576 + n106 * 43322963970637732180912721627235682866194329302747133987038743447103457934462900359999600095377180907771737671271930809827721216 + n107 * 693167423530203714894603546035770925859109268843954143792619895153655326951406405759993601526034894524347802740350892957243539456 + n108 * 11090678776483259438313656736572334813745748301503266300681918322458485231222502492159897624416558312389564843845614287315896631296 + n109 * 177450860423732151013018507785157357019931972824052260810910693159335763699560039874558361990664932998233037501529828597054346100736 + n110 * 2839213766779714416208296124562517712318911565184836172974571090549372219192960637992933791850638927971728600024477257552869537611776 + n111 * 45427420268475430659332737993000283397102585042957378767593137448789955507087370207886940669610222847547657600391636120845912601788416
  /\ t0 = n0
  /\ c0 = (t0 + 8) \div 16
  /\ o0 = t0 - 16 * c0
  /\ t1 = n1 + c0
  /\ c1 = (t1 + 8) \div 16
  /\ o1 = t1 - 16 * c1
  /\ t2 = n2 + c1
  /\ c2 = (t2 + 8) \div 16
  /\ o2 = t2 - 16 * c2
  /\ t3 = n3 + c2
  /\ c3 = (t3 + 8) \div 16
  /\ o3 = t3 - 16 * c3
  /\ t4 = n4 + c3
  /\ c4 = (t4 + 8) \div 16
  /\ o4 = t4 - 16 * c4
  /\ t5 = n5 + c4
  /\ c5 = (t5 + 8) \div 16
  /\ o5 = t5 - 16 * c5
  /\ t6 = n6 + c5
  /\ c6 = (t6 + 8) \div 16
  /\ o6 = t6 - 16 * c6
  /\ t7 = n7 + c6
  /\ c7 = (t7 + 8) \div 16
  /\ o7 = t7 - 16 * c7
  /\ t8 = n8 + c7
  /\ c8 = (t8 + 8) \div 16
  /\ o8 = t8 - 16 * c8
  /\ t9 = n9 + c8
  /\ c9 = (t9 + 8) \div 16
  /\ o9 = t9 - 16 * c9
  /\ t10 = n10 + c9
  /\ c10 = (t10 + 8) \div 16
  /\ o10 = t10 - 16 * c10
  /\ t11 = n11 + c10
  /\ c11 = (t11 + 8) \div 16
  /\ o11 = t11 - 16 * c11
  /\ t12 = n12 + c11
  /\ c12 = (t12 + 8) \div 16
  /\ o12 = t12 - 16 * c12
  /\ t13 = n13 + c12
  /\ c13 = (t13 + 8) \div 16
  /\ o13 = t13 - 16 * c13
  /\ t14 = n14 + c13
  /\ c14 = (t14 + 8) \div 16
  /\ o14 = t14 - 16 * c14
  /\ t15 = n15 + c14
  /\ c15 = (t15 + 8) \div 16
  /\ o15 = t15 - 16 * c15
  /\ t16 = n16 + c15
  /\ c16 = (t16 + 8) \div 16
  /\ o16 = t16 - 16 * c16
  /\ t17 = n17 + c16
  /\ c17 = (t17 + 8) \div 16
  /\ o17 = t17 - 16 * c17
  /\ t18 = n18 + c17
  /\ c18 = (t18 + 8) \div 16
  /\ o18 = t18 - 16 * c18
  /\ t19 = n19 + c18
  /\ c19 = (t19 + 8) \div 16
  /\ o19 = t19 - 16 * c19
  /\ t20 = n20 + c19
  /\ c20 = (t20 + 8) \div 16
  /\ o20 = t20 - 16 * c20
  /\ t21 = n21 + c20
  /\ c21 = (t21 + 8) \div 16
  /\ o21 = t21 - 16 * c21
  /\ t22 = n22 + c21
  /\ c22 = (t22 + 8) \div 16
  /\ o22 = t22 - 16 * c22
  /\ t23 = n23 + c22
  /\ c23 = (t23 + 8) \div 16
  /\ o23 = t23 - 16 * c23
  /\ t24 = n24 + c23
  /\ c24 = (t24 + 8) \div 16
  /\ o24 = t24 - 16 * c24
  /\ t25 = n25 + c24
  /\ c25 = (t25 + 8) \div 16
  /\ o25 = t25 - 16 * c25
  /\ t26 = n26 + c25
  /\ c26 = (t26 + 8) \div 16
  /\ o26 = t26 - 16 * c26
  /\ t27 = n27 + c26
  /\ c27 = (t27 + 8) \div 16
  /\ o27 = t27 - 16 * c27
  /\ t28 = n28 + c27
  /\ c28 = (t28 + 8) \div 16
  /\ o28 = t28 - 16 * c28
  /\ t29 = n29 + c28
  /\ c29 = (t29 + 8) \div 16
  /\ o29 = t29 - 16 * c29
  /\ t30 = n30 + c29
  /\ c30 = (t30 + 8) \div 16
  /\ o30 = t30 - 16 * c30
  /\ t31 = n31 + c30
  /\ c31 = (t31 + 8) \div 16
  /\ o31 = t31 - 16 * c31
  /\ t32 = n32 + c31
  /\ c32 = (t32 + 8) \div 16
  /\ o32 = t32 - 16 * c32
  /\ t33 = n33 + c32
  /\ c33 = (t33 + 8) \div 16
  /\ o33 = t33 - 16 * c33
  /\ t34 = n34 + c33
  /\ c34 = (t34 + 8) \div 16
  /\ o34 = t34 - 16 * c34
  /\ t35 = n35 + c34
  /\ c35 = (t35 + 8) \div 16
  /\ o35 = t35 - 16 * c35
  /\ t36 = n36 + c35
  /\ c36 = (t36 + 8) \div 16
  /\ o36 = t36 - 16 * c36
  /\ t37 = n37 + c36
  /\ c37 = (t37 + 8) \div 16
  /\ o37 = t37 - 16 * c37
  /\ t38 = n38 + c37
  /\ c38 = (t38 + 8) \div 16
  /\ o38 = t38 - 16 * c38
  /\ t39 = n39 + c38
  /\ c39 = (t39 + 8) \div 16
  /\ o39 = t39 - 16 * c39
  /\ t40 = n40 + c39
  /\ c40 = (t40 + 8) \div 16
  /\ o40 = t40 - 16 * c40
  /\ t41 = n41 + c40
  /\ c41 = (t41 + 8) \div 16
  /\ o41 = t41 - 16 * c41
  /\ t42 = n42 + c41
  /\ c42 = (t42 + 8) \div 16
  /\ o42 = t42 - 16 * c42
  /\ t43 = n43 + c42
  /\ c43 = (t43 + 8) \div 16
  /\ o43 = t43 - 16 * c43
  /\ t44 = n44 + c43
  /\ c44 = (t44 + 8) \div 16
  /\ o44 = t44 - 16 * c44
  /\ t45 = n45 + c44
  /\ c45 = (t45 + 8) \div 16
  /\ o45 = t45 - 16 * c45
  /\ t46 = n46 + c45
  /\ c46 = (t46 + 8) \div 16
  /\ o46 = t46 - 16 * c46
  /\ t47 = n47 + c46
  /\ c47 = (t47 + 8) \div 16
  /\ o47 = t47 - 16 * c47
  /\ t48 = n48 + c47
  /\ c48 = (t48 + 8) \div 16
  /\ o48 = t48 - 16 * c48
  /\ t49 = n49 + c48
  /\ c49 = (t49 + 8) \div 16
  /\ o49 = t49 - 16 * c49
  /\ t50 = n50 + c49
  /\ c50 = (t50 + 8) \div 16
  /\ o50 = t50 - 16 * c50
  /\ t51 = n51 + c50
  /\ c51 = (t51 + 8) \div 16
  /\ o51 = t51 - 16 * c51
  /\ t52 = n52 + c51
  /\ c52 = (t52 + 8) \div 16
  /\ o52 = t52 - 16 * c52
  /\ t53 = n53 + c52
  /\ c53 = (t53 + 8) \div 16
  /\ o53 = t53 - 16 * c53
  /\ t54 = n54 + c53
  /\ c54 = (t54 + 8) \div 16
  /\ o54 = t54 - 16 * c54
  /\ t55 = n55 + c54
  /\ c55 = (t55 + 8) \div 16
  /\ o55 = t55 - 16 * c55
  /\ t56 = n56 + c55
  /\ c56 = (t56 + 8) \div 16
  /\ o56 = t56 - 16 * c56
  /\ t57 = n57 + c56
  /\ c57 = (t57 + 8) \div 16
  /\ o57 = t57 - 16 * c57
  /\ t58 = n58 + c57
  /\ c58 = (t58 + 8) \div 16
  /\ o58 = t58 - 16 * c58
  /\ t59 = n59 + c58
  /\ c59 = (t59 + 8) \div 16
  /\ o59 = t59 - 16 * c59
  /\ t60 = n60 + c59
  /\ c60 = (t60 + 8) \div 16
  /\ o60 = t60 - 16 * c60
  /\ t61 = n61 + c60
  /\ c61 = (t61 + 8) \div 16
  /\ o61 = t61 - 16 * c61
  /\ t62 = n62 + c61
  /\ c62 = (t62 + 8) \div 16
  /\ o62 = t62 - 16 * c62
  /\ t63 = n63 + c62
  /\ c63 = (t63 + 8) \div 16
  /\ o63 = t63 - 16 * c63
  /\ t64 = n64 + c63
  /\ c64 = (t64 + 8) \div 16
  /\ o64 = t64 - 16 * c64
  /\ t65 = n65 + c64
  /\ c65 = (t65 + 8) \div 16
  /\ o65 = t65 - 16 * c65
  /\ t66 = n66 + c65
  /\ c66 = (t66 + 8) \div 16
  /\ o66 = t66 - 16 * c66
  /\ t67 = n67 + c66
  /\ c67 = (t67 + 8) \div 16
  /\ o67 = t67 - 16 * c67
  /\ t68 = n68 + c67
  /\ c68 = (t68 + 8) \div 16
  /\ o68 = t68 - 16 * c68
  /\ t69 = n69 + c68
  /\ c69 = (t69 + 8) \div 16
  /\ o69 = t69 - 16 * c69
  /\ t70 = n70 + c69
  /\ c70 = (t70 + 8) \div 16
  /\ o70 = t70 - 16 * c70
  /\ t71 = n71 + c70
  /\ c71 = (t71 + 8) \div 16
  /\ o71 = t71 - 16 * c71
  /\ t72 = n72 + c71
  /\ c72 = (t72 + 8) \div 16
  /\ o72 = t72 - 16 * c72
  /\ t73 = n73 + c72
  /\ c73 = (t73 + 8) \div 16
  /\ o73 = t73 - 16 * c73
  /\ t74 = n74 + c73
  /\ c74 = (t74 + 8) \div 16
  /\ o74 = t74 - 16 * c74
  /\ t75 = n75 + c74
  /\ c75 = (t75 + 8) \div 16
  /\ o75 = t75 - 16 * c75
  /\ t76 = n76 + c75
  /\ c76 = (t76 + 8) \div 16
  /\ o76 = t76 - 16 * c76
  /\ t77 = n77 + c76
  /\ c77 = (t77 + 8) \div 16
  /\ o77 = t77 - 16 * c77
  /\ t78 = n78 + c77
  /\ c78 = (t78 + 8) \div 16
  /\ o78 = t78 - 16 * c78
  /\ t79 = n79 + c78
  /\ c79 = (t79 + 8) \div 16
  /\ o79 = t79 - 16 * c79
  /\ t80 = n80 + c79
  /\ c80 = (t80 + 8) \div 16
  /\ o80 = t80 - 16 * c80
  /\ t81 = n81 + c80
  /\ c81 = (t81 + 8) \div 16
  /\ o81 = t81 - 16 * c81
  /\ t82 = n82 + c81
  /\ c82 = (t82 + 8) \div 16
  /\ o82 = t82 - 16 * c82
  /\ t83 = n83 + c82
  /\ c83 = (t83 + 8) \div 16
  /\ o83 = t83 - 16 * c83
  /\ t84 = n84 + c83
  /\ c84 = (t84 + 8) \div 16
  /\ o84 = t84 - 16 * c84
  /\ t85 = n85 + c84
  /\ c85 = (t85 + 8) \div 16
  /\ o85 = t85 - 16 * c85
  /\ t86 = n86 + c85
  /\ c86 = (t86 + 8) \div 16
  /\ o86 = t86 - 16 * c86
  /\ t87 = n87 + c86
  /\ c87 = (t87 + 8) \div 16
  /\ o87 = t87 - 16 * c87
  /\ t88 = n88 + c87
  /\ c88 = (t88 + 8) \div 16
  /\ o88 = t88 - 16 * c88
  /\ t89 = n89 + c88
  /\ c89 = (t89 + 8) \div 16
  /\ o89 = t89 - 16 * c89
  /\ t90 = n90 + c89
  /\ c90 = (t90 + 8) \div 16
  /\ o90 = t90 - 16 * c90
  /\ t91 = n91 + c90
  /\ c91 = (t91 + 8) \div 16
  /\ o91 = t91 - 16 * c91
  /\ t92 = n92 + c91
  /\ c92 = (t92 + 8) \div 16
  /\ o92 = t92 - 16 * c92
  /\ t93 = n93 + c92
  /\ c93 = (t93 + 8) \div 16
  /\ o93 = t93 - 16 * c93
  /\ t94 = n94 + c93
  /\ c94 = (t94 + 8) \div 16
  /\ o94 = t94 - 16 * c94
  /\ t95 = n95 + c94
  /\ c95 = (t95 + 8) \div 16
  /\ o95 = t95 - 16 * c95
  /\ t96 = n96 + c95
  /\ c96 = (t96 + 8) \div 16
  /\ o96 = t96 - 16 * c96
  /\ t97 = n97 + c96
  /\ c97 = (t97 + 8) \div 16
  /\ o97 = t97 - 16 * c97
  /\ t98 = n98 + c97
  /\ c98 = (t98 + 8) \div 16
  /\ o98 = t98 - 16 * c98
  /\ t99 = n99 + c98
  /\ c99 = (t99 + 8) \div 16
  /\ o99 = t99 - 16 * c99
  /\ t100 = n100 + c99
  /\ c100 = (t100 + 8) \div 16
  /\ o100 = t100 - 16 * c100
  /\ t101 = n101 + c100
  /\ c101 = (t101 + 8) \div 16
  /\ o101 = t101 - 16 * c101
  /\ t102 = n102 + c101
  /\ c102 = (t102 + 8) \div 16
  /\ o102 = t102 - 16 * c102
  /\ t103 = n103 + c102
  /\ c103 = (t103 + 8) \div 16
  /\ o103 = t103 - 16 * c103
  /\ t104 = n104 + c103
  /\ c104 = (t104 + 8) \div 16
  /\ o104 = t104 - 16 * c104
  /\ t105 = n105 + c104
  /\ c105 = (t105 + 8) \div 16
  /\ o105 = t105 - 16 * c105
  /\ t106 = n106 + c105
  /\ c106 = (t106 + 8) \div 16
  /\ o106 = t106 - 16 * c106
  /\ t107 = n107 + c106
  /\ c107 = (t107 + 8) \div 16
  /\ o107 = t107 - 16 * c107
  /\ t108 = n108 + c107
  /\ c108 = (t108 + 8) \div 16
  /\ o108 = t108 - 16 * c108
  /\ t109 = n109 + c108
  /\ c109 = (t109 + 8) \div 16
  /\ o109 = t109 - 16 * c109
  /\ t110 = n110 + c109
  /\ c110 = (t110 + 8) \div 16
  /\ o110 = t110 - 16 * c110
  /\ t111 = n111 + c110
  /\ c111 = (t111 + 8) \div 16
  /\ o111 = t111 - 16 * c111
  /\ R = o0 * 1 + o1 * 16 + o2 * 256 + o3 * 4096 + o4 * 65536 + o5 * 1048576 + o6 * 16777216 + o7 * 268435456 + o8 * 4294967296 + o9 * 68719476736 + o10 * 1099511627776 + o11 * 17592186044416 + o12 * 281474976710656 + o13 * 4503599627370496 + o14 * 72057594037927936 + o15 * 1152921504606846976 + o16 * 18446744073709551616 + o17 * 295147905179352825856 + o18 * 4722366482869645213696 + o19 * 75557863725914323419136 + o20 * 1208925819614629174706176 + o21 * 19342813113834066795298816 + o22 * 309485009821345068724781056 + o23 * 4951760157141521099596496896 + o24 * 79228162514264337593543950336 + o25 * 1267650600228229401496703205376 + o26 * 20282409603651670423947251286016 + o27 * 324518553658426726783156020576256 + o28 * 5192296858534827628530496329220096 + o29 * 83076749736557242056487941267521536 + o30 * 1329227995784915872903807060280344576 + o31 * 21267647932558653966460912964485513216 + o32 * 340282366920938463463374607431768211456 + o33 * 5444517870735015415413993718908291383296 + o34 * 87112285931760246646623899502532662132736 + o35 * 1393796574908163946345982392040522594123776 + o36 * 22300745198530623141535718272648361505980416 + o37 * 356811923176489970264571492362373784095686656 + o38 * 5708990770823839524233143877797980545530986496 + o39 * 91343852333181432387730302044767688728495783936 + o40 * 1461501637330902918203684832716283019655932542976 + o41 * 23384026197294446691258957323460528314494920687616 + o42 * 374144419156711147060143317175368453031918731001856 + o43 * 5986310706507378352962293074805895248510699696029696 + o44 * 95780971304118053647396689196894323976171195136475136 + o45 * 1532495540865888858358347027150309183618739122183602176 + o46 * 24519928653854221733733552434404946937899825954937634816 + o47 * 392318858461667547739736838950479151006397215279002157056 + o48 * 6277101735386680763835789423207666416102355444464034512896 + o49 * 100433627766186892221372630771322662657637687111424552206336 + o50 * 1606938044258990275541962092341162602522202993782792835301376 + o51 * 25711008708143844408671393477458601640355247900524685364822016 + o52 * 411376139330301510538742295639337626245683966408394965837152256 + o53 * 6582018229284824168619876730229402019930943462534319453394436096 + o54 * 105312291668557186697918027683670432318895095400549111254310977536 + o55 * 1684996666696914987166688442938726917102321526408785780068975640576 + o56 * 26959946667150639794667015087019630673637144422540572481103610249216 + o57 * 431359146674410236714672241392314090778194310760649159697657763987456 + o58 * 6901746346790563787434755862277025452451108972170386555162524223799296 + o59 * 110427941548649020598956093796432407239217743554726184882600387580788736 + o60 * 1766847064778384329583297500742918515827483896875618958121606201292619776 + o61 * 28269553036454149273332760011886696253239742350009903329945699220681916416 + o62 * 452312848583266388373324160190187140051835877600158453279131187530910662656 + o63 * 7237005577332262213973186563042994240829374041602535252466099000494570602496 + o64 * 115792089237316195423570985008687907853269984665640564039457584007913129639936 + o65 * 1852673427797059126777135760139006525652319754650249024631321344126610074238976 + o66 * 29642774844752946028434172162224104410437116074403984394101141506025761187823616 + o67 * 474284397516047136454946754595585670566993857190463750305618264096412179005177856 + o68 * 7588550360256754183279148073529370729071901715047420004889892225542594864082845696 + o69 * 121416805764108066932466369176469931665150427440758720078238275608681517825325531136 + o70 * 1942668892225729070919461906823518906642406839052139521251812409738904285205208498176 + o71 * 31082702275611665134711390509176302506278509424834232340028998555822468563283335970816 + o72 * 497323236409786642155382248146820840100456150797347717440463976893159497012533375533056 + o73 * 7957171782556586274486115970349133441607298412757563479047423630290551952200534008528896 + o74 * 127314748520905380391777855525586135065716774604121015664758778084648831235208544136462336 + o75 * 2037035976334486086268445688409378161051468393665936250636140449354381299763336706183397376 + o76 * 32592575621351777380295131014550050576823494298654980010178247189670100796213387298934358016 + o77 * 521481209941628438084722096232800809229175908778479680162851955034721612739414196782949728256 + o78 * 8343699359066055009355553539724812947666814540455674882605631280555545803830627148527195652096 + o79 * 133499189745056880149688856635597007162669032647290798121690100488888732861290034376435130433536 + o80 * 2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576 + o81 * 34175792574734561318320347298712833833643272357706444319152665725155515612490248800367393390985216 + o82 * 546812681195752981093125556779405341338292357723303109106442651602488249799843980805878294255763456 + o83 * 8749002899132047697490008908470485461412677723572849745703082425639811996797503692894052708092215296 + o84 * 139984046386112763159840142535527767382602843577165595931249318810236991948760059086304843329475444736 + o85 * 2239744742177804210557442280568444278121645497234649534899989100963791871180160945380877493271607115776 + o86 * 35835915874844867368919076489095108449946327955754392558399825615420669938882575126094039892345713852416 + o87 * 573374653997517877902705223825521735199141247292070280934397209846730719022121202017504638277531421638656 + o88 * 9173994463960286046443283581208347763186259956673124494950355357547691504353939232280074212440502746218496 + o89 * 146783911423364576743092537299333564210980159306769991919205685720763064069663027716481187399048043939495936 + o90 * 2348542582773833227889480596789337027375682548908319870707290971532209025114608443463698998384768703031934976 + o91 * 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 + o92 * 601226901190101306339707032778070279008174732520529886901066488712245510429339761526706943586500787976175353856 + o93 * 9619630419041620901435312524449124464130795720328478190417063819395928166869436184427311097384012607618805661696 + o94 * 153914086704665934422965000391185991426092731525255651046673021110334850669910978950836977558144201721900890587136 + o95 * 2462625387274654950767440006258975862817483704404090416746768337765357610718575663213391640930307227550414249394176 + o96 * 39402006196394479212279040100143613805079739270465446667948293404245721771497210611414266254884915640806627990306816 + o97 * 630432099142311667396464641602297820881275828327447146687172694467931548343955369782628260078158650252906047844909056 + o98 * 10086913586276986678343434265636765134100413253239154346994763111486904773503285916522052161250538404046496765518544896 + o99 * 161390617380431786853494948250188242145606612051826469551916209783790476376052574664352834580008614464743948248296718336 + o100 * 2582249878086908589655919172003011874329705792829223512830659356540647622016841194629645353280137831435903171972747493376 + o101 * 41315998049390537434494706752048189989275292685267576205290549704650361952269459114074325652482205302974450751563959894016 + o102 * 661055968790248598951915308032771039828404682964281219284648795274405791236311345825189210439715284847591212025023358304256 + o103 * 10576895500643977583230644928524336637254474927428499508554380724390492659780981533203027367035444557561459392400373732868096 + o104 * 169230328010303641331690318856389386196071598838855992136870091590247882556495704531248437872567112920983350278405979725889536 + o105 * 2707685248164858261307045101702230179137145581421695874189921465443966120903931272499975005961073806735733604454495675614232576 + o106 * 43322963970637732180912721627235682866194329302747133987038743447103457934462900359999600095377180907771737671271930809827721216 + o107 * 693167423530203714894603546035770925859109268843954143792619895153655326951406405759993601526034894524347802740350892957243539456 + o108 * 11090678776483259438313656736572334813745748301503266300681918322458485231222502492159897624416558312389564843845614287315896631296 + o109 * 177450860423732151013018507785157357019931972824052260810910693159335763699560039874558361990664932998233037501529828597054346100736 + o110 * 2839213766779714416208296124562517712318911565184836172974571090549372219192960637992933791850638927971728600024477257552869537611776 + o111 * 45427420268475430659332737993000283397102585042957378767593137448789955507087370207886940669610222847547657600391636120845912601788416 + c111 * 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656
Next == UNCHANGED <<n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17, n18, n19, n20, n21, n22, n23, n24, n25, n26, n27, n28, n29, n30, n31, n32, n33, n34, n35, n36, n37, n38, n39, n40, n41, n42, n43, n44, n45, n46, n47, n48, n49, n50, n51, n52, n53, n54, n55, n56, n57, n58, n59, n60, n61, n62, n63, n64, n65, n66, n67, n68, n69, n70, n71, n72, n73, n74, n75, n76, n77, n78, n79, n80, n81, n82, n83, n84, n85, n86, n87, n88, n89, n90, n91, n92, n93, n94, n95, n96, n97, n98, n99, n100, n101, n102, n103, n104, n105, n106, n107, n108, n109, n110, n111, A, t0, c0, o0, t1, c1, o1, t2, c2, o2, t3, c3, o3, t4, c4, o4, t5, c5, o5, t6, c6, o6, t7, c7, o7, t8, c8, o8, t9, c9, o9, t10, c10, o10, t11, c11, o11, t12, c12, o12, t13, c13, o13, t14, c14, o14, t15, c15, o15, t16, c16, o16, t17, c17, o17, t18, c18, o18, t19, c19, o19, t20, c20, o20, t21, c21, o21, t22, c22, o22, t23, c23, o23, t24, c24, o24, t25, c25, o25, t26, c26, o26, t27, c27, o27, t28, c28, o28, t29, c29, o29, t30, c30, o30, t31, c31, o31, t32, c32, o32, t33, c33, o33, t34, c34, o34, t35, c35, o35, t36, c36, o36, t37, c37, o37, t38, c38, o38, t39, c39, o39, t40, c40, o40, t41, c41, o41, t42, c42, o42, t43, c43, o43, t44, c44, o44, t45, c45, o45, t46, c46, o46, t47, c47, o47, t48, c48, o48, t49, c49, o49, t50, c50, o50, t51, c51, o51, t52, c52, o52, t53, c53, o53, t54, c54, o54, t55, c55, o55, t56, c56, o56, t57, c57, o57, t58, c58, o58, t59, c59, o59, t60, c60, o60, t61, c61, o61, t62, c62, o62, t63, c63, o63, t64, c64, o64, t65, c65, o65, t66, c66, o66, t67, c67, o67, t68, c68, o68, t69, c69, o69, t70, c70, o70, t71, c71, o71, t72, c72, o72, t73, c73, o73, t74, c74, o74, t75, c75, o75, t76, c76, o76, t77, c77, o77, t78, c78, o78, t79, c79, o79, t80, c80, o80, t81, c81, o81, t82, c82, o82, t83, c83, o83, t84, c84, o84, t85, c85, o85, t86, c86, o86, t87, c87, o87, t88, c88, o88, t89, c89, o89, t90, c90, o90, t91, c91, o91, t92, c92, o92, t93, c93, o93, t94, c94, o94, t95, c95, o95, t96, c96, o96, t97, c97, o97, t98, c98, o98, t99, c99, o99, t100, c100, o100, t101, c101, o101, t102, c102, o102, t103, c103, o103, t104, c104, o104, t105, c105, o105, t106, c106, o106, t107, c107, o107, t108, c108, o108, t109, c109, o109, t110, c110, o110, t111, c111, o111, R>>
Exact == R = A
Digits == -8 <= o0 /\ o0 < 8 /\ -8 <= o1 /\ o1 < 8 /\ -8 <= o2 /\ o2 < 8 /\ -8 <= o3 /\ o3 < 8 /\ -8 <= o4 /\ o4 < 8 /\ -8 <= o5 /\ o5 < 8 /\ -8 <= o6 /\ o6 < 8 /\ -8 <= o7 /\ o7 < 8 /\ -8 <= o8 /\ o8 < 8 /\ -8 <= o9 /\ o9 < 8 /\ -8 <= o10 /\ o10 < 8 /\ -8 <= o11 /\ o11 < 8 /\ -8 <= o12 /\ o12 < 8 /\ -8 <= o13 /\ o13 < 8 /\ -8 <= o14 /\ o14 < 8 /\ -8 <= o15 /\ o15 < 8 /\ -8 <= o16 /\ o16 < 8 /\ -8 <= o17 /\ o17 < 8 /\ -8 <= o18 /\ o18 < 8 /\ -8 <= o19 /\ o19 < 8 /\ -8 <= o20 /\ o20 < 8 /\ -8 <= o21 /\ o21 < 8 /\ -8 <= o22 /\ o22 < 8 /\ -8 <= o23 /\ o23 < 8 /\ -8 <= o24 /\ o24 < 8 /\ -8 <= o25 /\ o25 < 8 /\ -8 <= o26 /\ o26 < 8 /\ -8 <= o27 /\ o27 < 8 /\ -8 <= o28 /\ o28 < 8 /\ -8 <= o29 /\ o29 < 8 /\ -8 <= o30 /\ o30 < 8 /\ -8 <= o31 /\ o31 < 8 /\ -8 <= o32 /\ o32 < 8 /\ -8 <= o33 /\ o33 < 8 /\ -8 <= o34 /\ o34 < 8 /\ -8 <= o35 /\ o35 < 8 /\ -8 <= o36 /\ o36 < 8 /\ -8 <= o37 /\ o37 < 8 /\ -8 <= o38 /\ o38 < 8 /\ -8 <= o39 /\ o39 < 8 /\ -8 <= o40 /\ o40 < 8 /\ -8 <= o41 /\ o41 < 8 /\ -8 <= o42 /\ o42 < 8 /\ -8 <= o43 /\ o43 < 8 /\ -8 <= o44 /\ o44 < 8 /\ -8 <= o45 /\ o45 < 8 /\ -8 <= o46 /\ o46 < 8 /\ -8 <= o47 /\ o47 < 8 /\ -8 <= o48 /\ o48 < 8 /\ -8 <= o49 /\ o49 < 8 /\ -8 <= o50 /\ o50 < 8 /\ -8 <= o51 /\ o51 < 8 /\ -8 <= o52 /\ o52 < 8 /\ -8 <= o53 /\ o53 < 8 /\ -8 <= o54 /\ o54 < 8 /\ -8 <= o55 /\ o55 < 8 /\ -8 <= o56 /\ o56 < 8 /\ -8 <= o57 /\ o57 < 8 /\ -8 <= o58 /\ o58 < 8 /\ -8 <= o59 /\ o59 < 8 /\ -8 <= o60 /\ o60 < 8 /\ -8 <= o61 /\ o61 < 8 /\ -8 <= o62 /\ o62 < 8 /\ -8 <= o63 /\ o63 < 8 /\ -8 <= o64 /\ o64 < 8 /\ -8 <= o65 /\ o65 < 8 /\ -8 <= o66 /\ o66 < 8 /\ -8 <= o67 /\ o67 < 8 /\ -8 <= o68 /\ o68 < 8 /\ -8 <= o69 /\ o69 < 8 /\ -8 <= o70 /\ o70 < 8 /\ -8 <= o71 /\ o71 < 8 /\ -8 <= o72 /\ o72 < 8 /\ -8 <= o73 /\ o73 < 8 /\ -8 <= o74 /\ o74 < 8 /\ -8 <= o75 /\ o75 < 8 /\ -8 <= o76 /\ o76 < 8 /\ -8 <= o77 /\ o77 < 8 /\ -8 <= o78 /\ o78 < 8 /\ -8 <= o79 /\ o79 < 8 /\ -8 <= o80 /\ o80 < 8 /\ -8 <= o81 /\ o81 < 8 /\ -8 <= o82 /\ o82 < 8 /\ -8 <= o83 /\ o83 < 8 /\ -8 <= o84 /\ o84 < 8 /\ -8 <= o85 /\ o85 < 8 /\ -8 <= o86 /\ o86 < 8 /\ -8 <= o87 /\ o87 < 8 /\ -8 <= o88 /\ o88 < 8 /\ -8 <= o89 /\ o89 < 8 /\ -8 <= o90 /\ o90 < 8 /\ -8 <= o91 /\ o91 < 8 /\ -8 <= o92 /\ o92 < 8 /\ -8 <= o93 /\ o93 < 8 /\ -8 <= o94 /\ o94 < 8 /\ -8 <= o95 /\ o95 < 8 /\ -8 <= o96 /\ o96 < 8 /\ -8 <= o97 /\ o97 < 8 /\ -8 <= o98 /\ o98 < 8 /\ -8 <= o99 /\ o99 < 8 /\ -8 <= o100 /\ o100 < 8 /\ -8 <= o101 /\ o101 < 8 /\ -8 <= o102 /\ o102 < 8 /\ -8 <= o103 /\ o103 < 8 /\ -8 <= o104 /\ o104 < 8 /\ -8 <= o105 /\ o105 < 8 /\ -8 <= o106 /\ o106 < 8 /\ -8 <= o107 /\ o107 < 8 /\ -8 <= o108 /\ o108 < 8 /\ -8 <= o109 /\ o109 < 8 /\ -8 <= o110 /\ o110 < 8 /\ -8 <= o111 /\ o111 < 8 /\ c111 = 0
\* to be refuted: that there are no operands
Empty == FALSE
====
