import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
SC="src/field/scalar.rs"; ED="src/curve/edwards/extended.rs"; TW="src/curve/twedwards/"; MO="src/curve/montgomery/montgomery.rs"; DE="src/decaf/decaf.rs"; DO="src/decaf/ops.rs"; F="src/field/mod.rs"; F64="src/field/fiat_u64/prime_field.rs"; F32="src/field/u32/prime_field.rs"; KA="src/field/u32/karatsuba.rs"; SM="src/curve/scalar_mul/"
prop("C01","Scalar addition, subtraction and multiplication are exact modulo the order",
"For any two scalars, including unreduced ones loaded from 56 arbitrary bytes or written limb by limb, the sum, difference and product are the integer results reduced modulo the group order l. The results are always fully reduced (less than l).",
["inputs"],"every pair of 448-bit scalars, in any order and with equal operands",
"The tests multiply and add a handful of constants; carries, borrows and the final conditional reduction depend on limb patterns they do not reach, and they never use unreduced operands.",
[SC],[("ripple-carry addition and conditional reduction","scalar.rs add, sub_extra"),("Montgomery multiplication","scalar.rs montgomery_multiply"),("operand reduction","scalar.rs Add and Sub impls")],
[("Scalar","14 saturated 32-bit limbs, any 448-bit integer","scalar.rs Scalar")],["Scalar + - *","Scalar::to_bytes"])
prop("C02","Scalar inversion and halving are exact modulo the order",
"Inverting any scalar s gives the reduced x with s*x = 1 modulo the order, and gives 0 when s is a multiple of the order. Halving any scalar gives a scalar whose double is congruent to it, reduced whenever the input is reduced.",
["inputs"],"every 448-bit scalar, reduced or not, including 0, multiples of the order and the extremes",
"One inverse and one halving are tested; the sliding window over the order's bits and the shifted-in carry depend on the input.",
[SC],[("sliding-window exponentiation by l-2","scalar.rs invert"),("masked addition of l and shift","scalar.rs halve")],None,["Scalar::invert","Scalar::halve"])
prop("C03","Scalar encodings: strict canonical decoding and faithful round trips",
"Canonical decoding accepts a 57-byte string exactly when it is the little-endian encoding of an integer below the order, and returns that integer. The 56-byte form, the RFC 8032 57-byte form, the limb view and the bit view of a scalar all denote the same integer, loading and storing any 56 bytes changes nothing, and two scalars are equal exactly when these integers are.",
["inputs"],"every 57-byte string and every 56-byte string",
"A test samples a few encodings near the order; the acceptance boundary and the byte, limb and bit order are claims about all strings.",
[SC],[("high-bit check and comparison with the reduced value","scalar.rs from_canonical_bytes"),("byte packing","scalar.rs from_bytes, to_bytes, to_bytes_rfc_8032, bits")],None,["Scalar::from_canonical_bytes","Scalar::to_bytes","Scalar::bits","Scalar index","=="])
prop("C04","Wide reduction is exact, and random scalars are reduced",
"Reducing any 114-byte little-endian integer gives exactly its residue modulo the order, fully reduced. A random scalar is below the order and is drawn from enough of the generator's output to be uniform: it is the wide reduction of the 114 bytes it draws.",
["inputs"],"every 114-byte string; every output of the random generator",
"The tests reduce one or two vectors; the three-part recombination must carry correctly for every split of the input.",
[SC],[("recombination with R and R^2","scalar.rs from_bytes_mod_order_wide"),("sampling","scalar.rs random")],None,["Scalar::from_bytes_mod_order_wide","Scalar::random"])
prop("C05","Edwards point arithmetic is the complete group law",
"For any two points of the curve, including the identity, points of order 2 and 4, equal points and opposite points, addition, subtraction, doubling, negation, adding the point of order 2, and summing a sequence give the point the Edwards addition law defines. Every result is again a point of the curve.",
["inputs","histories"],"all pairs of the 4l points in every projective representation operations can produce",
"The tests add a few multiples of the generator; completeness concerns small-order and mixed-torsion points and unnormalised coordinates they never build.",
[ED,"src/curve/edwards/affine.rs"],[("unified extended-coordinate formulas","extended.rs add, double, negate, torque"),("Sum implementation","extended.rs impl Sum")],
[("ExtendedPoint","projective X,Y,Z,T with XY = ZT","extended.rs ExtendedPoint")],["ExtendedPoint::add/double/negate/torque, operators, Sum","compress"],"coordinates of a point (falls back to its encoding)")
prop("C06","Edwards scalar multiplication is repeated addition for every scalar and point",
"Multiplying any point of the curve, with or without a torsion component, by any 448-bit scalar, reduced or not, gives the point added to itself that many times. The helper that multiplies by the scalar modulo 4 does exactly that.",
["inputs"],"all 4l points times all 2^448 scalars",
"Tests compare a few scalars on the generator; signed-digit carries, the table selection, the split by 4 through the isogeny and torsion points vary with scalar and point.",
[ED,SM+"variable_base.rs",SM+"window/wnaf/mod.rs",SC,TW+"extensible.rs",TW+"projective.rs"],[("isogeny strategy s = 4*floor(s/4) + s mod 4","extended.rs scalar_mul, scalar_mod_four"),("signed radix-16 recoding","scalar.rs to_radix_16, div_by_four"),("lookup table and windowed loop","window/wnaf/mod.rs, variable_base.rs")],None,["ExtendedPoint::scalar_mul, * operators"],"coordinates of a point (falls back to its encoding)")
prop("C07","Edwards point encoding is the RFC 8032 encoding and round-trips",
"The 57-byte encoding of any point is its reduced y coordinate in little-endian followed by one byte holding only the sign of x, whatever computation produced the point. Decoding the encoding of a point gives that point back, and normalising a point to affine coordinates does not change it.",
["inputs","histories"],"all points of the curve, in all representations that operations can produce",
"The tests encode a few fixed points whose coordinates are ordinary; reduction to the canonical representative and the sign matter at coordinates near 0 and p and for unnormalised points.",
[ED,"src/curve/edwards/affine.rs",F64,F32],[("normalise, reduce, pack sign","extended.rs compress, to_affine"),("canonical byte serialisation","prime_field.rs to_bytes")],None,["ExtendedPoint::compress","CompressedEdwardsY::decompress"])
prop("C08","Edwards decoding accepts exactly the canonical encodings",
"Decoding a 57-byte string succeeds exactly when the string is the encoding of some point of the curve, and then gives that point. Strings with y not reduced, with stray bits in the last byte, with no matching x, or asking for a negative zero are rejected.",
["inputs"],"all 2^456 byte strings",
"The tests decode valid encodings and one or two invalid ones; acceptance is a claim about all strings.",
[ED,F],[("square root of the ratio and residue flag","extended.rs decompress, field/mod.rs sqrt_ratio"),("canonical checks","extended.rs decompress")],None,["CompressedEdwardsY::decompress"])
prop("C09","The torsion-free test is exact",
"The torsion test returns true exactly for the points of the prime-order subgroup, however the point was computed. It returns false for every point with a component of order 2 or 4, the nontrivial small-order points included.",
["inputs"],"all 4l points in all representations",
"The tests try the generator and a few torsion points; the claim covers every coset.",
[ED,"src/constants.rs"],[("multiplication by the order and comparison with the identity","extended.rs is_torsion_free"),("group order constant","constants.rs BASEPOINT_ORDER")],None,["ExtendedPoint::is_torsion_free"])
prop("C10","The isogenous curve: maps and arithmetic are exact group operations",
"Mapping a point of the curve to the isogenous twisted curve and back multiplies it by 4, and both maps are homomorphisms. On the image, addition, subtraction, doubling, negation, cached-point addition, selection and scalar multiplication by any routine give what the twisted curve's group law defines.",
["inputs","histories"],"all points, images under the isogeny, and chains of operations on them in any coordinate system",
"The tests check the round trip and additions on the base point; sign handling, cached points and T-coordinate bookkeeping show only in particular chains.",
[ED,TW+"extended.rs",TW+"extensible.rs",TW+"projective.rs",SM+"double_and_add.rs",SM+"double_base.rs",SM+"variable_base.rs"],[("2-isogeny and dual","extended.rs edwards_isogeny (both curves)"),("extended, extensible and Niels formulas","twedwards/extensible.rs, projective.rs"),("three multiplication routines","scalar_mul/")],None,["to_twisted, to_untwisted and the methods of the values they return"],"coordinates of twisted points and the internal multiplication routines")
prop("C11","Montgomery multiplication is the RFC 7748 X448 function",
"Multiplying any 56-byte u-coordinate (reduced or not, on the curve or on its twist, of any order) by any 448-bit scalar gives the u-coordinate RFC 7748's ladder gives for that scalar taken as it is. The result is a reduced encoding, and is 0 when the product is the point at infinity.",
["inputs"],"all 2^448 u strings times all 2^448 scalars",
"One test multiplies the base point by 200; parity of the scalar, high bits, low-order, twist and non-canonical inputs are never tried.",
[MO],[("Montgomery ladder with conditional swaps","montgomery.rs Mul impls, differential_add_and_double"),("final inversion","montgomery.rs to_affine")],None,["&MontgomeryPoint * &Scalar","to_projective().to_affine()"])
prop("C12","The map to the Montgomery curve commutes with scalar multiplication",
"The u-coordinate of any Edwards point is y^2/x^2 (0 for the four points of order dividing 4), reduced. Mapping s times P gives the same u as multiplying the mapped P by s, so both implementations of the Diffie-Hellman group agree.",
["inputs"],"all points and all 448-bit scalars",
"A single scalar on the base point is tested; the claim relates two independent implementations on all inputs.",
[ED,MO],[("4-isogeny","extended.rs to_montgomery"),("ladder","montgomery.rs")],None,["ExtendedPoint::to_montgomery"])
prop("C13","Low-order detection on the Montgomery side is exact",
"The low-order test is true exactly for the u-coordinates of the points of order 1, 2 or 4 on the curve or its twist, in every encoding of them, canonical or not. These are the inputs that multiplication by a multiple of 4 sends to 0.",
["inputs"],"all 2^448 u strings",
"No test calls it; alternative encodings of the same value are the classic miss.",
[MO],[("comparison with the three low-order values after reduction","montgomery.rs is_low_order")],None,["MontgomeryPoint::is_low_order"])
prop("C14","Decaf decoding accepts exactly the valid encodings",
"Decoding a 56-byte string succeeds exactly when RFC 9496 decodes it: the field element is reduced and non-negative and the required inverse square root exists. The element obtained re-encodes to the same bytes.",
["inputs"],"all 2^448 byte strings",
"Tests decode small multiples of the generator; rejection of negative, unreduced and non-square encodings needs arbitrary strings.",
[DE,F],[("canonical and sign checks, inverse square root","decaf.rs decompress")],None,["CompressedDecaf::decompress"])
prop("C15","Decaf encoding and equality depend only on the group element",
"The encoding of an element is the RFC 9496 encoding, the same for every representative the computations may lead to, and two elements compare equal exactly when their encodings are the same bytes. Encoded values compare equal exactly when their bytes do.",
["inputs","histories"],"all elements, all internal representatives and scalings, all pairs",
"Tests encode 16 multiples of the generator from one addition chain; different representatives of one element never meet.",
[DE],[("sign choice and inverse square root","decaf.rs compress"),("cross-product comparison","decaf.rs equals")],None,["DecafPoint::compress","DecafPoint::equals","CompressedDecaf =="],"rescaling of a representative")
prop("C16","Decaf is a group of prime order with exact scalar multiplication",
"Addition, subtraction, negation and multiplication by any 448-bit scalar act on encodings as the decaf448 group of RFC 9496: the encoding of the result is that of the group operation on the operands. The identity encodes to zeros, and every element times the order is the identity.",
["inputs","histories"],"all elements and all scalars, reduced or not",
"Tests walk 16 steps from the identity; negation, subtraction, large scalars and order are not covered.",
[DO,DE,TW+"extensible.rs",SM+"double_and_add.rs"],[("operators","ops.rs"),("double-and-add over all bits","scalar_mul/double_and_add.rs")],None,["DecafPoint operators","compress"])
prop("C17","The two field backends are indistinguishable",
"For any program of calls, the crate built with the 32-bit backend and the crate built with the 64-bit backend return the same bytes, the same booleans and the same acceptances. No call succeeds with one backend and fails or panics with the other.",
["configurations","programs"],"both backends, all programs of public operations",
"Each test runs in both builds but only against its own constants; nothing compares the builds on common inputs.",
[F64,F32,KA,"src/field/u32/constants.rs","src/field/fiat_u64/constants.rs"],[("one FieldElement interface, two implementations","field/mod.rs")],None,["all outputs"])
prop("C18","Every implemented operation is total: no panic, no overflow",
"No public operation panics, overflows or fails an assertion, for any byte strings, scalars, points or sequences of operations, in builds with overflow checks on; the operations the crate declares unimplemented are excepted. Rejection is only ever reported through the returned option.",
["inputs","histories","configurations"],"all inputs to all implemented public operations, both backends",
"Tests never feed adversarial strings or extreme limbs; carry assertions and unchecked additions in the 32-bit backend hold only by bounds reasoning.",
[F32,KA,SC,ED,MO,DE],[("weak reduction bounds and assertions","u32/prime_field.rs"),("wrapping arithmetic","scalar.rs")],None,["all operations"])
prop("C19","Coordinate arithmetic is exact modulo p for every value",
"Addition, subtraction, multiplication, squaring, negation, inversion (0 for 0), inverse square roots, square roots of ratios, sign, zero test, equality, selection and serialisation of coordinates are exact modulo p = 2^448 - 2^224 - 1 for every 56-byte input, reduced or not. This holds after any chain of such operations, and serialisation is always reduced.",
["inputs","histories"],"all pairs of 448-bit values and all chains of field operations, both backends",
"Tests use constants; carry chains, the interleaved reduction and the final subtraction depend on rare limb patterns.",
[F,F64,F32,KA],[("Karatsuba multiplication with golden-ratio reduction","u32/karatsuba.rs"),("weak and strong reduction","u32/prime_field.rs"),("addition chains","field/mod.rs invert, inverse_square_root"),("fiat-crypto calls and carries","fiat_u64/prime_field.rs")],None,["encodings of points whose coordinates have chosen limb patterns; field operations through the hook"],"field operations")
prop("C20","Any history of calls refines the abstract group machine",
"In any sequence of operations mixing scalars, Edwards points, Montgomery points and decaf elements, every returned value is what the abstract groups define for the values held, independent of the order of calls and of the representation earlier calls left behind. Operands are never changed by an operation other than an assigning one.",
["histories","programs"],"all sequences of public operations over all register contents",
"Unit tests are single operations from fresh constants; representation drift, aliasing and interplay between types need long histories.",
[ED,MO,DE,DO,SC,TW+"extended.rs"],[("representation invariants kept by each operation","all point types")],None,["all outputs"])
prop("C21","Equality and conditional selection decide and select exactly",
"Equality of points is equality of the group elements regardless of representation, and agrees in all its forms (==, !=, constant-time, and hashing where offered); Montgomery points, which are byte strings, are equal when the strings are. Conditional select, assign and swap yield exactly one or the other operand according to the choice bit.",
["inputs","histories"],"all pairs of values in all representations, both choice bits",
"Tests compare points mostly built the same way; equality across representations and near-misses (P, -P, P + torsion) are not covered.",
[ED,TW+"extended.rs",TW+"extensible.rs",MO,SC,DE,F],[("cross-multiplied comparison","extended.rs ct_eq"),("limb-wise selection","conditional_select impls")],None,["==, ct_eq, conditional_select, conditional_assign, conditional_swap"])
prop("C22","All spellings of an operation agree",
"The by-value, by-reference, mixed, assigning, method and iterator spellings of addition, subtraction, negation and scalar multiplication, with the operands of a commutative product in either order, give the same result for the same operands.",
["inputs","programs"],"all spellings, all operands, including aliased operands",
"Tests use one spelling per operation, so a swapped operand or wrong delegate in another spelling compiles and passes.",
[ED,"src/macros.rs",DO,MO],[("operator macros and hand-written impls","macros.rs, extended.rs, ops.rs, montgomery.rs")],None,["operators"])
prop("C23","Generators, identities and orders are the standard ones and fit together",
"The generator of each group is the published one (RFC 8032 base point, u = 5, the decaf448 generator), has order exactly l, and the maps between the groups send generators to each other as the standards say. Identities and defaults are neutral.",
["inputs","configurations"],"both backends' constants, combined with every element",
"A wrong constant in one backend or a derived coordinate that only a later operation uses is not seen by comparing constants with themselves.",
["src/constants.rs","src/field/u32/constants.rs","src/field/fiat_u64/constants.rs",MO,DE],[("hard-coded limbs","constants.rs of each backend")],None,["generator(), identity(), default()"])
prop("C24","Operations on secrets run in secret-independent time",
"Scalar multiplication, scalar arithmetic, point arithmetic, comparison, selection and encoding execute the same instructions and touch the same memory addresses whatever the values of the scalars, points, coordinates and choice bits they are given. Decoders and predicates that reveal their answer are excepted.",
["inputs"],"all pairs of secrets of equal public shape, both backends",
"Tests look at results, never at the instruction or address trace, so a lookup by a secret index or an early exit passes them all.",
[SM+"variable_base.rs",SM+"window/wnaf/mod.rs",SM+"double_and_add.rs",MO,ED,SC,F],[("subtle's Choice, conditional assignment and swap","throughout"),("pass over the whole table","window/wnaf/mod.rs select"),("ladder of fixed length with conditional swaps","montgomery.rs Mul"),("masks in place of branches","scalar.rs sub_extra, halve; u32/prime_field.rs strong_reduce")],None,["edges of the control flow and addresses of the compiled operations"])
prop("C25","Calls in different threads do not affect one another",
"When several threads call the crate at the same time, on the same values or on different ones, every call returns in every thread what it would return if that thread were alone, under every schedule. No call waits for another thread's for ever.",
["schedules","histories"],"all interleavings of calls in any number of threads",
"Tests make each call once, in threads that do not share values; anything calls share (a cached table, a scratch buffer) is wrong only under some interleavings.",
[SM+"variable_base.rs",SM+"window/wnaf/mod.rs",ED,MO,DE,F],[("operations are functions of their operands: no statics, no interior mutability","throughout"),("tables and accumulators on the caller's stack","variable_base.rs, wnaf/mod.rs")],None,["all outputs, in each thread"])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,sch)
print(len(P))
