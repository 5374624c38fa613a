------------------------------ MODULE MC_Codec ------------------------------
(* Every byte string (here: every integer of SGN + 2 bits) and every point of a small curve: the
   encoding of RFC 8032 is injective, and decoding accepts its image and nothing else. *)
EXTENDS Impl, FiniteSets

VARIABLE n
Points == {x \in Field \X Field : EOn(x)}
Codes  == {EEnc(x) : x \in Points}
Init == n = 0
Next == n < 2^(SGN + 2) - 1 /\ n' = n + 1
Spec == Init /\ [][Next]_n

Strict    == (EDec(n) # <<>>) = (n \in Codes)
RightOne  == EDec(n) # <<>> => EDec(n)[1] \in Points /\ EEnc(EDec(n)[1]) = n
AsCoded   == EImplDec(n) = EDec(n)
ASSUME Injective == Cardinality(Codes) = Cardinality(Points)
ASSUME RoundTrip == \A x \in Points : EDec(EEnc(x)) = <<x>>
=============================================================================
