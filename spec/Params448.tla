------------------------------ MODULE Params448 ------------------------------
(* The real parameters, written from RFC 7748, RFC 8032 and RFC 9496.  The long constants are
   given by their 28-bit digits, least significant first; MC_Params checks them. *)
EXTENDS Ed448Math

cP   == 2^448 - 2^224 - 1
cD   == cP - 39081
cFB  == 448
cSGN == 455
cSB  == 448
cL   == 2^446 - Undigits(<<78101261, 141809365, 175155932, 64542499, 158326419, 191173276, 104575268, 137584065>>, 28)
cGX  == Undigits(<<118276190, 40534716, 9670182, 135141552, 85017403, 259173222, 68333082, 171784774, 174973732, 15824510, 73756743, 57518561, 94773951, 248652241, 107736333, 82941708>>, 28)
cGY  == Undigits(<<36764180, 8885695, 130592152, 20104429, 163904957, 30304195, 121295871, 5901357, 125344798, 171541512, 175338348, 209069246, 3626697, 38307682, 24032956, 110359655>>, 28)
cSMD == Undigits(<<89597750, 70185204, 13521558, 129985186, 248668211, 256890605, 176396902, 157860171, 77780864, 193811638, 27768997, 111807007, 225587106, 109297512, 199959799, 36541999>>, 28)
=============================================================================
