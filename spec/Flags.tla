------------------------------- MODULE Flags --------------------------------
(* exception conditions, numbered as in the library *)
EXTENDS Integers
FUndef == 1  FPoss == 2  FPart == 4  FInv == 8
Conditions == {FUndef, FPoss, FPart, FInv}
Bits(n) == {f \in Conditions : (n \div f) % 2 = 1}
=============================================================================
