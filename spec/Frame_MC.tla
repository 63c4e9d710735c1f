------------------------------- MODULE Frame_MC ------------------------------
(* Error detection of the frame check, decided exhaustively for the longest  *)
(* frame (1029 bytes): the remainders x^0, x^1, ... x^8231 all have odd      *)
(* weight and never return to x^0 (multiplication by x is invertible, so they*)
(* are pairwise distinct).  Hence no error of one, two or three bits has a   *)
(* zero remainder.                                                           *)
EXTENDS Frame
VARIABLES i, r
MInit == i = 0 /\ r = 1
MNext == i < 1029 * 8 - 1 /\ i' = i + 1 /\ r' = MulX(r)
MSpec == MInit /\ [][MNext]_<<i, r>>
RECURSIVE Weight(_)
Weight(x) == IF x = 0 THEN 0 ELSE (x % 2) + Weight(x \div 2)
ASSUME /\ Crc(<<1>>) = Poly
       /\ \A b \in 0..255 : Crc(<<b>>) = MulXn(b * 65536, 8)
       /\ \A b \in {<<1,2,3,4,5,6>>, <<255,0,255,0,255,0,1>>} :
             Crc(Encode(b)) = 0 /\ Accept(Encode(b), 0, Len(b) + 6)
OddWeight == Weight(r) % 2 = 1
Invertible == MulX(r) # 0
NoCycle == i > 0 => r # 1
==============================================================================
