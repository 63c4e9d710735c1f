-------------------------------- MODULE Frame --------------------------------
(* RTCM 3 transport layer: frames  D3 | 6 reserved bits, 10 bit length |     *)
(* message | CRC-24Q, the scan of a byte stream for frames, and the encoder. *)
(* Everything is defined on bytes; the CRC is the remainder of the polynomial*)
(* division by x^24+x^23+x^18+x^17+x^14+x^11+x^10+x^7+x^6+x^5+x^4+x^3+x+1.   *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, FiniteSets, TLC

Poly == 8801531              \* 0x864CFB: the polynomial without x^24
Top  == 8388608              \* 2^23

\* multiplication of a remainder by x
MulX(r) == IF r >= Top THEN (2 * (r - Top)) ^^ Poly ELSE 2 * r
RECURSIVE MulXn(_, _)
MulXn(r, n) == IF n = 0 THEN r ELSE MulXn(MulX(r), n - 1)

\* remainder of b * x^24 for every byte b
CrcTab == [b \in 0..255 |-> MulXn(b * 65536, 8)]
CrcStep(r, b) == ((r % 65536) * 256) ^^ CrcTab[(r \div 65536) ^^ b]
Crc(s) == FoldLeft(CrcStep, 0, s)

Slice(s, k, n) == SubSeq(s, k + 1, k + n)         \* k is a byte offset (0..)

FLen(buf, k) == (buf[k+2] % 4) * 256 + buf[k+3]
\* does an acceptable frame start at offset k of buf (of which only the first
\* lim bytes are there)?
Accept(buf, k, lim) ==
  /\ k + 6 <= lim
  /\ buf[k+1] = 211
  /\ FLen(buf, k) >= 6        \* shorter messages are not used by the receiver
  /\ k + FLen(buf, k) + 6 <= lim
  /\ Crc(Slice(buf, k, FLen(buf, k) + 6)) = 0

\* what a receiver finds in a stream
RECURSIVE Scan(_, _, _)
Scan(buf, k, acc) ==
  IF k + 6 > Len(buf) THEN acc
  ELSE IF Accept(buf, k, Len(buf))
       THEN Scan(buf, k + FLen(buf, k) + 6, Append(acc, <<k, FLen(buf, k)>>))
       ELSE Scan(buf, k + 1, acc)

Encode(body) ==
  LET n == Len(body)
      h == <<211, n \div 256, n % 256>> \o body
      c == Crc(h)
  IN  h \o <<c \div 65536, (c \div 256) % 256, c % 256>>

FStart(c) == [x |-> 0]
FDo(s, e) ==
  [st |-> s,
   out |-> CASE e.op = "check" ->
                  LET lim == IF e.maxlen > 0 THEN e.maxlen ELSE Len(e.buf)
                      ok == Accept(e.buf, e.k, lim)
                  IN  IF ok THEN [ok |-> 1, len |-> FLen(e.buf, e.k),
                                  dlen |-> FLen(e.buf, e.k) + 6]
                      ELSE [ok |-> 0]
             [] e.op = "scan" ->
                  LET f == Scan(e.buf, 0, <<>>)
                  IN  [frames |-> f,
                       \* frames sent whole that the channel did not touch and
                       \* that no earlier accepted frame covers are received
                       lost |-> {x \in ToSet(e.sent) :
                          /\ x \notin ToSet(f)
                          /\ \A y \in ToSet(f) : ~ (y[1] < x[1] + x[2] + 6
                                                 /\ x[1] < y[1] + y[2] + 6)}]
             [] e.op = "enc" -> [buf |-> Encode(e.body),
                                 ok |-> IF Len(e.body) >= 6 THEN 1 ELSE 0]]
FSets == {"lost"}
FInv(s) == TRUE
==============================================================================
