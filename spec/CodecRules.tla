------------------------------ MODULE CodecRules ------------------------------
(* The encodings the library is built on, defined by arithmetic: base64url     *)
(* without padding (RFC 4648, 7515), unsigned numbers as base64url (RFC 7518,  *)
(* Base64urlUInt), UTF-8.  Octets, characters of encoded text and Unicode code *)
(* points are numbers; octet strings and texts are sequences of them; a large  *)
(* number is the sequence of its digits to the base 256, without leading zeros.*)
EXTENDS Naturals, Sequences

(* base64url                                                                   *)
Letter(x) == IF x < 26 THEN 65 + x ELSE IF x < 52 THEN 71 + x ELSE IF x < 62 THEN x - 4 ELSE IF x = 62 THEN 45 ELSE 95
Value(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 45 THEN 62 ELSE IF c = 95 THEN 63 ELSE 64
Shift(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64 [] n = 7 -> 128 [] n = 8 -> 256 [] n = 9 -> 512 [] n = 10 -> 1024
At(s, i) == IF i \in DOMAIN s THEN s[i] ELSE 0
(* The k-th group of six bits: it lies in two neighbouring octets.             *)
Six(b, k) == LET q == (6 * k) \div 8
                 r == (6 * k) % 8
             IN ((At(b, q + 1) * 256 + At(b, q + 2)) \div Shift(10 - r)) % 64
Enc(b) == [k \in 1..((8 * Len(b) + 5) \div 6) |-> Letter(Six(b, k - 1))]
IsText(t) == \A i \in DOMAIN t : Value(t[i]) < 64
(* The k-th octet: it lies in two neighbouring characters.                     *)
Octet(t, k) == LET q == (8 * k) \div 6
                   r == (8 * k) % 6
                   w == Value(t[q + 1]) * 4096 + Value(At(t, q + 2)) * 64 + (IF q + 3 \in DOMAIN t THEN Value(t[q + 3]) ELSE 0)
               IN (w \div Shift(10 - r)) % 256
Dec(t) == [k \in 1..((6 * Len(t)) \div 8) |-> Octet(t, k - 1)]

(* Numbers                                                                     *)
Zeros(n) == [i \in 1..n |-> 0]
Padded(d, size) == Zeros(size - Len(d)) \o d
(* size 0: as many octets as needed, at least one.                             *)
EncNum(d, size) == Enc(IF size = 0 THEN (IF d = <<>> THEN <<0>> ELSE d) ELSE Padded(d, size))
RECURSIVE Strip(_)
Strip(d) == IF d = <<>> THEN d ELSE IF d[1] # 0 THEN d ELSE Strip(Tail(d))
DecNum(t) == Strip(Dec(t))

(* UTF-8                                                                       *)
Utf1(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Utf8(_)
Utf8(t) == IF t = <<>> THEN <<>> ELSE Utf1(t[1]) \o Utf8(Tail(t))
=============================================================================
