-------------------------------- MODULE Bytes --------------------------------
(* Byte strings: slicing, little-endian numbers, UTF-8, lines, white space,      *)
(* standard base64, hexadecimal.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise

Byte == 0..255

(* total: what is not there is left out *)
AtMost(n, m)    == IF n < m THEN n ELSE m
Take(s, n)      == SubSeq(s, 1, AtMost(n, Len(s)))
Drop(s, n)      == SubSeq(s, n + 1, Len(s))
Slice(s, i, n)  == SubSeq(s, i + 1, AtMost(i + n, Len(s)))      \* n bytes from offset i on
Zeros(n)        == [i \in 1..n |-> 0]
XorBytes(a, b)       == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
StartsWith(s, p) == Len(s) >= Len(p) /\ Take(s, Len(p)) = p
Rev(s)          == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Occurs(p, s)    == \/ p = <<>>
                   \/ \E i \in 0..(Len(s) - Len(p)) : s[i + 1] = p[1] /\ Slice(s, i, Len(p)) = p

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

(* little-endian numbers; LeFits says whether the value is below 2^31 *)
LeFits(b)  == (\A i \in 5..Len(b) : b[i] = 0) /\ b[4] < 128
LeVal(b)   == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]
Le64(n)    == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>

------------------------------------------------------------------------------
(* UTF-8 (RFC 3629): UtfAt(s, i) is the length of the well-formed sequence that  *)
(* starts at position i, 0 if there is none.                                     *)
Cont(s, i, lo, hi) == i <= Len(s) /\ s[i] >= lo /\ s[i] <= hi
UtfAt(s, i) ==
  LET b == s[i] IN
  CASE b < 128              -> 1
    [] b \in 194..223       -> IF Cont(s, i+1, 128, 191) THEN 2 ELSE 0
    [] b \in 224..239       -> IF /\ Cont(s, i+1, IF b = 224 THEN 160 ELSE 128, IF b = 237 THEN 159 ELSE 191)
                                  /\ Cont(s, i+2, 128, 191) THEN 3 ELSE 0
    [] b \in 240..244       -> IF /\ Cont(s, i+1, IF b = 240 THEN 144 ELSE 128, IF b = 244 THEN 143 ELSE 191)
                                  /\ Cont(s, i+2, 128, 191) /\ Cont(s, i+3, 128, 191) THEN 4 ELSE 0
    [] OTHER                -> 0
Utf8(s) == \A i \in 1..Len(s) :
             \/ s[i] < 128
             \/ UtfAt(s, i) > 0
             \/ s[i] \in 128..191 /\ \E k \in 1..3 : i - k >= 1 /\ UtfAt(s, i - k) > k

(* Unicode White_Space at the start (offset) or at the end of a UTF-8 string: its length in bytes, or 0 *)
Space2(a, b)    == a = 194 /\ b \in {133, 160}
Space3(a, b, c) == \/ a = 225 /\ b = 154 /\ c = 128
                   \/ a = 226 /\ b = 128 /\ c \in (128..138 \cup {168, 169, 175})
                   \/ a = 226 /\ b = 129 /\ c = 159
                   \/ a = 227 /\ b = 128 /\ c = 128
Space1(a)       == a \in 9..13 \cup {32}
SpaceAtStart(s) == IF s = <<>> THEN 0
                   ELSE IF Space1(s[1]) THEN 1
                   ELSE IF Len(s) >= 2 /\ Space2(s[1], s[2]) THEN 2
                   ELSE IF Len(s) >= 3 /\ Space3(s[1], s[2], s[3]) THEN 3 ELSE 0
SpaceAtEnd(s)   == LET n == Len(s) IN
                   IF n = 0 THEN 0
                   ELSE IF Space1(s[n]) THEN 1
                   ELSE IF n >= 2 /\ Space2(s[n-1], s[n]) THEN 2
                   ELSE IF n >= 3 /\ Space3(s[n-2], s[n-1], s[n]) THEN 3 ELSE 0
RECURSIVE TrimStart(_), TrimEnd(_)
TrimStart(s) == LET k == SpaceAtStart(s) IN IF k = 0 THEN s ELSE TrimStart(Drop(s, k))
TrimEnd(s)   == LET k == SpaceAtEnd(s) IN IF k = 0 THEN s ELSE TrimEnd(Take(s, Len(s) - k))
Trim(s)      == TrimEnd(TrimStart(s))

------------------------------------------------------------------------------
(* Lines: separated by LF; one CR before an LF belongs to the separator; a last  *)
(* line without LF counts if it is not empty, and keeps its CR.  FirstLines      *)
(* gives at most n of them.                                                      *)
RECURSIVE FirstLines(_, _)
FirstLines(s, n) ==
  IF n = 0 \/ s = <<>> THEN <<>>
  ELSE LET nl == {i \in 1..Len(s) : s[i] = 10} IN
       IF nl = {} THEN <<s>>
       ELSE LET e == MinOf(nl)
                l == Take(s, IF e > 1 /\ s[e - 1] = 13 THEN e - 2 ELSE e - 1)
            IN <<l>> \o FirstLines(Drop(s, e), n - 1)

(* a comment that a line of text can hold *)
SingleLine(s) == /\ \A i \in 1..Len(s) : s[i] # 10
                 /\ s # <<>> => s[Len(s)] # 13

------------------------------------------------------------------------------
(* Standard base64 (RFC 4648 section 4), strict: padding required, no other      *)
(* characters, unused bits zero.                                                 *)
B64Char == [i \in 0..63 |-> CASE i < 26 -> 65 + i [] i \in 26..51 -> 71 + i
                              [] i \in 52..61 -> i - 4 [] i = 62 -> 43 [] OTHER -> 47]
B64Val  == [c \in Byte |-> CASE c \in 65..90 -> c - 65 [] c \in 97..122 -> c - 71
                             [] c \in 48..57 -> c + 4 [] c = 43 -> 62 [] c = 47 -> 63 [] OTHER -> 64]
Pad     == 61

B64Encode(b) ==
  LET n == Len(b)
      at(i) == IF i <= n THEN b[i] ELSE 0
      six(k) == LET g == (k - 1) \div 4  j == (k - 1) % 4
                    x == at(3*g + 1)  y == at(3*g + 2)  z == at(3*g + 3)
                IN CASE j = 0 -> x \div 4
                     [] j = 1 -> (x % 4) * 16 + y \div 16
                     [] j = 2 -> (y % 16) * 4 + z \div 64
                     [] j = 3 -> z % 64
      len == 4 * ((n + 2) \div 3)
      pads == (3 - (n % 3)) % 3
  IN [k \in 1..len |-> IF k > len - pads THEN Pad ELSE B64Char[six(k)]]

BadBytes == [ok |-> FALSE, b |-> <<>>]
B64Decode(s) ==
  LET n == Len(s)
      pads == IF n >= 1 /\ s[n] = Pad THEN (IF n >= 2 /\ s[n-1] = Pad THEN 2 ELSE 1) ELSE 0
      m == n - pads
      v(i) == IF i <= m THEN B64Val[s[i]] ELSE 0
      out(k) == LET g == (k - 1) \div 3  j == (k - 1) % 3
                IN CASE j = 0 -> v(4*g + 1) * 4 + v(4*g + 2) \div 16
                     [] j = 1 -> (v(4*g + 2) % 16) * 16 + v(4*g + 3) \div 4
                     [] j = 2 -> (v(4*g + 3) % 4) * 64 + v(4*g + 4)
  IN IF \/ n % 4 # 0
        \/ \E i \in 1..m : B64Val[s[i]] = 64
        \/ pads = 1 /\ v(m) % 4 # 0
        \/ pads = 2 /\ v(m) % 16 # 0
     THEN BadBytes
     ELSE [ok |-> TRUE, b |-> [k \in 1..((n \div 4) * 3 - pads) |-> out(k)]]

HexDigit == [i \in 0..15 |-> IF i < 10 THEN 48 + i ELSE 55 + i]
UpperHex(b) == [k \in 1..(2 * Len(b)) |->
                  HexDigit[IF k % 2 = 1 THEN b[(k + 1) \div 2] \div 16 ELSE b[k \div 2] % 16]]

IsDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in 48..57
(* decimal numerals without leading zeros, compared as numbers *)
DecLeq(a, b) == \/ Len(a) < Len(b)
                \/ /\ Len(a) = Len(b)
                   /\ \/ a = b
                      \/ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
=============================================================================
