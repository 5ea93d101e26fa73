-------------------------------- MODULE Prim ---------------------------------
(* The cryptographic primitives, written out: BLAKE2b (RFC 7693), SHA-512 and SHA-256   *)
(* (FIPS 180-4), HMAC (RFC 2104), PBKDF2 with one iteration (RFC 8018), Salsa20/8 and     *)
(* scrypt (RFC 7914), Ed25519 (RFC 8032).  They give the operators of Oracle.tla, which    *)
(* TLC takes from Java for speed, a meaning inside the specification; PrimMC.tla compares    *)
(* the two.  Words are little-endian tuples of 16-bit halves, field elements and scalars of   *)
(* 13-bit limbs, since the integers of TLC have 32 bits.                                        *)
EXTENDS Integers, Sequences, Bitwise, TLC
LOCAL INSTANCE SequencesExt

Upto(n) == [i \in 1..n |-> i]
Fold(F(_, _), base, n) == FoldLeft(F, base, Upto(n))
(* F with arguments evaluated once *)
Strict(F(_, _), a, b) == LET G(z, ab) == F(ab[1], ab[2]) IN FoldLeft(G, 0, << <<a, b>> >>)
Piece(s, i, n) == SubSeq(s, i + 1, i + n)

------------------------------------------------------------------------------
(* 64-bit words *)
Add64(a, b) ==
  LET s0 == a[1] + b[1]
      s1 == a[2] + b[2] + (s0 \div 65536)
      s2 == a[3] + b[3] + (s1 \div 65536)
      s3 == a[4] + b[4] + (s2 \div 65536)
  IN <<s0 % 65536, s1 % 65536, s2 % 65536, s3 % 65536>>
Xor64(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
And64(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
Not64(a)    == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>
Rotr64(a, n) ==
  LET k == n \div 16
      s == n % 16
      lo == 2 ^ s
      hi == 2 ^ (16 - s)
      h(i) == a[((i + k - 1) % 4) + 1]
      o(i) == (h(i) \div lo) + ((h(i + 1) % lo) * hi)
  IN <<o(1), o(2), o(3), o(4)>>
Shr64(a, n) ==
  LET lo == 2 ^ n
      hi == 2 ^ (16 - n)
  IN <<(a[1] \div lo) + ((a[2] % lo) * hi), (a[2] \div lo) + ((a[3] % lo) * hi), (a[3] \div lo) + ((a[4] % lo) * hi), a[4] \div lo>>
(* from and to bytes, little-endian and big-endian *)
Le64At(b, i) == <<b[i+1] + 256 * b[i+2], b[i+3] + 256 * b[i+4], b[i+5] + 256 * b[i+6], b[i+7] + 256 * b[i+8]>>
Be64At(b, i) == <<b[i+8] + 256 * b[i+7], b[i+6] + 256 * b[i+5], b[i+4] + 256 * b[i+3], b[i+2] + 256 * b[i+1]>>
LeOf64(w) == <<w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256, w[3] % 256, w[3] \div 256, w[4] % 256, w[4] \div 256>>
BeOf64(w) == <<w[4] \div 256, w[4] % 256, w[3] \div 256, w[3] % 256, w[2] \div 256, w[2] % 256, w[1] \div 256, w[1] % 256>>
Num64(n) == <<n % 65536, n \div 65536, 0, 0>>

(* 32-bit words *)
Add32(a, b) == LET s == a[1] + b[1] IN <<s % 65536, (a[2] + b[2] + (s \div 65536)) % 65536>>
Xor32(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
And32(a, b) == <<a[1] & b[1], a[2] & b[2]>>
Not32(a)    == <<65535 - a[1], 65535 - a[2]>>
Rotr32(a, n) ==
  LET s == n % 16
      x == IF n >= 16 THEN <<a[2], a[1]>> ELSE a
      lo == 2 ^ s
      hi == 2 ^ (16 - s)
  IN <<(x[1] \div lo) + ((x[2] % lo) * hi), (x[2] \div lo) + ((x[1] % lo) * hi)>>
Shr32(a, n) == LET lo == 2 ^ n  hi == 2 ^ (16 - n) IN <<(a[1] \div lo) + ((a[2] % lo) * hi), a[2] \div lo>>
Le32At(b, i) == <<b[i+1] + 256 * b[i+2], b[i+3] + 256 * b[i+4]>>
Be32At(b, i) == <<b[i+4] + 256 * b[i+3], b[i+2] + 256 * b[i+1]>>
LeOf32(w) == <<w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256>>
BeOf32(w) == <<w[2] \div 256, w[2] % 256, w[1] \div 256, w[1] % 256>>

Nulls(n) == [i \in 1..n |-> 0]

------------------------------------------------------------------------------
(* BLAKE2b, unkeyed *)
IV64 == <<<<51464,62396,58983,27145>>, <<42811,33994,44677,47975>>, <<63531,65172,62322,15470>>, <<14065,24349,62778,42319>>,
   <<33489,44518,21119,20750>>, <<27679,11070,26764,39685>>, <<48491,64321,55723,8067>>, <<8569,4990,52505,23520>>>>
Sigma ==
  <<<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15>>,
   <<14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3>>,
   <<11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4>>,
   <<7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8>>,
   <<9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13>>,
   <<2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9>>,
   <<12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11>>,
   <<13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10>>,
   <<6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5>>,
   <<10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0>>>>
Mix(v, a, b, c, d, x, y) ==
  LET a1 == Add64(Add64(v[a], v[b]), x)
      d1 == Rotr64(Xor64(v[d], a1), 32)
      c1 == Add64(v[c], d1)
      b1 == Rotr64(Xor64(v[b], c1), 24)
      a2 == Add64(Add64(a1, b1), y)
      d2 == Rotr64(Xor64(d1, a2), 16)
      c2 == Add64(c1, d2)
      b2 == Rotr64(Xor64(b1, c2), 63)
  IN [v EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
Lanes == << <<1,5,9,13>>, <<2,6,10,14>>, <<3,7,11,15>>, <<4,8,12,16>>, <<1,6,11,16>>, <<2,7,12,13>>, <<3,8,9,14>>, <<4,5,10,15>> >>
Compress(h, block, count, last) ==
  LET m == TLCEval([i \in 1..16 |-> Le64At(block, 8 * (i - 1))])
      v0 == h \o <<IV64[1], IV64[2], IV64[3], IV64[4], Xor64(IV64[5], Num64(count)), IV64[6], IF last THEN Not64(IV64[7]) ELSE IV64[7], IV64[8]>>
      step(v, k) == LET s == Sigma[(((k - 1) \div 8) % 10) + 1]
                        j == (k - 1) % 8
                        l == Lanes[j + 1]
                    IN Mix(v, l[1], l[2], l[3], l[4], m[s[2 * j + 1] + 1], m[s[2 * j + 2] + 1])
      w == Fold(step, v0, 96)
  IN TLCEval([i \in 1..8 |-> Xor64(h[i], Xor64(w[i], w[i + 8]))])
PBlake2b(n, b) ==
  LET blocks == IF b = <<>> THEN 1 ELSE (Len(b) + 127) \div 128
      padded == b \o Nulls(128 * blocks - Len(b))
      h0 == [IV64 EXCEPT ![1] = Xor64(@, <<n, 257, 0, 0>>)]
      step(h, k) == Compress(h, Piece(padded, 128 * (k - 1), 128), IF k = blocks THEN Len(b) ELSE 128 * k, k = blocks)
      h == Fold(step, h0, blocks)
  IN SubSeq(LeOf64(h[1]) \o LeOf64(h[2]) \o LeOf64(h[3]) \o LeOf64(h[4]) \o LeOf64(h[5]) \o LeOf64(h[6]) \o LeOf64(h[7]) \o LeOf64(h[8]), 1, n)

------------------------------------------------------------------------------
(* SHA-512 *)
K512 ==
  <<<<44578,55080,12184,17034>>, <<26061,9199,17553,28983>>, <<15151,60493,64463,46528>>, <<56252,33161,56229,59829>>,
   <<46392,62280,49755,14678>>, <<53273,46597,4593,23025>>, <<20379,44825,33444,37439>>, <<33048,55917,24277,43804>>,
   <<578,41731,43672,55303>>, <<28606,17776,23297,4739>>, <<45708,20196,34238,9265>>, <<46306,54783,32195,21772>>,
   <<35183,62075,23924,29374>>, <<38577,15126,45566,32990>>, <<4661,9671,1703,39900>>, <<9876,53097,61812,49563>>,
   <<19154,40689,27073,58523>>, <<9699,14415,18310,61374>>, <<54709,35724,40390,4033>>, <<40037,30636,41420,9228>>,
   <<629,22827,11375,11753>>, <<58499,28326,33962,19060>>, <<64468,48449,43484,23728>>, <<21429,33553,35034,30457>>,
   <<57259,61030,20818,38974>>, <<12816,11700,50797,43057>>, <<8511,39163,10184,45059>>, <<3812,48879,32711,48985>>,
   <<36802,15784,3059,50912>>, <<42789,37642,37191,54695>>, <<33391,57347,25425,1738>>, <<28272,2574,10599,5161>>,
   <<12284,18130,2693,10167>>, <<51494,23590,8504,11803>>, <<10989,23236,28156,19756>>, <<46047,40341,3347,21304>>,
   <<25566,35759,29524,25866>>, <<45736,15479,2747,30314>>, <<44774,18413,51502,33218>>, <<13627,5250,11397,37490>>,
   <<868,19697,59553,41663>>, <<12289,48194,26187,43034>>, <<38801,53496,35696,49739>>, <<48688,1620,20899,51052>>,
   <<21016,55023,59417,53650>>, <<43280,21861,1572,54937>>, <<8234,22385,13701,62478>>, <<53688,12987,41072,4202>>,
   <<53448,47314,49430,6564>>, <<43859,20801,27656,7735>>, <<60313,57230,30540,10056>>, <<18600,57755,48309,13488>>,
   <<23139,50633,3251,14620>>, <<35531,58177,43594,20184>>, <<58227,30563,51791,23452>>, <<47267,54962,28659,26670>>,
   <<45820,24047,33518,29839>>, <<12128,17175,25455,30885>>, <<43890,41456,30740,33992>>, <<14828,6756,520,36039>>,
   <<7720,9059,65530,37054>>, <<48617,56962,27883,42064>>, <<30997,45766,41975,48889>>, <<21291,58226,30962,50801>>,
   <<24988,59942,16078,51751>>, <<49671,8640,47303,53638>>, <<60190,52704,32214,60122>>, <<53624,61038,20351,62845>>,
   <<28602,29207,26538,1776>>, <<39078,41672,32197,2659>>, <<3502,48889,38916,4415>>, <<18203,4892,2869,7025>>,
   <<32132,8964,30709,10459>>, <<9363,16583,43899,13002>>, <<48828,5577,48650,15518>>, <<3404,39952,26564,17181>>,
   <<17078,52030,54462,19653>>, <<32298,64613,10652,22911>>, <<64236,15062,28587,24523>>, <<22551,19015,6540,27716>>>>
Sha512Block(h, b) ==
  LET w0 == [i \in 1..16 |-> Be64At(b, 8 * (i - 1))]
      sched(w, k) == LET t == k + 16
                         x == w[t - 15]
                         y == w[t - 2]
                         s0 == Xor64(Xor64(Rotr64(x, 1), Rotr64(x, 8)), Shr64(x, 7))
                         s1 == Xor64(Xor64(Rotr64(y, 19), Rotr64(y, 61)), Shr64(y, 6))
                     IN Append(w, Add64(Add64(w[t - 16], s0), Add64(w[t - 7], s1)))
      W == Fold(sched, TLCEval(w0), 64)
      round(s, k) ==
        LET e == s[5]
            a == s[1]
            S1 == Xor64(Xor64(Rotr64(e, 14), Rotr64(e, 18)), Rotr64(e, 41))
            ch == Xor64(And64(e, s[6]), And64(Not64(e), s[7]))
            t1 == Add64(Add64(Add64(s[8], S1), Add64(ch, K512[k])), W[k])
            S0 == Xor64(Xor64(Rotr64(a, 28), Rotr64(a, 34)), Rotr64(a, 39))
            mj == Xor64(Xor64(And64(a, s[2]), And64(a, s[3])), And64(s[2], s[3]))
        IN <<Add64(t1, Add64(S0, mj)), s[1], s[2], s[3], Add64(s[4], t1), s[5], s[6], s[7]>>
      r == Fold(round, h, 80)
  IN TLCEval([i \in 1..8 |-> Add64(h[i], r[i])])
(* messages shorter than 2^28 bytes *)
PSha512(b) ==
  LET n == Len(b)
      z == (239 - (n % 128)) % 128
      bits == 8 * n
      padded == b \o <<128>> \o Nulls(z) \o Nulls(12) \o <<bits \div 16777216, (bits \div 65536) % 256, (bits \div 256) % 256, bits % 256>>
      step(h, k) == Sha512Block(h, Piece(padded, 128 * (k - 1), 128))
      h == Fold(step, IV64, Len(padded) \div 128)
  IN BeOf64(h[1]) \o BeOf64(h[2]) \o BeOf64(h[3]) \o BeOf64(h[4]) \o BeOf64(h[5]) \o BeOf64(h[6]) \o BeOf64(h[7]) \o BeOf64(h[8])

------------------------------------------------------------------------------
(* SHA-256, HMAC, PBKDF2, scrypt *)
IV32 == <<<<58983,27145>>, <<44677,47975>>, <<62322,15470>>, <<62778,42319>>, <<21119,20750>>, <<26764,39685>>, <<55723,8067>>, <<52505,23520>>>>
K256 ==
  <<<<12184,17034>>, <<17553,28983>>, <<64463,46528>>, <<56229,59829>>, <<49755,14678>>, <<4593,23025>>, <<33444,37439>>, <<24277,43804>>,
   <<43672,55303>>, <<23297,4739>>, <<34238,9265>>, <<32195,21772>>, <<23924,29374>>, <<45566,32990>>, <<1703,39900>>, <<61812,49563>>,
   <<27073,58523>>, <<18310,61374>>, <<40390,4033>>, <<41420,9228>>, <<11375,11753>>, <<33962,19060>>, <<43484,23728>>, <<35034,30457>>,
   <<20818,38974>>, <<50797,43057>>, <<10184,45059>>, <<32711,48985>>, <<3059,50912>>, <<37191,54695>>, <<25425,1738>>, <<10599,5161>>,
   <<2693,10167>>, <<8504,11803>>, <<28156,19756>>, <<3347,21304>>, <<29524,25866>>, <<2747,30314>>, <<51502,33218>>, <<11397,37490>>,
   <<59553,41663>>, <<26187,43034>>, <<35696,49739>>, <<20899,51052>>, <<59417,53650>>, <<1572,54937>>, <<13701,62478>>, <<41072,4202>>,
   <<49430,6564>>, <<27656,7735>>, <<30540,10056>>, <<48309,13488>>, <<3251,14620>>, <<43594,20184>>, <<51791,23452>>, <<28659,26670>>,
   <<33518,29839>>, <<25455,30885>>, <<30740,33992>>, <<520,36039>>, <<65530,37054>>, <<27883,42064>>, <<41975,48889>>, <<30962,50801>>>>
Sha256Block(h, b) ==
  LET w0 == [i \in 1..16 |-> Be32At(b, 4 * (i - 1))]
      sched(w, k) == LET t == k + 16
                         x == w[t - 15]
                         y == w[t - 2]
                         s0 == Xor32(Xor32(Rotr32(x, 7), Rotr32(x, 18)), Shr32(x, 3))
                         s1 == Xor32(Xor32(Rotr32(y, 17), Rotr32(y, 19)), Shr32(y, 10))
                     IN Append(w, Add32(Add32(w[t - 16], s0), Add32(w[t - 7], s1)))
      W == Fold(sched, TLCEval(w0), 48)
      round(s, k) ==
        LET e == s[5]
            a == s[1]
            S1 == Xor32(Xor32(Rotr32(e, 6), Rotr32(e, 11)), Rotr32(e, 25))
            ch == Xor32(And32(e, s[6]), And32(Not32(e), s[7]))
            t1 == Add32(Add32(Add32(s[8], S1), Add32(ch, K256[k])), W[k])
            S0 == Xor32(Xor32(Rotr32(a, 2), Rotr32(a, 13)), Rotr32(a, 22))
            mj == Xor32(Xor32(And32(a, s[2]), And32(a, s[3])), And32(s[2], s[3]))
        IN <<Add32(t1, Add32(S0, mj)), s[1], s[2], s[3], Add32(s[4], t1), s[5], s[6], s[7]>>
      r == Fold(round, h, 64)
  IN TLCEval([i \in 1..8 |-> Add32(h[i], r[i])])
PSha256(b) ==
  LET n == Len(b)
      z == (119 - (n % 64)) % 64
      bits == 8 * n
      padded == b \o <<128>> \o Nulls(z) \o Nulls(4) \o <<bits \div 16777216, (bits \div 65536) % 256, (bits \div 256) % 256, bits % 256>>
      step(h, k) == Sha256Block(h, Piece(padded, 64 * (k - 1), 64))
      h == Fold(step, IV32, Len(padded) \div 64)
  IN BeOf32(h[1]) \o BeOf32(h[2]) \o BeOf32(h[3]) \o BeOf32(h[4]) \o BeOf32(h[5]) \o BeOf32(h[6]) \o BeOf32(h[7]) \o BeOf32(h[8])

PHmac(key, msg) ==
  LET k == IF Len(key) > 64 THEN PSha256(key) ELSE key
      p == TLCEval(k \o Nulls(64 - Len(k)))
      x(c) == TLCEval([i \in 1..64 |-> p[i] ^^ c])
  IN PSha256(x(92) \o PSha256(x(54) \o msg))
PPbkdf2(pw, salt, n) ==
  LET step(o, k) == o \o PHmac(pw, salt \o <<0, 0, k \div 256, k % 256>>)
  IN SubSeq(Fold(step, <<>>, (n + 31) \div 32), 1, n)

Quarters == << <<1,5,9,13>>, <<6,10,14,2>>, <<11,15,3,7>>, <<16,4,8,12>>, <<1,2,3,4>>, <<6,7,8,5>>, <<11,12,9,10>>, <<16,13,14,15>> >>
Rotl32(a, n) == Rotr32(a, 32 - n)
Quarter(x, q) ==
  LET b == Xor32(x[q[2]], Rotl32(Add32(x[q[1]], x[q[4]]), 7))
      c == Xor32(x[q[3]], Rotl32(Add32(b, x[q[1]]), 9))
      d == Xor32(x[q[4]], Rotl32(Add32(c, b), 13))
      a == Xor32(x[q[1]], Rotl32(Add32(d, c), 18))
  IN [x EXCEPT ![q[1]] = a, ![q[2]] = b, ![q[3]] = c, ![q[4]] = d]
Salsa8(x) ==
  LET step(y, k) == Quarter(y, Quarters[((k - 1) % 8) + 1])
      y == Fold(step, x, 32)
  IN TLCEval([i \in 1..16 |-> Add32(x[i], y[i])])
XorWords(a, b) == TLCEval([i \in 1..Len(a) |-> Xor32(a[i], b[i])])
(* a block of 2r chunks of 16 words *)
BlockMix(b, r) ==
  LET step(s, k) == LET x == Salsa8(XorWords(s.x, Piece(b, 16 * (k - 1), 16)))
                    IN [x |-> x, even |-> IF k % 2 = 1 THEN s.even \o x ELSE s.even, odd |-> IF k % 2 = 0 THEN s.odd \o x ELSE s.odd]
      s == Fold(step, [x |-> Piece(b, 16 * (2 * r - 1), 16), even |-> <<>>, odd |-> <<>>], 2 * r)
  IN s.even \o s.odd
(* at most 2^16 blocks; what is folded over is evaluated once, what a LET in between names would not be *)
RoMix(b, r, n) ==
  LET fill(s, k) == [x |-> BlockMix(s.x, r), v |-> Append(s.v, s.x)]
      mix(s, k) == [s EXCEPT !.x = BlockMix(XorWords(s.x, s.v[(s.x[16 * (2 * r - 1) + 1][1] % n) + 1]), r)]
  IN Fold(mix, Fold(fill, [x |-> b, v |-> <<>>], n), n).x
WordsOf(b, r)  == TLCEval([k \in 1..(32 * r) |-> Le32At(b, 4 * (k - 1))])
BytesOf(w)     == LET step(o, k) == o \o LeOf32(w[k]) IN Fold(step, <<>>, Len(w))
Shuffled(b, r, ln) == BytesOf(FoldLeft(LAMBDA z, x : RoMix(x, r, 2 ^ ln), 0, <<WordsOf(b, r)>>))
PScrypt(pw, salt, ln, r, p, n) ==
  LET parts(b) == [i \in 1..p |-> Piece(b, 128 * r * (i - 1), 128 * r)]
      step(o, x) == o \o Shuffled(x, r, ln)
      whole(z, b) == FoldLeft(step, <<>>, TLCEval(parts(b)))
  IN PPbkdf2(pw, FoldLeft(whole, 0, <<PPbkdf2(pw, salt, 128 * r * p)>>), n)

------------------------------------------------------------------------------
(* integers modulo p = 2^255 - 19 as 20 limbs of 13 bits *)
BitsOf(z, b) == TLCEval([i \in 1..(8 * Len(b)) |-> (b[((i - 1) \div 8) + 1] \div (2 ^ ((i - 1) % 8))) % 2])
Bits(b) == FoldLeft(BitsOf, 0, <<b>>)
(* limbs from bits, least significant first *)
LimbsOf(z, bits) ==
  LET bit(i) == IF i <= Len(bits) THEN bits[i] ELSE 0
      limb(k) == LET step(s, j) == s + bit(13 * (k - 1) + j) * (2 ^ (j - 1)) IN Fold(step, 0, 13)
  IN TLCEval([k \in 1..20 |-> limb(k)])
Limbs(bits) == FoldLeft(LimbsOf, 0, <<bits>>)
LimbBytes(z, x) ==
  LET bit(i) == (x[(i \div 13) + 1] \div (2 ^ (i % 13))) % 2
      byte(k) == LET step(s, j) == s + bit(8 * (k - 1) + j - 1) * (2 ^ (j - 1)) IN Fold(step, 0, 8)
  IN TLCEval([k \in 1..32 |-> byte(k)])
BytesOfLimbs(x) == FoldLeft(LimbBytes, 0, <<x>>)
(* carries of limbs of any size and sign *)
Carry(x) ==
  LET step(s, k) == LET t == x[k] + s.c IN [o |-> Append(s.o, t % 8192), c |-> t \div 8192]
  IN Fold(step, [o |-> <<>>, c |-> 0], Len(x))
RECURSIVE Norm(_)
(* 2^260 = 608 modulo p *)
Norm(x) == LET s == Carry(x) IN IF s.c = 0 THEN s.o ELSE Norm([s.o EXCEPT ![1] = @ + 608 * s.c])
Plus(a, b) == Norm(TLCEval([k \in 1..20 |-> a[k] + b[k]]))
Minus(a, b) == Norm(TLCEval([k \in 1..20 |-> a[k] - b[k]]))
FAdd(a, b) == Strict(Plus, a, b)
FSub(a, b) == Strict(Minus, a, b)
Terms20 == TLCEval([k \in 1..39 |-> LET lo == IF k > 20 THEN k - 19 ELSE 1  hi == IF k > 20 THEN 20 ELSE k IN TLCEval([i \in 1..(hi - lo + 1) |-> lo + i - 1])])
Upto39 == TLCEval(Upto(39))
Mul(a, b) ==
  LET limb(k) == LET step(s, i) == s + a[i] * b[k + 1 - i] IN FoldLeft(step, 0, Terms20[k])
      col(o, k) == Append(o, limb(k))
      s == Carry(FoldLeft(col, <<>>, Upto39))
      w == Append(s.o, s.c)
  IN Norm(TLCEval([k \in 1..20 |-> w[k] + 608 * w[k + 20]]))
FMul(a, b) == Strict(Mul, a, b)
FSq(a) == FMul(a, a)
F0 == Nulls(20)
FNum(n) == Norm([F0 EXCEPT ![1] = n])
F1 == FNum(1)
(* the representative below p *)
Canonical(a) ==
  LET fold(x) == LET q == x[20] \div 256 IN Carry([x EXCEPT ![20] = @ % 256, ![1] = @ + 19 * q]).o
      y == fold(fold(a))
      z == Carry([y EXCEPT ![1] = @ + 19]).o
  IN IF z[20] >= 256 THEN [z EXCEPT ![20] = @ - 256] ELSE y
FEq(a, b) == Canonical(a) = Canonical(b)
FZero(a)  == Canonical(a) = F0
FNeg(a)   == FSub(F0, a)
(* a to the power whose bits are given, most significant first *)
FPow(a, bits) == LET step(r, b) == IF b = 1 THEN FMul(FSq(r), a) ELSE FSq(r) IN FoldLeft(step, F1, bits)
ExpInv  == <<1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,0,1,0,1,1>>
ExpRoot == <<1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,0>>
FInv(a) == FPow(a, ExpInv)

(* the curve: -x^2 + y^2 = 1 + d x^2 y^2, extended coordinates (RFC 8032, 5.1.4) *)
CurveD == <<6307, 6859, 4740, 5787, 5982, 3157, 1287, 2472, 4106, 3, 6694, 3827, 1943, 928, 3635, 8142, 2927, 1905, 219, 164>>
TwiceD == <<4441, 5527, 1289, 3383, 3773, 6315, 2574, 4944, 20, 7, 5196, 7655, 3886, 1856, 7270, 8092, 5855, 3810, 438, 72>>
RootM1 == <<176, 4213, 2514, 7222, 3150, 4668, 5311, 213, 792, 6522, 5609, 7159, 2451, 1664, 3245, 7137, 4033, 1026, 201, 87>>
Sum(p, q) ==
  LET a == FMul(FSub(p[2], p[1]), FSub(q[2], q[1]))
      b == FMul(FAdd(p[2], p[1]), FAdd(q[2], q[1]))
      c == FMul(FMul(p[4], TwiceD), q[4])
      zz == FMul(p[3], q[3])
      d == FAdd(zz, zz)
      e == FSub(b, a)
      f == FSub(d, c)
      g == FAdd(d, c)
      h == FAdd(b, a)
  IN <<FMul(e, f), FMul(g, h), FMul(f, g), FMul(e, h)>>
PtAdd(p, q) == Strict(Sum, p, q)
PtNeutral == <<F0, F1, F1, F0>>
PtNeg(p) == <<FNeg(p[1]), p[2], p[3], FNeg(p[4])>>
PtEncode(p) ==
  LET affine(z, x) == LET zi == FInv(x[3]) IN FoldLeft(LAMBDA y, w : <<Canonical(FMul(x[1], w)), Canonical(FMul(x[2], w))>>, 0, <<zi>>)
      bytes(z, a) == [BytesOfLimbs(a[2]) EXCEPT ![32] = @ + 128 * (a[1][1] % 2)]
  IN FoldLeft(bytes, 0, <<FoldLeft(affine, 0, <<p>>)>>)
NoPoint == <<>>
(* y is taken modulo p, and -0 for 0 *)
PtDecode(b) ==
  LET sign == b[32] \div 128
      ratio(z, y) == LET yy == FSq(y) IN <<y, FMul(FSub(yy, F1), FInv(FAdd(FMul(CurveD, yy), F1)))>>
      root(z, x) == <<x[1], x[2], FPow(x[2], ExpRoot)>>
      other(z, x) == IF FEq(FSq(x[3]), x[2]) THEN x ELSE <<x[1], x[2], FMul(x[3], RootM1)>>
      point(z, x) == IF ~FEq(FSq(x[3]), x[2]) THEN NoPoint
                     ELSE FoldLeft(LAMBDA u, v : <<v, x[1], F1, FMul(v, x[1])>>, 0, <<IF Canonical(x[3])[1] % 2 = sign THEN x[3] ELSE FNeg(x[3])>>)
      thread(F(_, _), x) == FoldLeft(F, 0, <<x>>)
  IN thread(point, thread(other, thread(root, thread(ratio, Limbs(Bits([b EXCEPT ![32] = @ % 128]))))))
PtBase == <<<<5402, 6446, 6179, 3162, 3221, 5081, 5270, 3090, 3271, 841, 5911, 7085, 799, 4721, 6914, 2687, 3438, 5790, 6733, 66>>,
            <<1624, 4915, 6553, 3276, 1638, 4915, 6553, 3276, 1638, 4915, 6553, 3276, 1638, 4915, 6553, 3276, 1638, 4915, 6553, 204>>,
            F1, <<7587, 3518, 3305, 7445, 5853, 2426, 7493, 4110, 4255, 2311, 6367, 2391, 2278, 5415, 5531, 3788, 6027, 6270, 471, 207>>>>
(* [s]P + [t]Q for bits given least significant first *)
PtMul2(s, p, t, q) ==
  LET mul(z, x) ==
        LET n == Len(x.s)
            step(r, k) == LET i == n + 1 - k
                              b == <<x.s[i], x.t[i]>>
                              dbl(y, w) == PtAdd(w, w)
                              d == FoldLeft(dbl, 0, <<r>>)
                          IN CASE b = <<1, 1>> -> PtAdd(d, x.pq)
                               [] b = <<1, 0>> -> PtAdd(d, x.p)
                               [] b = <<0, 1>> -> PtAdd(d, x.q)
                               [] OTHER -> d
        IN Fold(step, PtNeutral, n)
  IN FoldLeft(mul, 0, <<[s |-> s, t |-> t, p |-> p, q |-> q, pq |-> PtAdd(p, q)]>>)

(* scalars modulo the order of the base point *)
OrderL == <<5101,1966,1687,1222,1409,3691,3038,7124,7929,166,0,0,0,0,0,0,0,0,0,32>>
Below(a, b) == \E k \in 1..20 : a[k] < b[k] /\ \A j \in (k + 1)..20 : a[j] = b[j]
MinusL(a) == Carry([k \in 1..20 |-> a[k] - OrderL[k]]).o
Reduce(z, bits) ==
  LET n == Len(bits)
      step(r, k) == LET d == Carry(TLCEval([j \in 1..20 |-> 2 * r[j] + (IF j = 1 THEN bits[n + 1 - k] ELSE 0)])).o
                    IN IF Below(d, OrderL) THEN d ELSE MinusL(d)
  IN Fold(step, F0, n)

(* what these numbers are *)
Constants ==
  /\ FEq(FMul(CurveD, FNum(121666)), FNeg(FNum(121665)))
  /\ FEq(TwiceD, FAdd(CurveD, CurveD))
  /\ FEq(FSq(RootM1), FNeg(F1))
  /\ FEq(FMul(PtBase[2], FNum(5)), FNum(4)) /\ PtBase[1][1] % 2 = 0
  /\ FEq(FSub(FSq(PtBase[2]), FSq(PtBase[1])), FAdd(F1, FMul(CurveD, FSq(PtBase[4]))))
  /\ FEq(PtBase[4], FMul(PtBase[1], PtBase[2]))
  /\ PtEncode(PtMul2(Bits(BytesOfLimbs(OrderL)), PtBase, Nulls(256), PtNeutral)) = PtEncode(PtNeutral)
ReduceL(bits) == FoldLeft(Reduce, 0, <<bits>>)

PEdVerify(key, msg, sig) ==
  LET rb == SubSeq(sig, 1, 32)
      sb == SubSeq(sig, 33, 64)
      a == PtDecode(key)
      h == ReduceL(Bits(PSha512(rb \o key \o msg)))
  IN /\ Len(key) = 32 /\ Len(sig) = 64
     /\ Below(Limbs(Bits(sb)), OrderL)
     /\ a # NoPoint
     /\ key # Nulls(32)
     /\ ~(FZero(a[1]) /\ FEq(a[2], F1))
     /\ PtEncode(PtMul2(Bits(sb), PtBase, Bits(BytesOfLimbs(h)), PtNeg(a))) = rb
PEdPub(seed) ==
  LET h == SubSeq(PSha512(seed), 1, 32)
      s == [h EXCEPT ![1] = @ - (@ % 8), ![32] = (@ % 64) + 64]
  IN PtEncode(PtMul2(Bits(s), PtBase, Nulls(256), PtNeutral))
==============================================================================
