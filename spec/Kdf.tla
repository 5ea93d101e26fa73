--------------------------------- MODULE Kdf ---------------------------------
(* The scrypt parameters that libsodium's standard derivation gives for the two  *)
(* limits stored in a secret key, and the bounds beyond which a key is refused.  *)
(* The limits are little-endian 64-bit fields; only those within the bounds      *)
(* (which fit TLC's integers) take part in the derivation.                       *)
EXTENDS Bytes

OpsMax == 33554432          \* 2^25
MemMax == 1073741824        \* 2^30
LogNMax == 20
OpsMin == 32768
R == 8

DefaultOps == 1048576
DefaultMem == 33554432

Excessive(ops8, mem8) == \/ ~LeFits(ops8) \/ LeVal(ops8) > OpsMax
                         \/ ~LeFits(mem8) \/ LeVal(mem8) > MemMax

(* the smallest n >= 1 with 2^n > maxn / 2 *)
LogN(maxn) == MinOf({n \in 1..30 : 2^n > maxn \div 2})

Max(a, b) == IF a > b THEN a ELSE b
MinN(a, b) == IF a < b THEN a ELSE b

Pick(ops0, mem) ==
  LET ops == Max(OpsMin, ops0) IN
  IF ops < mem \div 32
  THEN [logn |-> LogN(ops \div (R * 4)), r |-> R, p |-> 1]
  ELSE LET ln == LogN(mem \div (R * 128))
           maxrp == MinN(1073741823, (ops \div 4) \div 2^ln)
       IN [logn |-> ln, r |-> R, p |-> maxrp \div R]

(* p = 0: memory asked for exceeds what the operations allow; scrypt has no such parameter *)
Supported(q) == q.p >= 1 /\ q.logn <= LogNMax /\ q.logn >= 1

Params(ops8, mem8) ==
  IF Excessive(ops8, mem8) THEN [ok |-> FALSE]
  ELSE LET q == Pick(LeVal(ops8), LeVal(mem8))
       IN IF Supported(q) THEN [ok |-> TRUE, q |-> q] ELSE [ok |-> FALSE]
=============================================================================
