-------------------------------- MODULE KdfMC --------------------------------
(* The derivation of scrypt parameters, over a grid that contains both sides of    *)
(* every threshold; checked against a second, declarative formulation, and for the *)
(* bounds that the refusals are there to guarantee.                                *)
EXTENDS Kdf, TLC, Json

CONSTANTS Emit

(* numbers as 8 little-endian bytes, those beyond TLC's integers included *)
Small == UNION {{2^i - 1, 2^i, 2^i + 1} : i \in 0..29} \cup {2^30 - 1, 2^30, 2^30 + 1, 2147483647,
           3 * 2^14, 3 * 2^15, 3 * 2^20, 5 * 2^18, DefaultOps - 1, DefaultOps + 1, OpsMin - 1, OpsMin + 1, 40000, 524288, 33554431, 33554433, 100000}
Big   == {<<0,0,0,128,0,0,0,0>>, <<255,255,255,255,0,0,0,0>>, <<0,0,0,0,1,0,0,0>>, <<0,128,0,0,1,0,0,0>>, <<0,0,16,0,0,0,0,1>>,
          <<0,0,0,0,0,0,0,128>>, <<255,255,255,255,255,255,255,255>>, <<0,0,0,2,0,0,0,64>>}
Limits == {Le64(x) : x \in Small} \cup Big

VARIABLES ops, mem, done
vars == <<ops, mem, done>>
Init == ops = Le64(0) /\ mem = Le64(0) /\ done = FALSE
Next == ~done /\ ops' \in Limits /\ mem' \in Limits /\ done' = TRUE
Spec == Init /\ [][Next]_vars

Res == Params(ops, mem)

(* ------------------------------------------------------------- properties *)
(* floor of the base-2 logarithm, at least 1 *)
Log2(x) == IF x < 2 THEN 1 ELSE CHOOSE n \in 1..30 : 2^n <= x /\ (n = 30 \/ x < 2^(n + 1))
Declarative ==
  done /\ ~Excessive(ops, mem) =>
    LET o == Max(LeVal(ops), 32768)
        m == LeVal(mem)
        q == Pick(LeVal(ops), m)
    IN IF o < m \div 32 THEN q.logn = Log2(o \div 32) /\ q.p = 1
       ELSE q.logn = Log2(m \div 1024) /\ q.p = ((o \div 4) \div 2^q.logn) \div 8
(* what is accepted takes bounded memory and time *)
Bounded == done /\ Res.ok => /\ Res.q.logn \in 1..20
                             /\ Res.q.r = 8
                             /\ Res.q.p >= 1
                             \* 4 N r p <= max(opslimit, 32768), which bounds the time
                             /\ Res.q.p * 2^Res.q.logn <= Max(LeVal(ops), OpsMin) \div 32
                             \* 128 N r <= max(memlimit, 2048), which bounds the memory
                             /\ 2^Res.q.logn * 1024 <= Max(LeVal(mem), 2048)
Refused == done /\ (~LeFits(ops) \/ ~LeFits(mem) \/ LeVal(ops) > 33554432 \/ LeVal(mem) > 1073741824) => ~Res.ok
Default == Params(Le64(1048576), Le64(33554432)) = [ok |-> TRUE, q |-> [logn |-> 15, r |-> 8, p |-> 1]]
Cost == IF Res.ok THEN Res.q.p * 2^Res.q.logn ELSE 0
Printed == Emit /\ done => PrintT("@@" \o ToJson([ops |-> ops, mem |-> mem, ok |-> Res.ok,
                                               q |-> IF Res.ok THEN Res.q ELSE [logn |-> 0, r |-> 0, p |-> 0],
                                               cost |-> Cost]))
=============================================================================
