-------------------------------- MODULE Stream --------------------------------
(* Reading the data: signing reads a stream once; verification reads it, decides,  *)
(* and, if output is requested, reads it again from where it started and copies it *)
(* to standard output.  The environment decides how the stream is split into       *)
(* reads, and when a read, a seek, a write or a flush fails.                        *)
(* Designs that are known to be wrong, to show that the properties can fail:       *)
(*   "sound"      this library                                                     *)
(*   "tee"        copies while it reads for the first time                         *)
(*   "swallow"    takes a failed read for the end of the data                      *)
(*   "rewind"     copies from the beginning of the stream                          *)
(*   "noflush"    does not flush                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxN,      \* pieces of data in the stream
          MaxFaults, Design, Emit

VARIABLES cfg,       \* what was called: op, number of pieces, start, flags, whether the signature is good, sink
          pc, pos, got,      \* got: the pieces the digest covers
          out, held,         \* written to the sink, written but not flushed
          said,              \* the trusted comment was printed
          res, faults, s1, s2
vars == <<cfg, pc, pos, got, out, held, said, res, faults, s1, s2>>

Configs == [op : {"verify"}, n : 0..MaxN, start : 0..(MaxN + 1), output : BOOLEAN, quiet : BOOLEAN, good : BOOLEAN, sink : {"file", "full"}]
           \cup [op : {"sign"}, n : 0..MaxN, start : 0..(MaxN + 1), output : {FALSE}, quiet : {TRUE}, good : {TRUE}, sink : {"file"}]

Init == /\ cfg \in {c \in Configs : c.start <= c.n + 1}
        /\ pc = "read" /\ pos = cfg.start /\ got = <<>> /\ out = <<>> /\ held = <<>> /\ said = FALSE
        /\ res = "none" /\ faults = 0 /\ s1 = <<>> /\ s2 = <<>>

Left == IF pos >= cfg.n THEN 0 ELSE cfg.n - pos
Piece(a, k) == [i \in 1..k |-> a + i]
Log1(x) == s1' = Append(s1, x) /\ UNCHANGED s2
Log2(x) == s2' = Append(s2, x) /\ UNCHANGED s1
Fault == faults < MaxFaults /\ faults' = faults + 1
Finish(r) == pc' = "done" /\ res' = r

(* ---- the first pass *)
Read(k) == /\ pc = "read" /\ k \in 1..Left
           /\ pos' = pos + k /\ got' = got \o Piece(pos, k) /\ Log1([k |-> "r", n |-> k])
           /\ IF Design = "tee" /\ cfg.output THEN held' = held \o Piece(pos, k) ELSE UNCHANGED held
           /\ UNCHANGED <<cfg, pc, out, said, res, faults>>
ReadIntr == /\ pc = "read" /\ Fault /\ Log1([k |-> "i", n |-> 0])
            /\ \/ UNCHANGED <<pc, res>>          \* tried again
               \/ Finish("err")
            /\ UNCHANGED <<cfg, pos, got, out, held, said>>
ReadFail == /\ pc = "read" /\ Fault /\ Log1([k |-> "e", n |-> 0])
            /\ IF Design = "swallow" THEN pc' = "decide" /\ UNCHANGED res ELSE Finish("err")
            /\ UNCHANGED <<cfg, pos, got, out, held, said>>
End1 == /\ pc = "read" /\ Left = 0
        /\ pc' = "decide"
        /\ UNCHANGED <<cfg, pos, got, out, held, said, res, faults, s1, s2>>
(* ---- the decision *)
Whole == Piece(cfg.start, IF cfg.start >= cfg.n THEN 0 ELSE cfg.n - cfg.start)
(* a good signature is good for the whole data, and for nothing else *)
Valid == cfg.good /\ got = Whole
Decide == /\ pc = "decide"
          /\ IF cfg.op = "sign" THEN Finish("ok") /\ UNCHANGED said
             ELSE IF ~Valid /\ ~(Design = "swallow" /\ cfg.good) THEN Finish("err") /\ UNCHANGED said
             ELSE /\ said' = ~cfg.quiet
                  /\ IF ~cfg.output THEN Finish("ok") ELSE /\ pc' = (IF Design = "tee" THEN "flush" ELSE "seek") /\ UNCHANGED res
          /\ UNCHANGED <<cfg, pos, got, out, held, faults, s1, s2>>
(* ---- the second pass *)
Seek == /\ pc = "seek"
        /\ \/ pos' = (IF Design = "rewind" THEN 0 ELSE cfg.start) /\ pc' = "copy" /\ UNCHANGED <<res, faults, s1, s2>>
           \/ Fault /\ Log2([k |-> "s", n |-> 0]) /\ Finish("err") /\ UNCHANGED pos
        /\ UNCHANGED <<cfg, got, out, held, said>>
Copy(k) == /\ pc = "copy" /\ k \in 1..Left
           /\ pos' = pos + k /\ Log2([k |-> "r", n |-> k])
           /\ IF cfg.sink = "file" THEN held' = held \o Piece(pos, k) /\ UNCHANGED <<pc, res>>
              ELSE UNCHANGED held /\ Finish("err")
           /\ UNCHANGED <<cfg, got, out, said, faults>>
CopyFail(kind) ==
           /\ pc = "copy" /\ Fault /\ Log2([k |-> kind, n |-> 0])
           /\ \/ Finish("err") \/ (kind = "i" /\ UNCHANGED <<pc, res>>)
           /\ UNCHANGED <<cfg, pos, got, out, held, said>>
End2 == /\ pc = "copy" /\ Left = 0 /\ pc' = (IF Design = "noflush" THEN "end" ELSE "flush")
        /\ UNCHANGED <<cfg, pos, got, out, held, said, res, faults, s1, s2>>
Flush == /\ pc = "flush" /\ out' = out \o held /\ held' = <<>> /\ Finish("ok")
         /\ UNCHANGED <<cfg, pos, got, said, faults, s1, s2>>
NoFlush == /\ pc = "end" /\ Finish("ok") /\ UNCHANGED <<cfg, pos, got, out, held, said, faults, s1, s2>>
(* the buffer of standard output may be written out at any time *)
Spill == /\ held # <<>> /\ pc # "done" /\ out' = out \o held /\ held' = <<>>
         /\ UNCHANGED <<cfg, pc, pos, got, said, res, faults, s1, s2>>

Next == \/ \E k \in 1..MaxN : Read(k) \/ Copy(k)
        \/ ReadIntr \/ ReadFail \/ End1 \/ Decide \/ Seek \/ CopyFail("e") \/ CopyFail("i") \/ End2 \/ Flush \/ NoFlush \/ Spill
Spec == Init /\ [][Next]_vars /\ WF_vars(End1 \/ Decide \/ Seek \/ End2 \/ Flush \/ NoFlush \/ \E k \in 1..MaxN : Read(k) \/ Copy(k))

(* ------------------------------------------------------------------ properties *)
Failed1 == \E i \in DOMAIN s1 : s1[i].k = "e"
Faulty == faults > 0
(* C12: without a failure the result does not depend on the reads; with one, there is none *)
SplitsDontMatter == pc = "done" /\ ~Faulty =>
                      (res = "ok") = (cfg.good /\ (cfg.output => cfg.sink = "file" \/ Whole = <<>>))
CutIsError == pc = "done" /\ Failed1 => res = "err"
Complete == pc = "done" /\ res = "ok" => got = Whole
(* C14 *)
OnlyVerified == out # <<>> => cfg.output /\ cfg.good /\ got = Whole
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
OnlyThese == Prefix(out, Whole)
AllThese == pc = "done" /\ res = "ok" /\ cfg.output => out = Whole
QuietSilent == cfg.quiet => ~said
SaidVerified == said => cfg.good
SaysIt == pc = "done" /\ res = "ok" /\ ~cfg.quiet => said
Ends == <>(pc = "done")

(* the outcome does not depend on the strategy of the implementation: no fault that only a second pass would meet *)
Sure == s2 = <<>> \/ \A i \in DOMAIN s2 : s2[i].k = "r"
HasIntr == \E i \in DOMAIN s1 : s1[i].k = "i"
Printed == Emit /\ pc = "done" /\ held = <<>> =>
  PrintT("@@" \o ToJson([cfg |-> cfg, s1 |-> s1, s2 |-> s2, ok |-> res = "ok", sure |-> Sure /\ ~HasIntr]))
=============================================================================
