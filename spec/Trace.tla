------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks a file of independent events recorded from the implementation.   *)
(* The events are walked in chunks, so that TLC's workers share the work.  *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Events)
Chunk == 20

VARIABLE i

Init == i \in {1 + Chunk * c : c \in 0..((N - 1) \div Chunk)}
Next == i % Chunk # 0 /\ i < N /\ i' = i + 1
Spec == Init /\ [][Next]_i

Report ==
    LET v == JudgeEvent(Events[i]) IN
    CASE v.k = "ok" -> TRUE
      [] v.k = "und" -> PrintT(<<"UND", i>>)
      [] v.k = "bad" -> PrintT(<<"MISMATCH", i, ToJson(v.want)>>)

AllSeen == TLCGet("stats").distinct = N
=============================================================================
