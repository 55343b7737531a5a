------------------------------- MODULE JudgeMC -------------------------------
(* TLC model: reads recorded histories and judges each in its own state, so *)
(* that the workers share them.                                             *)
EXTENDS Judge, Json, IOUtils

Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
PerChunk == 16
NChunks == (Len(Cases) + PerChunk - 1) \div PerChunk

VARIABLES judgeChunk, judgeCase
Init == judgeChunk = 0 /\ judgeCase = 0
Next == \/ /\ judgeChunk = 0
           /\ judgeChunk' \in 1..NChunks
           /\ judgeCase' = 0
        \/ /\ judgeChunk > 0 /\ judgeCase = 0
           /\ judgeChunk' = judgeChunk
           /\ judgeCase' \in ((judgeChunk - 1) * PerChunk + 1)..BMin(judgeChunk * PerChunk, Len(Cases))
           /\ LET v == JudgeCase(Cases[judgeCase'])
              IN PrintT(<<"V", judgeCase', v[1], v[2], v[3], v[4]>>)
Spec == Init /\ [][Next]_<<judgeChunk, judgeCase>>
=============================================================================
