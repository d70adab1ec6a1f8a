------------------------------ MODULE CaseLoop ------------------------------
(***************************************************************************)
(* Evaluates an operator on every case of an ndjson file, in blocks that   *)
(* TLC's workers process in parallel, and prints one JSON line per case.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
NBlocks == 64
Flag(c, f) == f \in DOMAIN c /\ c[f]
VARIABLES blk, pos
Init == /\ blk \in 1..NBlocks
        /\ pos = blk
Step(One(_)) == /\ pos <= Len(Cases)
                /\ PrintT("RES" \o ToJson(One(Cases[pos])))
                /\ pos' = pos + NBlocks
                /\ UNCHANGED blk
=============================================================================
