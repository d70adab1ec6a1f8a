------------------------------ MODULE EnumCli -------------------------------
(* All command lines of up to P.max arguments out of P.args, on the files of P. *)
EXTENDS HbsCli, Json, IOUtils
P == ndJsonDeserialize(IOEnv.PARAMS)[1]
VARIABLES st, hist
vars == <<st, hist>>
ArgsOf(h) == [i \in 1..Len(h) |-> P.args[h[i]]]
Init == st = CliInit /\ hist = <<>>
Next == /\ Len(hist) < P.max
        /\ \E k \in 1..Len(P.args) : st' = Arg(st, P.args[k]) /\ hist' = Append(hist, k)
RunOf(h) == [args |-> ArgsOf(h), files |-> P.files, docs |-> P.docs, names |-> P.names, stdin |-> P.stdin, full |-> FALSE]
(* an option that sets something else may stand before or after; one that is not understood ends it all; what is neutral has no effect *)
Law == \A i, j \in 1..Len(P.args) :
          LET a == P.args[i]  b == P.args[j] IN
          /\ (a[1] = "flags" /\ b[1] = "flags") => Arg(Arg(st, a), b) = Arg(Arg(st, b), a)
          /\ (a[1] # b[1] /\ "bad" \notin {a[1], b[1]}) => Arg(Arg(st, a), b) = Arg(Arg(st, b), a)
          /\ a[1] = "neutral" => Arg(st, a) = st
          /\ st.bad => Arg(st, a) = st
          /\ (a[1] = "bad") => Arg(st, a).bad
PrintCase == PrintT("RES" \o ToJson([h |-> hist, r |-> Cli(RunOf(hist))]))
View == hist
=============================================================================
