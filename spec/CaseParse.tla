------------------------------ MODULE CaseParse ------------------------------
(* Expected tokens and tree of the templates in the file IOEnv.CASES.      *)
EXTENDS HbsCompiler, CaseLoop
One(c) == LET ts == Lex(c.t)
              r == Parse(c.t, Flag(c, "ign"))
          IN [id |-> c.id,
              toks |-> LET m == MergeContent(LexShown(ts)) IN [j \in 1..Len(m) |-> <<m[j].k, m[j].v>>],
              ast |-> IF r.ok THEN Node(r.n) ELSE <<"err", r.e>>,
              str |-> IF r.ok THEN ToStr(r.n, {}) ELSE <<>>]
Next == Step(One)
=============================================================================
