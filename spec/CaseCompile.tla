----------------------------- MODULE CaseCompile -----------------------------
(* Expected instruction listing (or error) of the templates of a case file. *)
EXTENDS HbsCompiler, CaseLoop
FlOf(c) == IF "flags" \in DOMAIN c THEN Flags(c.flags) ELSE {}
One(c) == LET fl == FlOf(c)
              r == Parse(c.t, "ignore_standalone" \in fl)
              p == CompileKn(r.n, fl, IF "known" \in DOMAIN c THEN {c.known[i] : i \in 1..Len(c.known)} ELSE {})
          IN [id |-> c.id, res |-> IF ~r.ok THEN <<"perr", r.e>> ELSE IF p.err # 0 THEN <<"err", p.err>> ELSE <<"prog", Listing(p)>>]
Next == Step(One)
=============================================================================
