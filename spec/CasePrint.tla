----------------------------- MODULE CasePrint ------------------------------
(* Printed tokens, tree and listing of the templates of a case file, or the error of the stage. *)
EXTENDS HbsPrint, HbsDelims, CaseLoop
One(c) == LET fl == IF "flags" \in DOMAIN c THEN Flags(c.flags) ELSE {}
              pre == IF "compat" \in fl THEN Delims(c.t, DefOpen, DefClose) ELSE [ok |-> TRUE, s |-> c.t, e |-> 0]
              r == Parse(pre.s, "ignore_standalone" \in fl)
              p == Compile(r.n, fl)
              err(e) == <<"err", e>>
          IN [id |-> c.id,
              lex |-> IF ~pre.ok THEN err(pre.e) ELSE <<"out", TokenLines(pre.s)>>,
              ast |-> IF ~pre.ok THEN err(pre.e) ELSE IF ~r.ok THEN err(r.e) ELSE <<"out", TreeText(r.n)>>,
              ops |-> IF ~pre.ok THEN err(pre.e) ELSE IF ~r.ok THEN err(r.e) ELSE IF p.err # 0 THEN err(p.err) ELSE <<"out", ListingText(p)>>,
              module |-> IF ~pre.ok THEN err(pre.e) ELSE IF ~r.ok THEN err(r.e) ELSE IF p.err # 0 THEN err(p.err)
                         ELSE LET m == ToModule(p) IN IF Assert(TableOk(m), c.id) THEN <<"out", ModuleText(m, IF "flags" \in DOMAIN c THEN c.flags ELSE 0)>> ELSE <<>>]
Next == Step(One)
=============================================================================
