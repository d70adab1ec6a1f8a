----------------------------- MODULE CaseRender -----------------------------
(* Expected output of rendering: cases have t, data, dv, partials, helpers, flags. *)
EXTENDS HbsSem, CaseLoop
Fld(c, f, d) == IF f \in DOMAIN c THEN c[f] ELSE d
Hlp(h) == <<B(h[1]), <<"f", h[2]>>>>
Known(c) == LET k == Fld(c, "known", <<>>) IN {k[i] : i \in 1..Len(k)}
EnvOf(c) == [Env0(Flags(Fld(c, "flags", 0)), LET h == Fld(c, "helpers", <<>>) IN [i \in 1..Len(h) |-> Hlp(h[i])],
                 Fld(c, "partials", <<>>), Fld(c, "dv", VNull)) EXCEPT !.kn = Known(c)]
One(c) == LET r == Render(c.t, c.data, EnvOf(c)) IN [id |-> c.id, e |-> r.e, v |-> r.v, ph |-> r.ph, log |-> r.log]
Next == Step(One)
=============================================================================
