----------------------------- MODULE EnumRender -----------------------------
(***************************************************************************)
(* All templates P0.wraps[w].pre \o fragments \o .post of at most P0.max   *)
(* fragments, rendered in every environment of P0.envs (data, partials,    *)
(* helpers, options).  A fragment opens (d = 1) or closes (d = -1) the     *)
(* block named n; with P0.bal only templates whose blocks match are        *)
(* reported.                                                               *)
(***************************************************************************)
EXTENDS HbsSem, TLC, Json, IOUtils
P0 == ndJsonDeserialize(IOEnv.PARAMS)[1]
Frags == P0.frags
MaxLen == P0.max
Fld(c, f, d) == IF f \in DOMAIN c THEN c[f] ELSE d
Hlp(h) == <<B(h[1]), <<"f", h[2]>>>>
Known(c) == LET k == Fld(c, "known", <<>>) IN {k[i] : i \in 1..Len(k)}
EnvOf(c) == [Env0(Flags(Fld(c, "flags", 0)), LET h == Fld(c, "helpers", <<>>) IN [i \in 1..Len(h) |-> Hlp(h[i])],
                 Fld(c, "partials", <<>>), Fld(c, "dv", VNull)) EXCEPT !.kn = Known(c)]
VARIABLES fr, stk
dep == Len(stk)
RECURSIVE CatF(_)
CatF(s) == IF s = <<>> THEN <<>> ELSE Frags[Head(s)].s \o CatF(Tail(s))
Tmpl(w) == P0.wraps[w].pre \o CatF(fr) \o P0.wraps[w].post
Init == fr = <<>> /\ stk = <<>>
Next == /\ Len(fr) < MaxLen
        /\ \E f \in 1..Len(Frags) :
              /\ fr' = Append(fr, f)
              /\ IF Frags[f].d = 0 \/ ~P0.bal THEN stk' = stk
                 ELSE IF Frags[f].d = 1 THEN stk' = Append(stk, Frags[f].n)
                 ELSE /\ stk # <<>>
                      /\ stk[Len(stk)] = Frags[f].n
                      /\ stk' = SubSeq(stk, 1, Len(stk) - 1)
              /\ Len(stk') <= MaxLen - Len(fr) - 1
Out(t, k) == Render(t, P0.envs[k].data, EnvOf(P0.envs[k]))
-----------------------------------------------------------------------------
(* Composition: where no tag owns white space, what a template writes is what its parts write, one after the other.  The parts
   are cut where the nesting is zero. *)
RECURSIVE DepthOf(_)
DepthOf(s) == IF s = <<>> THEN 0 ELSE Frags[Head(s)].d + DepthOf(Tail(s))
Glued == \E i \in 1..Len(fr) : Fld(Frags[fr[i]], "g", FALSE)      \* fragments that belong to their neighbours (else tags)
ComposeLaw ==
    (P0.bal /\ dep = 0 /\ P0.compose /\ ~Glued) =>
    \A k \in 1..Len(P0.envs) : \A i \in 1..(Len(fr) - 1) :
        DepthOf(SubSeq(fr, 1, i)) = 0 =>
            LET a == Out(CatF(SubSeq(fr, 1, i)), k)
                b == Out(CatF(SubSeq(fr, i + 1, Len(fr))), k)
                r == Out(CatF(fr), k)
            IN (a.e = 0 /\ b.e = 0) => r.e = 0 /\ r.v = a.v \o b.v
(* Options that say nothing about a rendering that succeeds: a successful strict rendering is the ordinary one, and so on *)
Without(k, f) == [EnvOf(P0.envs[k]) EXCEPT !.fl = @ \ f]
OptionLaw ==
    (~P0.bal \/ dep = 0) =>
    \A w \in 1..Len(P0.wraps) : \A k \in 1..Len(P0.envs) :
        LET fl == Flags(Fld(P0.envs[k], "flags", 0)) IN
        (fl \cap {"strict", "assume_objects", "known_helpers_only"} # {} /\ fl \cap {"compat", "mustache_style_lambdas"} = {}) =>
            LET r == Out(Tmpl(w), k)
                q == Render(Tmpl(w), P0.envs[k].data, Without(k, {"strict", "assume_objects"}))
            IN r.e = 0 /\ "known_helpers_only" \notin fl => q.e = 0 /\ q.v = r.v
(* Executing the instructions of the compiled template writes what the template means (or needs more room than the machine has),
   and takes nothing that is not there, nor leaves anything *)
MachineLaw ==
    (~P0.bal \/ dep = 0) =>
    \A w \in 1..Len(P0.wraps) : \A k \in 1..Len(P0.envs) :
        LET r == Out(Tmpl(w), k)  m == Render(Tmpl(w), P0.envs[k].data, [EnvOf(P0.envs[k]) EXCEPT !.mach = TRUE]) IN
        m.e = E_STACK \/ (m.e = r.e /\ m.v = r.v /\ m.log = r.log)
(* the text of the template and its result *)
PrintCase == (~P0.bal \/ dep = 0) =>
             \A w \in 1..Len(P0.wraps) : \A k \in 1..Len(P0.envs) :
                LET t == Tmpl(w)  r == Out(t, k) IN
                PrintT("RES" \o ToJson([t |-> t, k |-> k, e |-> r.e, v |-> r.v, ph |-> r.ph, log |-> r.log]))
=============================================================================
