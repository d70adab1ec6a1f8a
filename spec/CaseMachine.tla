----------------------------- MODULE CaseMachine -----------------------------
(* Cases executed as compiled: res; and as the tree says: same is whether that is the same. *)
EXTENDS CaseRender
(* deep data: data wrapped deep[1] times as deep[2] says *)
RECURSIVE Wrap(_, _, _, _)
Wrap(v, i, n, k) ==
    IF i >= n THEN v
    ELSE LET id == 500000 + 2 * i
             arr(x) == VArr(id, <<x>>)
             map(key, x) == VMap(id, << <<B(key), x>> >>)
         IN Wrap(CASE k = "a" -> arr(v) [] k = "m" -> map("a", v) [] k = "n" -> VMap(id, << <<B("n"), v>>, <<B("i"), VInt(i + 1)>> >>)
                   [] k = "l" -> map("l", VArr(id + 1, <<v>>)) [] OTHER -> (IF i % 2 = 1 THEN arr(v) ELSE map("a", v)), i + 1, n, k)
DataOf(c) == IF "deep" \in DOMAIN c THEN Wrap(c.data, 0, c.deep[1], c.deep[2]) ELSE c.data
EnvM(c) == LET e == EnvOf(c) IN [e EXCEPT !.mach = TRUE, !.pre = IF Flag(c, "only") THEN PrepareAll(e.fl, e.partials \o [i \in 1..Len(Fld(c, "texts", <<>>)) |-> <<<<>>, VStr(c.texts[i])>>]) ELSE <<>>]
OneM(c) == LET m == Render(c.t, DataOf(c), EnvM(c))
               r == IF Flag(c, "only") THEN m ELSE Render(c.t, DataOf(c), EnvOf(c))
           IN [id |-> c.id, e |-> m.e, v |-> m.v, ph |-> m.ph, log |-> m.log, same |-> (r.e = m.e /\ r.v = m.v /\ r.log = m.log), e2 |-> r.e, v2 |-> r.v]
Next2 == Step(OneM)
=============================================================================
