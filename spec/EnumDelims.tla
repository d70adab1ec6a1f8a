----------------------------- MODULE EnumDelims -----------------------------
(***************************************************************************)
(* Templates written with changing delimiters.  A template is a sequence   *)
(* of items: texts, tags and changes of the delimiters.  Written out with  *)
(* the delimiters in force it has to mean what it means written with the   *)
(* default ones, where a change writes nothing.  An item has s (bytes), k  *)
(* ("text", "tag", "set"), d (nesting change), n (block name); a set item  *)
(* has a number of the delimiter list.                                     *)
(***************************************************************************)
EXTENDS HbsSem, TLC, Json, IOUtils
P0 == ndJsonDeserialize(IOEnv.PARAMS)[1]
Items == P0.items
Del == P0.delims
Env == Env0({"compat"} \cup (IF P0.lam THEN {"mustache_style_lambdas"} ELSE {}), P0.helpers, P0.partials, VNull)
VARIABLES fr, stk
Init == fr = <<>> /\ stk = <<>>
Next == /\ Len(fr) < P0.max
        /\ \E f \in 1..Len(Items) :
              /\ fr' = Append(fr, f)
              /\ IF Items[f].d = 0 THEN stk' = stk
                 ELSE IF Items[f].d = 1 THEN stk' = Append(stk, Items[f].n)
                 ELSE stk # <<>> /\ stk[Len(stk)] = Items[f].n /\ stk' = SubSeq(stk, 1, Len(stk) - 1)
              /\ Len(stk') <= P0.max - Len(fr) - 1
(* cur: number of the delimiters in force *)
RECURSIVE Written(_, _, _, _), Plain0(_, _, _, _)
Written(s, i, cur, acc) ==
    IF i > Len(s) THEN acc
    ELSE LET x == Items[s[i]]  o == Del[cur][1]  c == Del[cur][2] IN
         CASE x.k = "set" -> Written(s, i + 1, x.to, acc \o o \o <<61>> \o Del[x.to][1] \o <<SP>> \o Del[x.to][2] \o <<61>> \o c)
           [] x.k = "tag" -> Written(s, i + 1, cur, acc \o o \o x.s \o c)
           [] OTHER -> Written(s, i + 1, cur, acc \o x.s)
(* with the default delimiters; {{ in a text is escaped *)
Plain0(s, i, cur, acc) ==
    IF i > Len(s) THEN acc
    ELSE LET x == Items[s[i]] IN
         CASE x.k = "set" -> Plain0(s, i + 1, x.to, acc \o B("{{hbsc_set_delimiters}}"))
           [] x.k = "tag" -> Plain0(s, i + 1, cur, acc \o DefOpen \o x.s \o DefClose)
           [] OTHER -> Plain0(s, i + 1, cur, acc \o Replace(x.s, DefOpen, <<BSL>> \o DefOpen))
(* a text that has the delimiters in force in it is a tag, and one that ends where a delimiter could start, or has a brace at its
   end or start, is joined with what follows: such templates have no reading to compare with *)
RECURSIVE Clean(_, _, _)
Clean(s, i, cur) ==
    IF i > Len(s) THEN TRUE
    ELSE LET x == Items[s[i]] IN
         CASE x.k = "set" -> Clean(s, i + 1, x.to)
           [] x.k = "text" -> /\ Find(x.s, 1, Del[cur][1]) = 0
                              /\ \A p \in 1..Len(x.s) : x.s[p] = Del[cur][1][1] => p + Len(Del[cur][1]) - 1 <= Len(x.s)
                              /\ x.s # <<>> /\ (x.s[Len(x.s)] # LBRACE) /\ x.s[1] # RBRACE
                              /\ (i = Len(s) \/ Items[s[i + 1]].k # "text")
                              /\ Clean(s, i + 1, cur)
           [] OTHER -> Clean(s, i + 1, cur)
DelimLaw == (~P0.lam /\ stk = <<>> /\ Clean(fr, 1, 1)) =>
            \A k \in 1..Len(P0.data) :
               LET a == Render(Written(fr, 1, 1, <<>>), P0.data[k], Env)
                   b == Render(Plain0(fr, 1, 1, <<>>), P0.data[k], Env)
               IN a.e = b.e /\ a.v = b.v
PrintCase == (stk = <<>>) =>
             LET t == Written(fr, 1, 1, <<>>) IN
             \A k \in 1..Len(P0.data) :
                LET r == Render(t, P0.data[k], Env)  q == Delims(t, DefOpen, DefClose) IN
                PrintT("RES" \o ToJson([t |-> t, k |-> k, e |-> r.e, v |-> r.v, ph |-> r.ph, log |-> r.log, ok |-> q.ok, s |-> q.s]))
=============================================================================
