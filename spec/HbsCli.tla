------------------------------- MODULE HbsCli -------------------------------
(***************************************************************************)
(* The command line program.  Its state while it reads its arguments is a  *)
(* configuration (CliInit); every argument is one transition (Arg); the    *)
(* configuration, the files and standard input decide the outcome:         *)
(*   [x, o, e, i]  exit status, standard output, why it failed, and what   *)
(*              the log helper wrote (each run writes it, on standard error) *)
(* o is a byte string, or "usage", "version", or "info"; e is "" or        *)
(* "option", "noinput", "open", "read", "write", or "error".               *)
(* docs: what the data texts denote, << <<"json" or "yaml", text, value or *)
(* <<"bad">> >>, .. >> (the business of J01).                              *)
(***************************************************************************)
EXTENDS HbsPrint, HbsLoader

FlagWords == <<"compat", "known_helpers_only", "string_params", "track_ids", "no_escape", "ignore_standalone", "alternate_decorators", "strict", "assume_objects", "mustache_style_lambdas">>
FlagsIn(s) == {w \in SeqRange(FlagWords) : Find(s, 1, B(w)) # 0}
RECURSIVE FlagBits(_, _)
FlagBits(fl, i) == IF i > Len(FlagNames) THEN 0 ELSE (IF FlagNames[i] \in fl THEN 1 ELSE 0) + 2 * FlagBits(fl, i + 1)

CliInit == [mode |-> "execute", t |-> <<>>, d |-> <<>>, fl |-> {}, loader |-> FALSE, path |-> B("."), ext |-> B(".hbs"), newline |-> TRUE, pos |-> <<>>, bad |-> FALSE]
(* one argument; after an option that is not understood nothing counts *)
Arg(st, a) ==
    IF st.bad THEN st ELSE
    CASE a[1] = "mode" -> [st EXCEPT !.mode = a[2]]
      [] a[1] = "template" -> [st EXCEPT !.t = <<a[2]>>]
      [] a[1] = "data" -> [st EXCEPT !.d = <<a[2]>>]
      [] a[1] = "flags" -> [st EXCEPT !.fl = @ \cup FlagsIn(a[2])]
      [] a[1] = "loader" -> [st EXCEPT !.loader = TRUE]
      [] a[1] = "path" -> [st EXCEPT !.path = a[2]]
      [] a[1] = "ext" -> [st EXCEPT !.ext = a[2]]
      [] a[1] = "nonewline" -> [st EXCEPT !.newline = FALSE]
      [] a[1] = "neutral" -> st                    \* pool size, number of runs, conversion of the data, pretty printing
      [] a[1] = "pos" -> IF st.pos = <<>> THEN [st EXCEPT !.pos = <<a[2]>>] ELSE st
      [] a[1] = "bad" -> [st EXCEPT !.bad = TRUE]
Config(args) == FoldLeft(Arg, CliInit, args)
TemplateName(st) == IF st.pos # <<>> THEN st.pos ELSE st.t

Out(x, o, e) == [x |-> x, o |-> o, e |-> e, i |-> <<>>]
Done(o) == Out(0, o, "")
Failed(e) == Out(1, <<>>, e)

(* the content of a named file: <<"ok", bytes>> or <<"open">>, <<"read">>; standard input may be empty, files may not *)
Read(fs, stdin, name) ==
    IF name = <<45>> THEN <<"ok", stdin>>
    ELSE LET p == Resolve(fs, <<>>, PathSegs(name), 1)
             i == IF p = <<>> THEN 0 ELSE Entry(fs, p[1], 1)
         IN IF name = <<>> THEN <<"open">>
            ELSE IF p # <<>> /\ p[1] = <<>> THEN <<"read">>
            ELSE IF i = 0 THEN <<"open">>
            ELSE IF fs[i][2] = "dir" \/ fs[i][3] = <<>> THEN <<"read">>
            ELSE <<"ok", fs[i][3]>>

EndsWith(s, z) == Len(s) > Len(z) /\ SubSeq(s, Len(s) - Len(z) + 1, Len(s)) = z
Format(name) == IF EndsWith(name, B(".yaml")) \/ EndsWith(name, B(".yml")) THEN "yaml" ELSE "json"
RECURSIVE Doc(_, _, _, _)
Doc(docs, f, s, i) == IF docs[i][1] = f /\ docs[i][2] = s THEN docs[i][3] ELSE Doc(docs, f, s, i + 1)
Value(docs, f, s) == IF s = <<>> THEN VNull ELSE Doc(docs, f, s, 1)

Template(st, s) == IF "compat" \in st.fl THEN Delims(s, DefOpen, DefClose) ELSE [ok |-> TRUE, s |-> s, e |-> 0]

(* partials mentioned in a run are looked for among names *)
Execute(st, c, src, rest) ==
    LET pre == Template(st, src)
        dname == IF st.d = <<>> THEN <<>> ELSE st.d[1]
        rd == Read(c.files, rest, dname)
        v == IF st.d = <<>> THEN VNull ELSE Value(c.docs, Format(dname), rd[2])
        at(n) == st.path \o <<SLASH>> \o n
        look(n) == LET d == IF NUL \in SeqRange(n) THEN <<"none">> ELSE Denotes(c.files, st.ext, at(n)) IN IF d[1] = "none" THEN <<>> ELSE << <<n, IF d[1] = "bad" THEN VNull ELSE VStr(d[2])>> >>
        ps == IF st.loader THEN FoldLeft(LAMBDA acc, n : acc \o look(n), <<>>, c.names) ELSE <<>>
        r == Render(src, v, Env0(st.fl, <<>>, ps, VNull))
    IN IF ~pre.ok THEN Failed("error")
       ELSE IF st.d # <<>> /\ rd[1] # "ok" THEN Failed(rd[1])
       ELSE IF v = <<"bad">> THEN Failed("error")
       ELSE IF r.e # 0 THEN [Failed("error") EXCEPT !.i = r.info]
       ELSE [Done(r.v \o (IF st.newline THEN <<LF>> ELSE <<>>)) EXCEPT !.i = r.info]

Work(st, c, src, rest) ==
    LET pre == Template(st, src)
        ast == Parse(pre.s, "ignore_standalone" \in st.fl)
        p == Compile(ast.n, st.fl)
    IN IF st.mode = "execute" THEN Execute(st, c, src, rest)
       ELSE IF ~pre.ok THEN Failed("error")
       ELSE IF st.mode = "lex" THEN Done(TokenLines(pre.s))
       ELSE IF ~ast.ok THEN Failed("error")
       ELSE IF st.mode = "parse" THEN Done(TreeText(ast.n))
       ELSE IF p.err # 0 THEN Failed("error")
       ELSE IF st.mode = "compile" THEN Done(ListingText(p))
       ELSE Done(ModuleText(ToModule(p), FlagBits(st.fl, 1)))

(* a run that cannot write its output fails *)
Sink(r, full) == IF full /\ r.x = 0 /\ (Len(r.o) > 0) THEN [r EXCEPT !.x = 1, !.o = <<>>, !.e = "write"] ELSE r

Cli(c) ==
    LET st == Config(c.args)
        name == TemplateName(st)
        rd == Read(c.files, c.stdin, name[1])
        rest == IF name = <<<<45>>>> THEN <<>> ELSE c.stdin
    IN IF c.args = <<>> THEN Out(1, "usage", "")
       ELSE IF st.bad THEN Failed("option")
       ELSE IF st.mode = "usage" THEN Sink(Done("usage"), c.full)
       ELSE IF st.mode = "version" THEN Sink(Done("version"), c.full)
       ELSE IF st.mode = "info" THEN Done("info")
       ELSE IF name = <<>> THEN Failed("noinput")
       ELSE IF rd[1] # "ok" THEN Failed(rd[1])
       ELSE Sink(Work(st, c, rd[2], rest), c.full)
=============================================================================
