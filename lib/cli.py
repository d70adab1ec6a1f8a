"""Runs of the command line program: the specification's outcome against the program's."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import printcmp, tlc

def b(x): return list(x.encode("latin1"))
WORDS = ["compat", "known_helpers_only", "string_params", "track_ids", "no_escape", "ignore_standalone", "alternate_decorators", "strict", "assume_objects", "mustache_style_lambdas"]
LONG = {"template": "template", "data": "data", "flags": "flags", "path": "partial-path", "ext": "partial-ext"}
SHORT = {"template": "t", "data": "D"}
MODES = {"usage": ["--help", "-h"], "version": ["--version", "-V"], "lex": ["--lex"], "parse": ["--parse"], "compile": ["--compile"], "module": ["--module"], "execute": ["--execute"], "info": ["--debuginfo"]}

def spell(rng, args):
    """the arguments as the words of a command line, in varied spellings"""
    out = []
    for i, a in enumerate(args):
        k = a[0]
        if k == "mode": out.append(rng.choice(MODES[a[1]]).encode())
        elif k == "pos": out.append(bytes(a[1]))
        elif k == "nonewline": out.append(rng.choice([b"-n", b"--no-newline", b"--no-new"]))
        elif k == "loader": out.append(rng.choice([b"--partial-loader", b"--partial-l"]))
        elif k in ("neutral", "bad"): out += [x.encode() for x in a[1]]
        else:
            v, s = bytes(a[1]), rng.random()
            if k in SHORT and s < .6:
                s = SHORT[k].encode()
                out += [b"-" + s, v] if rng.random() < .5 or not v else [b"-" + s + v]
            elif s < .8: out.append(b"--" + LONG[k].encode() + b"=" + v)
            else: out += [b"--" + LONG[k].encode(), v]
    return out

def tree(fs):
    """with the directories the files are in"""
    have = [x[0] for x in fs]; out = list(fs)
    for segs, _, _ in fs:
        for n in range(1, len(segs)):
            if segs[:n] not in have: have.append(segs[:n]); out.append([segs[:n], "dir", []])
    return out

def files(root, fs):
    for segs, kind, data in fs:
        p = os.path.join(os.fsencode(root), *[bytes(s) for s in segs])
        if kind == "dir": os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f: f.write(bytes(data))

def run(exe, root, words, stdin, full=False, pipes=True):
    """stdin by a pipe or by a file; standard output to a device that is full"""
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", "PATH": "/usr/bin:/bin", "LC_ALL": "C"}
    try:
        if pipes: r = subprocess.run([exe] + words, cwd=root, input=bytes(stdin), stdout=open("/dev/full", "wb") if full else subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env)
        else:
            with tempfile.TemporaryFile() as f:
                f.write(bytes(stdin)); f.seek(0)
                r = subprocess.run([exe] + words, cwd=root, stdin=f, stdout=open("/dev/full", "wb") if full else subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env)
    except subprocess.TimeoutExpired: return {"exit": "timeout"}
    return {"exit": r.returncode, "out": r.stdout or b"", "err": r.stderr}

def why(err):
    if err == b"": return ""
    if b"AddressSanitizer" in err or b"runtime error" in err: return "crash"
    for k, p in (("noinput", rb"No input file!\n"), ("open", rb"Failed to open file: .*\n"), ("read", rb"Failed to read file: .*\n"), ("write", rb"Failed to write output\n"), ("error", rb"ERROR: [^\n].*\n")):
        if re.fullmatch(p, err, re.S): return k
    if re.match(rb"\S*: (unrecognized|unknown|ambiguous|invalid|option)", err) or re.match(rb"\S*: option .*(requires|doesn't allow|ambiguous)", err): return "option"
    return "?" + err[:200].decode("latin1")

def unlog(err, info):
    """what remains of the standard error after what the log helper writes in every run; None if that is not there"""
    if not info: return err
    n = 0
    while err.startswith(info): err = err[len(info):]; n += 1
    return err if n else None

def judge(c, case, e, g):
    """case: what was run (for the replay file); e: expected outcome; g: what came"""
    c.add("traces_validated_against_impl"); c.add("exit_%d" % e["x"]); c.add("why_" + (e["e"] or "none"))
    show = dict(g, out=g.get("out", b"").decode("latin1")[:2000], err=g.get("err", b"").decode("latin1")[:2000])
    if g["exit"] != e["x"]: c.fail(case, e, show, "exit status"); return
    o, want = g["out"], e["o"]
    err = unlog(g["err"], bytes(e["i"]))
    if e["i"]: c.add("logged")
    if err is None: c.fail(case, e, show, "what is logged"); return
    w = why(err)
    if e.get("mode") == "info" and e["x"] == 0:
        if o or not g["err"]: c.fail(case, e, show, "debug information")
        return
    if w != e["e"]: c.fail(case, e, show, "reason"); return
    if want == "usage": ok = o.startswith(b"Usage: handlebarsc ") and b"--partial-ext" in o
    elif want == "version": ok = o.startswith(b"handlebarsc v")
    elif g.get("full"): ok = True
    else:
        ok = list(o) == want or (e.get("mode") == "module" and printcmp.body(o) == want) or (e.get("mode") == "lex" and printcmp.merged(o) == want)
    if not ok: c.fail(case, dict(e, o=bytes(want).decode("latin1") if isinstance(want, list) else want), show, "standard output")

def mode(args):
    m = "execute"
    for a in args:
        if a[0] == "mode": m = a[1]
    return m

def check(c, exe, items, rng):
    """items: (case, expected outcome); a case has args, files, stdin, full"""
    top = tlc.scratch(); jobs = []; roots = {}
    try:
        for i, (x, e) in enumerate(items):
            k = json.dumps(x["files"])
            if k not in roots:
                roots[k] = os.path.join(top, "f%d" % len(roots)); os.mkdir(roots[k]); files(roots[k], x["files"])
            jobs.append((roots[k], spell(rng, x["args"]), x["stdin"], x["full"], rng.random() < .6))
        with ThreadPoolExecutor(10) as p: gs = list(p.map(lambda j: run(exe, *j), jobs))
    finally: shutil.rmtree(top)
    for (x, e), j, g in zip(items, jobs, gs):
        g["full"] = x["full"]
        if "exit" not in g or g["exit"] == "timeout": c.fail(x, e, g, "no answer"); continue
        judge(c, {"words": [w.decode("latin1") for w in j[1]], "files": x["files"], "stdin": x["stdin"], "full": x["full"]}, dict(e, mode=mode(x["args"])), g)

def enum(c, exe, base, args, mx, what):
    base = dict(base, files=tree(base["files"]))
    d = tlc.scratch(); p = os.path.join(d, "params.ndjson")
    open(p, "w").write(json.dumps(dict(base, args=args, max=mx)) + "\n")
    try: r = tlc.run("EnumCli", env={"PARAMS": p}, cfg_text="INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Law\nINVARIANT PrintCase\nVIEW View\n")
    finally: os.unlink(p); os.rmdir(d)
    c.add("states", r.distinct); c.add("transitions", r.states)
    items = [(dict(base, args=[args[k - 1] for k in x["h"]], full=False), x["r"]) for x in r.res]
    for x, _ in items: c.seen(json.dumps([what, x["args"]]))
    c.sample(str(items[len(items) // 2][0]["args"])[:300], 40)
    if os.environ.get("VERBOSE"): print("EnumCli %s: %.1fs %d" % (what, r.seconds, len(items)))
    check(c, exe, items, c.rng)

def cases(c, exe, cs, what):
    cs = [dict(x, files=tree(x["files"])) for x in cs]
    exp, r = tlc.cases("CaseCli", [dict(x, id=k) for k, x in enumerate(cs)])
    c.add("states", r.distinct); c.add("transitions", r.states)
    if os.environ.get("VERBOSE"): print("CaseCli %s: %.1fs %d" % (what, r.seconds, len(cs)))
    for x in cs: c.seen(json.dumps(x))
    for x in cs[:2]: c.sample(str(x["args"])[:300], 40)
    check(c, exe, [(x, exp[k]["r"]) for k, x in enumerate(cs)], c.rng)
