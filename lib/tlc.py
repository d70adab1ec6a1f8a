"""Runs TLC on the modules in /verif/spec."""
import json, os, re, shutil, subprocess, tempfile, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class TlcError(Exception):
    pass

class Result:
    pass

def scratch():
    d = os.path.join(VERIF, "build", "tmp")
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(dir=d)

def run(module, cfg=None, env=None, workers=8, timeout=800, cfg_text=None, extra=(), on_line=None, xss="1g", heap="6g",
        expect_ok=True, deadlock=False):
    """returns Result with .res (list of decoded 'RES' json lines), .out (other output), .ok, .states, .distinct"""
    d = scratch()
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        cfgp = os.path.join(d, "run.cfg")
        if cfg_text is None:
            shutil.copyfile(os.path.join(SPEC, (cfg or module) + ".cfg"), cfgp)
        else:
            open(cfgp, "w").write(cfg_text)
        cmd = ["java", "-Xss" + xss, "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", CP, "tlc2.TLC",
               "-config", cfgp, "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-lncheck", "final"]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(extra) + [module]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        r = Result()
        r.res, r.out, r.ok, r.states, r.distinct = [], [], False, 0, 0
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        timer = threading.Timer(timeout, p.kill)
        timer.start()
        t0 = time.time()
        for line in p.stdout:
            if line.startswith('"RES'):
                v = json.loads(json.loads(line.strip())[3:])
                if on_line:
                    on_line(v)
                else:
                    r.res.append(v)
            else:
                r.out.append(line)
        p.wait()
        timer.cancel()
        r.seconds = time.time() - t0
        txt = "".join(r.out)
        r.ok = "Model checking completed. No error has been found." in txt
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
        if m:
            r.states, r.distinct = int(m.group(1)), int(m.group(2))
        r.text = txt
        if expect_ok and not r.ok:
            raise TlcError("TLC failed on %s (%.0fs):\n%s" % (module, r.seconds, "".join(l for l in r.out if not l.startswith(("Parsing file","Semantic processing")))[:5000]))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)

def cases(module, cs, workers=8, timeout=800, next="Next", **kw):
    """evaluates the case module on a list of case dicts (each with an id); returns {id: result}"""
    d = scratch()
    try:
        p = os.path.join(d, "cases.ndjson")
        with open(p, "w") as f:
            for c in cs:
                f.write(json.dumps(c) + "\n")
        r = run(module, env={"CASES": p, **kw.pop("env", {})}, workers=workers, timeout=timeout,
                cfg_text="INIT Init\nNEXT %s\nCHECK_DEADLOCK FALSE\n" % next, **kw)
        out = {v["id"]: v for v in r.res}
        missing = [c["id"] for c in cs if c["id"] not in out]
        if missing:
            raise TlcError("no result for cases %s" % missing[:5])
        return out, r
    finally:
        shutil.rmtree(d, ignore_errors=True)
