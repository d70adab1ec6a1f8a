"""Builds handlebars.c from /repo's current working tree (out of tree, in /verif/build), plus the C drivers.

Nothing in /repo is written.  The object directory is keyed by the content of everything that goes into it,
so that repeated checks on the same tree reuse it and any change in /repo gives a new build.
"""
import hashlib, os, shutil, subprocess, sys, fcntl, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

# hashes of the generator inputs for which the tracked generated files are current (as in /opt/vp/build.sh)
GEN = {
    "lex":   (["src/handlebars.l"], "5a2e35f1601532fa7a159dd5dc669a863b3cd93a4fd0d0af393a011ec14657db",
              ["handlebars.lex.c", "handlebars.lex.h"],
              ["flex", "--noreject", "--fast", "--align", "-o", "handlebars.lex.c", "handlebars.l"]),
    "tab":   (["src/handlebars.y", "src/handlebars.l"], "c0e7711fd5a7d89719271c0443359ec2b85774b5803350fedff65a1f5a4ba2f0",
              ["handlebars.tab.c", "handlebars.tab.h"],
              ["bison", "-Wall", "-b", "handlebars", "handlebars.y"]),
    "re":    (["src/handlebars_scanners.re"], "b669a4812a4445db1f2cb6d8d7f7b7d68261a5b442daab5559f06f81ef8fe52f",
              ["handlebars_scanners.c"],
              ["re2c", "--no-generation-date", "-s8", "-o", "handlebars_scanners.c", "handlebars_scanners.re"]),
    "gperf": (["src/handlebars_helpers_ht.gperf"], "45692165461c026fe4d3746d578f0a65ceb3895082b899b0debb6768824c054f",
              ["handlebars_helpers_ht.h"],
              ["gperf", "--struct-type", "--readonly-tables", "--compare-strncmp", "--compare-lengths", "--global-table",
               "--output-file=handlebars_helpers_ht.h", "handlebars_helpers_ht.gperf"]),
}

class BuildError(Exception):
    pass

def _read(p):
    with open(p, "rb") as f:
        return f.read()

def hash_of(files):
    h = hashlib.sha256()
    for f in files:
        h.update(("== %s\n" % f).encode())
        p = os.path.join(REPO, f)
        h.update(_read(p) if os.path.exists(p) else b"missing\n")
    return h.hexdigest()

def sources():
    out = []
    for d, pats in (("src", ("*.c", "*.h", "*.l", "*.y", "*.re", "*.gperf")), ("bin", ("*.c",)),
                    ("vendor/sort_r", ("*.h",)), ("vendor/xxhash", ("*.h",))):
        for pat in pats:
            out += glob.glob(os.path.join(REPO, d, pat))
    out = sorted(os.path.relpath(p, REPO) for p in out)
    return [p for p in out if os.path.basename(p) != "handlebars_config.h"]

def tree_hash():
    h = hashlib.sha256()
    for f in sources():
        h.update(("== %s\n" % f).encode())
        h.update(_read(os.path.join(REPO, f)))
    for f in sorted(glob.glob(os.path.join(VERIF, "cfg", "*.h"))):
        h.update(_read(f))
    return h.hexdigest()

VARIANTS = {
    # name: (cflags, ldflags, defines)
    "asan":  (["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-fsanitize=address"], []),
    "plain": (["-O1", "-g"], [], []),
    "hooks": (["-O1", "-g"], [], ["-DHBS_VERIF=1"]),
    "ahooks": (["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-fsanitize=address"], ["-DHBS_VERIF=1"]),
    # the library's accesses to memory call the driver (drv/shm.c takes the place of libtsan)
    "sched": (["-O1", "-g", "-fsanitize=thread", "-fno-builtin"], [], []),
}
# calls of the library that a driver takes over
WRAP = {"cache": ["time", "usleep", "mmap", "mdb_txn_begin", "mdb_txn_commit", "mdb_txn_abort", "mdb_put", "mdb_get", "mdb_del", "mdb_drop", "mdb_cursor_del"],
        "hbsdrv": ["time", "usleep"],
        "shm": ["mmap", "munmap", "mprotect", "time", "usleep", "nanosleep", "sched_yield", "memcpy", "memset", "memmove", "memcmp", "pthread_spin_init", "pthread_spin_lock", "pthread_spin_trylock",
                "pthread_spin_unlock", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock"]}
LIBS = ["-ljson-c", "-llmdb", "-lpthread", "-ltalloc", "-lyaml", "-lrt", "-lm"]

def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))

def _stage(th):
    """copy of the sources with generated files made current"""
    d = os.path.join(BUILD, "src-" + th[:20])
    if os.path.exists(os.path.join(d, ".ok")):
        return d
    if os.path.exists(d):
        shutil.rmtree(d)
    for f in sources():
        os.makedirs(os.path.join(d, os.path.dirname(f)), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, f), os.path.join(d, f))
    shutil.copyfile(os.path.join(VERIF, "cfg", "config.h"), os.path.join(d, "config.h"))
    shutil.copyfile(os.path.join(VERIF, "cfg", "handlebars_config.h"), os.path.join(d, "src", "handlebars_config.h"))
    for g, (ins, base, outs, cmd) in GEN.items():
        if hash_of(ins) != base or not all(os.path.exists(os.path.join(d, "src", o)) for o in outs):
            _run(cmd, os.path.join(d, "src"))
    open(os.path.join(d, ".ok"), "w").close()
    return d

class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def _prune(keep):
    for e in os.listdir(BUILD):
        if (e.startswith("src-") or e.startswith("obj-")) and not any(k in e for k in keep):
            p = os.path.join(BUILD, e)
            try:
                if os.path.isdir(p) and os.path.getmtime(p) < __import__("time").time() - 3600:
                    shutil.rmtree(p)
            except OSError:
                pass

def build(variant="asan", driver="hbsdrv", cli=False):
    """returns the path of the driver executable (or of handlebarsc when cli)"""
    with Lock():
        th = tree_hash()
        cflags, ldflags, defs = VARIANTS[variant]
        plain = ["-O1", "-g"] if variant == "sched" else cflags
        src = _stage(th)
        vkey = hashlib.sha256(repr((cflags, ldflags, defs, WRAP)).encode()).hexdigest()[:8]
        obj = os.path.join(BUILD, "obj-%s-%s-%s" % (th[:20], variant, vkey))
        inc = ["-DHAVE_CONFIG_H", "-I" + src, "-I" + os.path.join(src, "src"), "-I" + os.path.join(src, "vendor/sort_r"),
               "-I" + os.path.join(src, "vendor/xxhash"), "-I/usr/include/json-c"] + defs
        os.makedirs(obj, exist_ok=True)
        os.utime(obj)
        _prune([th[:20]])
        cs = sorted(glob.glob(os.path.join(src, "src", "*.c")))
        jobs = []
        objs = []
        for c in cs:
            o = os.path.join(obj, os.path.basename(c)[:-2] + ".o")
            objs.append(o)
            if not os.path.exists(o):
                jobs.append(["gcc", "-w", "-std=gnu11"] + cflags + inc + ["-c", c, "-o", o + ".tmp"])
        # longest first
        jobs.sort(key=lambda j: -os.path.getsize(j[-3]))
        def one(j):
            _run(j, obj)
            os.rename(j[-1], j[-1][:-4])
        if cli:
            dsrc = os.path.join(src, "bin", "handlebarsc.c")
            dhash = "cli"
        else:
            dsrc = os.path.join(VERIF, "drv", driver + ".c")
            dhash = hashlib.sha256(b"".join(_read(f) for f in sorted(glob.glob(os.path.join(VERIF, "drv", "*.[ch]"))))).hexdigest()[:10]
        dobj = os.path.join(obj, "drv-%s-%s.o" % (os.path.basename(dsrc)[:-2], dhash))
        exe = dobj[:-2]
        if not os.path.exists(dobj):
            jobs.insert(0, ["gcc", "-w", "-std=gnu11"] + plain + inc + ["-I" + os.path.join(VERIF, "drv"), "-c", dsrc, "-o", dobj + ".tmp"])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, jobs))
        if not os.path.exists(exe):
            _run(["gcc"] + plain + ldflags + ["-Wl,--wrap=" + w for w in WRAP.get("cli" if cli else driver, [])] + ["-o", exe + ".tmp", dobj] + objs + LIBS, obj)
            os.rename(exe + ".tmp", exe)
        return exe

if __name__ == "__main__":
    import time
    t = time.time()
    print(build(sys.argv[1] if len(sys.argv) > 1 else "asan", cli=(len(sys.argv) > 2 and sys.argv[2] == "cli"),
                driver=sys.argv[2] if len(sys.argv) > 2 else "hbsdrv"))
    print("%.1fs" % (time.time() - t))
