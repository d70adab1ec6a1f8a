"""C03: the shared-memory cache under every interleaving of its users."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, hbuild, shmcmp

def T(s): return list(s.encode())
PAR = {"bug": "", "nslot": 2, "slot": [0, 1, 0], "need": [[4, 9]] * 3, "part": [[[1], [1]]] * 3, "dsize": 12, "age": 3}
OPS = [["find", 0], ["find", 1], ["rel"], ["add", 0, 0], ["add", 1, 1], ["add", 2, 0], ["reset"], ["tick", 3]]
BUGS = ["peek", "early", "nolock", "aba", "publish", "impatient", "forget", "leak"]

def model(c):
    """the protocol itself"""
    def one(n, mx, live=False, bug=""):
        r = shmcmp.mc(dict(PAR, bug=bug), OPS, n, mx, [["add", 0, 0]], live)
        if bug:
            c.add("wrong_protocols_found")
            if "Invariant Law is violated" not in r.text: raise RuntimeError("the laws do not see the wrong protocol " + bug)
        elif not r.ok: raise RuntimeError("TLC: " + "".join(r.out)[-3000:])
        else: c.add("states", r.distinct); c.add("transitions", r.states)
        if os.environ.get("VERBOSE"): print("MCShm %d users %d operations %s%s: %d states %.1fs" % (n, mx, bug, " liveness" if live else "", r.distinct, r.seconds))
    if c.quick:
        one(2, 2); one(2, 2, True)
    else:
        one(2, 3); one(3, 1); one(2, 2, True); one(3, 1, True); one(2, 4)
        for b in BUGS: one(2, 2, bug=b)

def run(c):
    q = c.quick
    model(c)
    exe = hbuild.build("sched", driver="shm")
    keys = [T("a"), T("{{a}}b"), T("c")]
    small, mid = T("a"), T("{{#if a}}b{{else}}c{{/if}} {{> p}}")
    one = shmcmp.Shm(exe, keys, [small, mid], entries=1)                # every key in one slot
    many = shmcmp.Shm(exe, keys, [small, mid], entries=64)              # each in its own
    if len(set(many.par["slot"])) < 3: many = shmcmp.Shm(exe, keys, [small, mid], entries=61)
    full = shmcmp.Shm(exe, keys, [T("x" * 1500), T("y" * 2500)], entries=64)   # two programs do not fit together
    A = [["find", 0], ["find", 1], ["rel"], ["add", 0, 0], ["add", 0, 1], ["add", 1, 0], ["reset"], ["tick", 3]]
    inits = [[], [["add", 0, 0]], [["add", 0, 0], ["find", 0]], [["add", 0, 0], ["add", 1, 1], ["tick", 3]], [["add", 1, 1], ["find", 1]]]
    P2 = [list(p) for p in itertools.product(A, A)]
    def users(k, age, pairs, **kw):
        return [k.req(i, ps, age=age, **kw) for i, ps in pairs]
    # user 1 and 2: two operations each
    pairs = [(i, [a, b]) for i in inits for a in P2 for b in P2 if a != b or a[0][0] != "find"]
    for k, age, what, n in ((one, -1, "one slot", 70), (many, 3, "expiring programs", 110), (full, -1, "full memory", 90), (full, 3, "full memory, expiring", 40)):
        ps = c.rng.sample(pairs, n if q else 1500)
        shmcmp.judge(c, users(k, age, ps, preempt=2, max=4000 if q else 20000, keep=60 if q else 200), what, exe)
    # three users
    ps = [(i, [[x], [y], [z]]) for i in inits for x, y, z in itertools.combinations_with_replacement(A, 3)]
    for k, age, what, n in ((many, 3, "three users", 40), (full, -1, "three users, full memory", 40)):
        shmcmp.judge(c, users(k, age, c.rng.sample(ps, n if q else len(ps)), preempt=2, max=5000 if q else 40000, keep=60 if q else 200), what, exe)
    # known dangers, deeper: a look-up against clearing, storing over what was cleared; expiry against expiry and storing anew; a reader that stays
    deep = [(full, -1, [["add", 0, 0]], [[["find", 0], ["rel"]], [["reset"], ["add", 1, 1], ["find", 1]]]),
            (full, -1, [["add", 0, 0]], [[["find", 0], ["rel"], ["find", 0]], [["add", 1, 1], ["add", 1, 1]]]),
            (many, 3, [["add", 0, 0], ["tick", 3]], [[["find", 0], ["find", 0]], [["find", 0], ["add", 0, 1], ["find", 0]]]),
            (many, 3, [["add", 0, 0], ["tick", 3]], [[["find", 0]], [["find", 0], ["add", 0, 1]], [["find", 0], ["rel"]]]),
            (full, 3, [["add", 0, 0], ["find", 0]], [[["rel"], ["add", 1, 1]], [["reset"], ["find", 0]], [["reset"]]]),
            (one, -1, [], [[["add", 0, 1], ["find", 0]], [["add", 1, 0], ["find", 1]], [["find", 0], ["rel"]]]),
            (full, -1, [["add", 0, 0]], [[["add", 1, 1], ["find", 1]], [["add", 1, 1], ["find", 1]], [["find", 0], ["rel"]]]),
            (many, -1, [], [[["reset"], ["add", 1, 1]], [["reset"], ["add", 0, 0], ["find", 0]]]),
            (many, -1, [["add", 0, 0]], [[["reset"], ["find", 0]], [["reset"]], [["add", 0, 1], ["find", 0]]]),
            (one, 3, [["add", 0, 0], ["tick", 3]], [[["find", 0], ["add", 1, 0]], [["find", 0], ["add", 0, 1]], [["find", 1]]])]
    shmcmp.judge(c, [k.req(i, p, age=a, preempt=3, max=25000 if q else 1500000, keep=300 if q else 3000) for k, a, i, p in deep], "known dangers", exe)
    # longer histories
    rs = []
    for _ in range(60 if q else 1500):
        k, age = c.rng.choice([(one, -1), (many, 3), (many, -1), (full, -1), (full, 3)])
        rs.append(k.req(c.rng.choice(inits), [[c.rng.choice(A) for _ in range(3)] for _ in range(2)], age=age, preempt=2, max=12000 if q else 60000, keep=30 if q else 100))
    for _ in range(30 if q else 1200):
        k, age = c.rng.choice([(one, -1), (many, 3), (full, -1), (full, 3)])
        n = c.rng.choice([2, 2, 3])
        rs.append(k.req(c.rng.choice(inits), [[c.rng.choice(A) for _ in range(c.rng.choice([3, 4, 5]) if n == 2 else 3)] for _ in range(n)], age=age, preempt=1, max=1500 if q else 8000, keep=40 if q else 100))
    shmcmp.judge(c, rs, "longer histories", exe)
    c.assumptions += ["sequentially consistent memory: the accesses of the users are interleaved, not reordered", "the number of preemptions per schedule is bounded (1-3); waiting, sleeping and ending switch freely",
                      "users live as long as they hold the lock or a program"]
chk.main("C03", "model_checking", run)
