"""Talks to the C driver (JSON lines).  A case on which the driver dies or hangs is reported as {"crash": ...}."""
import json, os, subprocess, threading, queue, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hbuild

ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=1",
       "LC_ALL": "C"}

class Driver:
    def __init__(self, exe, args=(), env=None, cwd=None):
        self.exe, self.args, self.cwd = exe, list(args), cwd
        self.env = dict(os.environ); self.env.update(ENV); self.env.update(env or {})
        self.p = None
    def start(self):
        self.p = subprocess.Popen([self.exe] + self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, env=self.env, cwd=self.cwd)
        self.err = bytearray()
        p, err = self.p, self.err
        def rd():
            while True:
                b = p.stderr.read1(65536)
                if not b: break
                if len(err) < 200000: err.extend(b)
        self.errt = threading.Thread(target=rd, daemon=True); self.errt.start()
    def ask(self, req):
        return self.ask_some([(json.dumps(req) + "\n").encode()])[0]
    def ask_some(self, lines):
        """answers to the first of the requests: to all unless one crashes, whose answer is then the last"""
        if self.p is None:
            self.start()
        got = []
        try:
            self.p.stdin.write(b"".join(lines))
            self.p.stdin.flush()
            while len(got) < len(lines):
                line = self.p.stdout.readline()
                if not line:
                    break
                if line.startswith(b"{"):
                    try:
                        got.append(json.loads(line))
                    except ValueError:
                        got.append({"crash": "garbled output", "stderr": line[:300].decode("latin1")})
            if len(got) == len(lines):
                return got
        except BrokenPipeError:
            pass
        return got + [self.dead()]
    def dead(self):
        self.p.wait()
        self.errt.join(2)
        rc = self.p.returncode
        e = self.err.decode("latin1")
        self.p = None
        i = e.find("ERROR: AddressSanitizer")
        return {"crash": ("timeout" if rc == -14 else "rc=%s" % rc), "stderr": e[i:i+1500] if i >= 0 else e[-1500:]}
    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                self.p.wait(20)
            except subprocess.TimeoutExpired:
                self.p.kill()
            rc = self.p.returncode
            self.p = None
            return rc

def ask_all(exe, reqs, jobs=8, args=(), env=None):
    """answers in the order of reqs"""
    out = [None] * len(reqs)
    q = queue.SimpleQueue()
    n = max(1, min(jobs, (len(reqs) + 15) // 16))
    chunk = 32
    for i in range(0, len(reqs), chunk):
        q.put(i)
    def work():
        d = Driver(exe, args, env)
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                break
            k, end, ready = i, min(i + chunk, len(reqs)), []
            while k < end or ready:
                # as many as the pipe holds, so that writing never waits for the reading of answers
                while k + len(ready) < end and sum(map(len, ready)) < 20000:
                    ready.append((json.dumps(reqs[k + len(ready)]) + "\n").encode())
                n = 1
                while n < len(ready) and sum(map(len, ready[:n + 1])) <= 40000: n += 1
                for a in d.ask_some(ready[:n]):
                    out[k] = a; k += 1; ready.pop(0)
        d.close()
    ts = [threading.Thread(target=work) for _ in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()
    return out
