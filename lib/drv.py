"""Runs driver processes and records what they return."""
import hashlib, json, os, select, shutil, signal, subprocess, tempfile, time

class Driver:
    """One driver process.  A call that kills the process or does not come
    back is answered with {"fault": ...}; the next call starts a new process."""
    def __init__(self, exe, timeout=180, env=None):
        self.exe, self.timeout, self.p = exe, timeout, None
        self.env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
                        UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=98",
                        TSAN_OPTIONS="exitcode=97:halt_on_error=1:report_signal_unsafe=0", **(env or {}))
        self.calls, self.log = 0, []
    def _start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=self.env, bufsize=0)
        self.buf = b""
        self.log = []                   # calls of this process
    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                self.p.wait(10)
            except subprocess.TimeoutExpired:
                self.p.kill(); self.p.wait()
            self.p.stdout.close(); self.err.close()
            self.p = None
    def _fault(self, what):
        try:
            self.p.kill()
        except OSError:
            pass
        rc = self.p.wait()
        if what != "timeout":
            what = f"signal {-rc}" if rc < 0 else {99: "memory error", 98: "undefined behaviour", 97: "data race"}.get(rc, f"exit {rc}")
        self.err.seek(0)
        tail = self.err.read().decode(errors="replace")
        self.p.stdout.close(); self.err.close(); self.p = None
        return {"fault": what, "detail": tail[:1500]}
    def call(self, *args):
        self.send(*args)
        return self.receive()
    def send(self, *args):
        if self.p is None:
            self._start()
        self.calls += 1
        self.log.append(args)
        self.limit = 700 if args[0] in ("huge", "hugehash", "far") else self.timeout
        data = (" ".join(str(a) for a in args) + "\n").encode()
        self.sent = True
        try:
            self._write(data)
        except (BrokenPipeError, OSError):
            self.sent = False
    def receive(self):
        if not self.sent:
            return self._fault("died")
        end = time.time() + self.limit
        while True:
            i = self.buf.find(b"\n")
            if i >= 0:
                ln, self.buf = self.buf[:i], self.buf[i+1:]
                return json.loads(ln)
            left = end - time.time()
            if left <= 0:
                return self._fault("timeout")
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                d = os.read(self.p.stdout.fileno(), 1 << 20)
                if not d:
                    return self._fault("died")
                self.buf += d
    def _write(self, data):
        mv = memoryview(data)
        while mv:
            n = self.p.stdin.write(mv)
            mv = mv[n:]

def hx(b):
    return bytes(b).hex() or "-"
def hx16(v):
    return b"".join(int(x).to_bytes(2, "little") for x in v).hex() or "-"

class Generator:
    """A known-answer generator: "katrun" executes it in a new folder and reads
    the files it writes, "kat i" returns entry i of both."""
    def __init__(self, exe):
        self.exe, self.req, self.rsp = exe, None, None
    @staticmethod
    def parse(text):
        """entries of key = value lines; lines starting with # are comments"""
        out, seen = [], set()
        for ln in text.splitlines():
            ln = ln.strip()
            if not ln or ln[0] == "#":
                continue
            k, eq, v = (x.strip() for x in ln.partition("="))
            if eq != "=":
                return None
            if k == "count":
                out.append({})
            if not out or k in out[-1]:
                return None
            out[-1][k] = v
        return out
    def call(self, cmd, *args):
        if cmd == "katrun":
            base = os.path.dirname(self.exe)
            d = tempfile.mkdtemp(prefix="run-", dir=base)
            try:
                try:
                    r = subprocess.run([self.exe], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=800)
                except subprocess.TimeoutExpired:
                    return {"fault": "timeout"}
                files = sorted(os.listdir(d))
                texts = {e: [open(os.path.join(d, f), errors="replace").read() for f in files if f.endswith(e)] for e in (".req", ".rsp")}
            finally:
                shutil.rmtree(d, ignore_errors=True)
            if r.returncode < 0:
                return {"fault": f"signal {-r.returncode}"}
            if len(files) != 2 or any(len(v) != 1 for v in texts.values()):
                return {"fault": "files", "detail": str(files)}
            self.req, self.rsp = self.parse(texts[".req"][0]), self.parse(texts[".rsp"][0])
            if self.req is None or self.rsp is None:
                return {"fault": "format"}
            both = (texts[".req"][0] + "\0" + texts[".rsp"][0]).encode()
            return {"ret": r.returncode, "nreq": len(self.req), "nrsp": len(self.rsp), "sha": list(hashlib.sha256(both).digest())}
        try:
            q, p = self.req[int(args[0])], self.rsp[int(args[0])]
            b = lambda e, k: list(bytes.fromhex(e[k]))
            ans = dict(count=int(q["count"]), mlen=int(q["mlen"]), seed=b(q, "seed"), msg=b(q, "msg"),
                       same=int(all(q[k] == p[k] for k in ("count", "seed", "mlen", "msg"))),
                       pk=b(p, "pk"), sk=b(p, "sk"), smlen=int(p["smlen"]), sm=b(p, "sm"))
            return ans
        except (KeyError, ValueError, IndexError, TypeError) as e:
            return {"fault": "format", "detail": repr(e)}
