"""Client of the persistent driver process."""
import os, struct, subprocess, select, time, signal, tempfile, json

ENV_SAN = {
    # note: allocator_may_return_null=1 lets nothrow allocation failures be handled as in production; malloc_fill makes stale heap visible
    "ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=99:max_allocation_size_mb=600:malloc_fill_byte=171:max_malloc_fill_size=1048576:free_fill_byte=205:max_free_fill_size=65536:detect_stack_use_after_return=0:allocator_may_return_null=0:handle_abort=1:strict_string_checks=0:color=never:quarantine_size_mb=16",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98:color=never",
    "LSAN_OPTIONS": "exitcode=97:report_objects=0",
    "TSAN_OPTIONS": "exitcode=96:halt_on_error=0:color=never:second_deadlock_stack=1",
}

class Crash(Exception):
    def __init__(self, kind, detail):
        super().__init__("%s: %s" % (kind, detail[:300])); self.kind = kind; self.detail = detail
class Timeout(Exception):
    """No answer. hang: "spinning" after CPU_LIMIT seconds of processor time, "blocked" while waiting for something, None if the machine may just be slow."""
    hang = None
CPU_LIMIT = 15.0 # calls take milliseconds
def cpu_state(pid):
    with open("/proc/%d/stat" % pid) as f: s = f.read()
    f = s[s.rindex(")") + 2:].split(); return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK"), f[0]

def summarize(err):
    """Stable key from a sanitizer report: the kind and the top-most /repo frame."""
    kind = "crash"; frame = ""
    lines = err.splitlines()
    for l in lines:
        if "runtime error:" in l:
            kind = "ubsan:" + l.split("runtime error:")[1].strip().split(" for ")[0][:70]; break
        if "ERROR: AddressSanitizer:" in l:
            kind = "asan:" + l.split("AddressSanitizer:")[1].strip().split(" on ")[0].split(" (")[0][:50]; break
        if "WARNING: ThreadSanitizer:" in l:
            kind = "tsan:" + l.split("ThreadSanitizer:")[1].strip().split(" (pid")[0][:50]; break
        if "ERROR: LeakSanitizer" in l:
            kind = "leak"; break
        if "Assertion" in l and "failed" in l:
            kind = "assert:" + l[-100:]; break
        if "terminate called" in l:
            kind = "terminate"
        if l.startswith("HANG: "):
            kind = "hang"
    import re
    for l in lines:
        m = re.match(r"\s*#\d+ (?:0x[0-9a-f]+ in )?(.+?) (\S+?):(\d+)", l)
        if m and re.search(r"/src/(fastgltf|base64|io)\.cpp|/include/fastgltf/", m.group(2)) and "/verif/" not in m.group(2):
            frame = re.sub(r"\(.*", "", m.group(1)); break
    return kind + (("@" + frame) if frame else "")

class Driver:
    def __init__(self, exe, timeout=20.0, env=None, init=(), cwd="/"):
        self.exe = exe; self.timeout = timeout; self.env = dict(os.environ); self.env.update(ENV_SAN)
        if env: self.env.update(env)
        self.init = init; self.cwd = cwd # calls made in every fresh process
        self.p = None; self.calls = 0; self.log = []; self.restarts = 0
    def start(self):
        self.errf = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, env=self.env, cwd=self.cwd)
        self.log = []
        self.restarts += 1
    def _enc(self, args):
        b = [struct.pack("<I", len(args))]
        for a in args:
            if isinstance(a, str): a = a.encode("utf-8", "surrogateescape")
            elif isinstance(a, (int,)): a = str(a).encode()
            b.append(struct.pack("<I", len(a))); b.append(a)
        return b"".join(b)
    def _read(self, n, deadline):
        out = b""; fd = self.p.stdout.fileno()
        while len(out) < n:
            left = deadline - time.time()
            r, _, _ = select.select([fd], [], [], max(0, min(left, 1.0)))
            if not r:
                cpu, state = cpu_state(self.p.pid); t = Timeout()
                if cpu - self.cpu0 > CPU_LIMIT: t.hang = "spinning"; raise t
                if left > 0: continue
                if state == "S" and cpu - self.cpu0 < 1: t.hang = "blocked"
                if t.hang or left < -300: raise t
                continue
            c = os.read(fd, min(1 << 20, n - len(out)))
            if not c: raise EOFError()
            out += c
        return out
    def call_raw(self, *args):
        if self.p is None:
            self.start()
            for c in self.init: self.call_raw(*c)
        self.calls += 1
        self.log.append(args)
        if len(self.log) > 64: self.log.pop(0)
        deadline = time.time() + self.timeout; self.cpu0 = cpu_state(self.p.pid)[0] if self.p.poll() is None else 0
        try:
            data = self._enc(args)
            try:
                self.p.stdin.write(data); self.p.stdin.flush()
            except BrokenPipeError:
                raise EOFError()
            n, = struct.unpack("<I", self._read(4, deadline)); out = []
            for _ in range(n):
                l, = struct.unpack("<I", self._read(4, deadline)); out.append(self._read(l, deadline) if l else b"")
            if out and out[0] == b"EXC":
                raise Crash("exception:%s" % args[0], "an exception escaped the library in op %s: %s" % (args[0], out[1].decode("utf-8", "replace")))
            return out
        except EOFError:
            rc = self.p.wait(); err = self.stderr(); self.p = None
            if rc == 8: raise RuntimeError("driver protocol error: " + err[-500:])
            raise Crash(summarize(err) if err.strip() else "exit%d" % rc, "rc=%d\n%s" % (rc, err))
        except Timeout:
            self.kill(); raise
    def call(self, *args):
        """Strings out (latin-1 safe utf-8)."""
        return [x.decode("utf-8", "surrogateescape") for x in self.call_raw(*args)]
    def stderr(self):
        self.errf.seek(0); return self.errf.read().decode("utf-8", "replace")[-20000:]
    def kill(self):
        if self.p is not None:
            self.p.kill(); self.p.wait(); self.p = None
    def quit(self):
        """Orderly exit; reports leaks."""
        if self.p is None: return None
        try:
            self.call_raw("quit")
        except Crash as c:
            return c
        try:
            rc = self.p.wait(timeout=60)
        except subprocess.TimeoutExpired:
            self.kill(); return None
        err = self.stderr(); self.p = None
        if rc != 0:
            return Crash(summarize(err), "rc=%d\n%s" % (rc, err))
        return None
