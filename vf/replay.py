"""The real library, driven through the replay server."""
import os, struct, subprocess, select, time, math
from . import mir
from .mir import ROOT, BUILD, sh, lock, BuildError

RDIR = os.path.join(ROOT, "replay")
TD = os.path.join(BUILD, "replay-target")
_bin = None
broken = None
def binary():
    """build the replay server against /repo's current tree"""
    global _bin
    if _bin: return _bin
    lk = lock()
    try:
        src = os.path.join(mir.REPO, "src", "lib.rs")
        # cargo keys on mtimes; a file replaced by one with an older mtime must still trigger a rebuild
        stamp = os.path.join(BUILD, "replay.hash"); h = mir.src_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != h:
            import shutil
            for pat in ("debug/build", "debug/.fingerprint", "debug/incremental"):
                d = os.path.join(TD, pat)
                if os.path.isdir(d):
                    for n in os.listdir(d):
                        if "symb_anafis" in n:
                            shutil.rmtree(os.path.join(d, n), ignore_errors=True)
        r = sh(["cargo", "build", "--offline", "--target-dir", TD], cwd=RDIR, env={"RUSTFLAGS": "--cfg symb_verif --cap-lints allow"})
        p = os.path.join(TD, "debug", "vf_replay")
        if r.returncode or not os.path.exists(p):
            # the hooks no longer fit the crate (a private item they use was renamed, say): the deductive part goes on without runs of the real code
            global broken
            broken = "replay server does not build, no bounded comparison was run: " + r.stdout[-1500:]; _bin = "/bin/false"; return _bin
        open(stamp, "w").write(h)
        # private copy: a concurrent rebuild must not change the binary under us
        _bin = p
        return p
    finally:
        lk.close()

def hx(x): return "%016x" % struct.unpack("<Q", struct.pack("<d", x))[0]
def unhx(s): return struct.unpack("<d", struct.pack("<Q", int(s, 16)))[0]
def esc(s):
    o = ""
    for c in s.encode():
        ch = chr(c)
        o += ch if (ch.isalnum() and c < 128) or ch == "_" else "%%%02x" % c
    return o or "%20"
def unesc(s):
    b = bytearray(); i = 0
    while i < len(s):
        if s[i] == "%": b.append(int(s[i + 1:i + 3], 16)); i += 3
        else: b += s[i].encode(); i += 1
    return b.decode("utf8", "replace")

class Timeout(Exception): pass
class NoServer(Timeout): pass
class RPanic(Exception): pass
class Server:
    def __init__(self): self.p = None; self.n = 0
    def start(self):
        self.p = subprocess.Popen([binary()], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        self.buf = b""
    def stop(self):
        if self.p:
            try: self.p.kill(); self.p.wait()
            except Exception: pass
            self.p = None
    def call(self, line, timeout=20.0):
        if self.p is None or self.p.poll() is not None: self.start()
        self.n += 1
        try: self.p.stdin.write(line.encode() + b"\n")
        except BrokenPipeError:
            self.start(); self.p.stdin.write(line.encode() + b"\n")
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0: self.stop(); raise Timeout(line[:300])
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                d = os.read(self.p.stdout.fileno(), 1 << 20)
                if not d:
                    rc = self.p.wait(); self.p = None
                    raise RPanic(f"process died (exit {rc})")
                self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        s = l.decode("utf8", "replace")
        if s.startswith("PANIC"): raise RPanic(unesc(s[6:]))
        return s
_srv = None
def server():
    global _srv
    if _srv is None: _srv = Server()
    return _srv
def call(line, timeout=20.0):
    binary()
    if broken: raise NoServer(line[:100])
    return server().call(line, timeout)

# ------------------------------------------------------------------ trees
# ("n", float) ("s", name) ("f", name, [args]) ("+", [..]) ("*", [..]) ("/", a, b) ("^", a, b) ("d", a, var, k) ("P", base, [(k, c)])
def enc(t):
    k = t[0]
    if k == "n": return "#" + hx(t[1])
    if k == "s": return "@" + esc(t[1])
    if k == "f": return " ".join([f"f:{esc(t[1])}:{len(t[2])}"] + [enc(x) for x in t[2]])
    if k in "+*": return " ".join([f"{k}{len(t[1])}"] + [enc(x) for x in t[1]])
    if k in "/^": return f"{k} {enc(t[1])} {enc(t[2])}"
    if k == "d": return f"d:{esc(t[2])}:{t[3]} {enc(t[1])}"
    if k == "P": return "P:" + ",".join(f"{p},{hx(c)}" for p, c in t[2]) + " " + enc(t[1])
    raise ValueError(t)
def dec(s):
    toks = s.split(" "); i = 0
    def go():
        nonlocal i
        w = toks[i]; i += 1
        h, rest = w[0], w[1:]
        if h == "#": return ("n", unhx(rest))
        if h == "@": return ("s", unesc(rest))
        if h in "+*": return (h, [go() for _ in range(int(rest))])
        if h in "/^":
            a = go(); return (h, a, go())
        if h == "f":
            n, k = rest[1:].rsplit(":", 1); return ("f", unesc(n), [go() for _ in range(int(k))])
        if h == "d":
            n, k = rest[1:].rsplit(":", 1); return ("d", go(), unesc(n), int(k))
        if h == "P":
            v = [x for x in rest[1:].split(",") if x]
            return ("P", (lambda b: b)(go()), [(int(v[j]), unhx(v[j + 1])) for j in range(0, len(v), 2)])
        raise ValueError(w)
    r = go()
    return r
def show(t):
    k = t[0]
    if k == "n": return repr(t[1]) if t[1] >= 0 or t[1] != t[1] else f"({t[1]!r})"
    if k == "s": return t[1]
    if k == "f": return f"{t[1]}({', '.join(show(x) for x in t[2])})"
    if k == "+": return "(" + " + ".join(show(x) for x in t[1]) + ")"
    if k == "*": return "(" + " * ".join(show(x) for x in t[1]) + ")"
    if k == "/": return f"({show(t[1])} / {show(t[2])})"
    if k == "^": return f"({show(t[1])} ^ {show(t[2])})"
    if k == "d": return f"D[{show(t[1])}, {t[2]}, {t[3]}]"
    if k == "P": return "Poly[" + show(t[1]) + "; " + ", ".join(f"{c!r}*^{p}" for p, c in t[2]) + "]"
    if k == "pf": return f"D[{t[1]}({', '.join(show(x) for x in t[3])}), arg{t[2]}, {t[4]}]"
    return str(t)
