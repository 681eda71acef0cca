"""Load the MIR dump produced by /verif/driver from /repo's current tree."""
import json, os, re, subprocess, hashlib, shutil, fcntl, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")

def sh(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    if env: e.update(env)
    return subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def src_hash():
    h = hashlib.sha256()
    files = []
    for base in ("src", "Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(REPO, base)
        if os.path.isfile(p): files.append(p)
        for d, _, fs in os.walk(p):
            for f in fs: files.append(os.path.join(d, f))
    for base in ("driver/src/main.rs", "driver/Cargo.toml"):
        files.append(os.path.join(ROOT, base))
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]

class BuildError(Exception): pass

def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def ensure_dump():
    """Returns path of a dump for the current /repo tree, building it if needed."""
    lk = lock()
    try:
        hsh = src_hash()
        out = os.path.join(BUILD, f"mir-{hsh}.json")
        if os.path.exists(out): return out
        drv = os.path.join(BUILD, "driver-target", "debug", "mirdump")
        r = sh(["cargo", "+nightly", "build", "--offline", "--target-dir", os.path.join(BUILD, "driver-target")], cwd=os.path.join(ROOT, "driver"))
        if r.returncode or not os.path.exists(drv): raise BuildError("driver: " + r.stdout[-3000:])
        sr = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
        td = os.path.join(BUILD, "mir-target")
        # force a recompile of the crate itself (dependencies stay cached)
        for pat in ("debug/build", "debug/.fingerprint", "debug/deps", "debug/incremental"):
            d = os.path.join(td, pat)
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if "symb_anafis" in n or "symb-anafis" in n or "symb_ana" in n:
                        p = os.path.join(d, n)
                        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        tmp = out + ".tmp"
        r = sh(["cargo", "+nightly", "rustc", "--offline", "--lib", "--features", "parallel", "--target-dir", td, "--crate-type", "rlib"],
               env={"LD_LIBRARY_PATH": sr + "/lib", "RUSTC_WORKSPACE_WRAPPER": drv, "MIRDUMP_OUT": tmp, "RUSTFLAGS": "--cap-lints allow"}, cwd=REPO)
        if r.returncode or not os.path.exists(tmp): raise BuildError("dump: " + r.stdout[-4000:])
        for n in os.listdir(BUILD):
            if n.startswith("mir-") and n.endswith(".json"): os.remove(os.path.join(BUILD, n))
        os.rename(tmp, out)
        return out
    finally:
        lk.close()

def norm_name(s):
    return s.replace("wide::bytemuck::core::", "std::").replace("core::", "core::") if s else s

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]; self.fns = d["fns"]; self.statics = d.get("statics", {})
        self.byname = {}; self.bydef = {}
        for f in self.fns:
            f["name"] = norm_name(f["name"]); f["def"] = norm_name(f["def"])
            self.byname[f["name"]] = f
            self.bydef.setdefault(f["def"], []).append(f)
        self.adts = {}
        for i, t in enumerate(self.types):
            t["id"] = i
            if t["k"] == "adt": t["n"] = norm_name(t["n"]); self.adts.setdefault(t["n"], []).append(i)
    def fn(self, name):
        f = self.byname.get(name)
        if f is None:
            l = self.bydef.get(name)
            f = l[0] if l else None
        return f
    def find(self, rx):
        r = re.compile(rx)
        return [f for f in self.fns if r.search(f["name"])]
    def adt(self, name):
        l = self.adts.get(name)
        return l[0] if l else None
    def tname(self, i, depth=0):
        t = self.types[i]; k = t["k"]
        if k == "adt":
            a = [self.tname(x, depth + 1) for x in t.get("a", []) if isinstance(x, int)] if depth < 6 else []
            return t["n"] + ("<" + ",".join(a) + ">" if a else "")
        if k in ("ref", "ptr"): return "&" + self.tname(t["e"], depth + 1)
        if k == "tuple": return "(" + ",".join(self.tname(x, depth + 1) for x in t["e"]) + ")"
        if k == "slice": return "[" + self.tname(t["e"], depth + 1) + "]"
        if k == "array": return "[" + self.tname(t["e"], depth + 1) + ";" + str(t.get("n")) + "]"
        if k in ("int", "uint", "float"): return k[0] + str(t.get("w", t.get("n", "")))
        return k

_prog = None
def prog():
    global _prog
    if _prog is None: _prog = Prog(ensure_dump())
    return _prog
