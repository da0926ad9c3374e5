"""Loading of the syntax trees of the current sources (read on every run)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
FRONT = os.path.join(VERIF, "frontend")
BIN = os.path.join(FRONT, "target", "release", "frontend")


def build_frontend():
    src = os.path.join(FRONT, "src", "main.rs")
    if os.path.exists(BIN) and os.path.getmtime(BIN) >= os.path.getmtime(src):
        return
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=FRONT, env=env, check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)


def source_files(root, sub):
    out = []
    for d, ds, fs in os.walk(os.path.join(root, sub)):
        ds[:] = sorted(x for x in ds if x not in ("target", "tests", "benches", "examples"))
        for f in sorted(fs):
            if f.endswith(".rs") and f not in ("tests.rs", "build.rs"):
                out.append(os.path.relpath(os.path.join(d, f), root))
    return out


class Fn:
    def __init__(self, name, file, mods, ast, impl=None, trait=None):
        self.name, self.file, self.mods, self.ast, self.impl, self.trait = name, file, mods, ast, impl, trait

    @property
    def qual(self):
        if self.impl is not None:
            s = tyname(self.impl["self"])
            t = self.impl["trait"]
            tr = ""
            if t:
                tr = " as " + pathstr(t)
            return "<%s%s>::%s" % (s, tr, self.name)
        if self.trait:
            return "%s::%s (provided)" % (self.trait, self.name)
        return "::".join(self.mods + [self.name])

    def where(self):
        return "%s:%s" % (self.file, self.ast.get("line"))


def pathstr(p):
    out = []
    for s in p:
        g = s["g"]
        out.append(s["n"] + ("<" + ",".join(tyname(x) for x in g if isinstance(x, dict)) + ">" if g else ""))
    return "::".join(out)


def tyname(t):
    if t is None:
        return "()"
    k = t.get("k")
    if k == "path":
        return pathstr(t["p"])
    if k == "ref":
        return "&" + tyname(t["t"])
    if k == "tuple":
        return "(" + ",".join(tyname(x) for x in t["ts"]) + ")"
    return k or "?"


class Program:
    def __init__(self, root, subs=("src",)):
        build_frontend()
        files = []
        for s in subs:
            files += source_files(root, s)
        r = subprocess.run([BIN, root] + files, capture_output=True, text=True, check=True)
        self.asts = json.loads(r.stdout)
        self.root = root
        self.fns = {}          # name -> [Fn] (free functions)
        self.methods = {}      # name -> [Fn] (impl items)
        self.provided = {}     # name -> [Fn] (trait default bodies)
        self.structs = {}
        self.enums = {}        # variant -> [enum name]
        self.enumdefs = {}
        self.consts = {}
        self.types = {}
        self.uses = {}         # file -> list of use texts
        self.traits = {}
        self.errors = {}
        for f, d in sorted(self.asts.items()):
            if "error" in d:
                self.errors[f] = d["error"]
                continue
            self.items(d["items"], f, [])

    def items(self, items, f, mods):
        for it in items:
            k = it["k"]
            if k == "fn":
                self.fns.setdefault(it["n"], []).append(Fn(it["n"], f, mods, it))
            elif k == "impl":
                for m in it["items"]:
                    if m["k"] == "fn":
                        self.methods.setdefault(m["n"], []).append(Fn(m["n"], f, mods, m, impl=it))
                    elif m["k"] == "const":
                        self.consts.setdefault(m["n"], []).append((f, m["e"]))
            elif k == "trait":
                self.traits[it["n"]] = it
                for m in it["items"]:
                    if m["k"] == "fn" and m["body"] is not None:
                        self.provided.setdefault(m["n"], []).append(Fn(m["n"], f, mods, m, trait=it["n"]))
            elif k == "structdef":
                self.structs[it["n"]] = it
            elif k == "enum":
                self.enumdefs[it["n"]] = it
                for v in it["vs"]:
                    self.enums.setdefault(v["n"], []).append(it["n"])
            elif k == "const":
                self.consts.setdefault(it["n"], []).append((f, it["e"]))
            elif k == "type":
                self.types[it["n"]] = it
            elif k == "mod":
                self.items(it["items"], f, mods + [it["n"]])
            elif k == "use":
                self.uses.setdefault(f, []).append(it["txt"].replace(" ", ""))

    # -- lookups used by the contracts (by what a function is, not where it is)
    def free(self, name, near=None, hint=None):
        c = self.fns.get(name, [])
        if hint:
            h = [x for x in c if hint in x.file or hint in x.mods]
            if h:
                return h[0]
            if len(c) > 1:
                return None
        if near:
            h = [x for x in c if x.file == near]
            if len(h) == 1:
                return h[0]
            for u in self.uses.get(near, []):
                if name in u:
                    h = [x for x in c if _modname(x.file) in u or any(m in u for m in x.mods)]
                    if len(h) == 1:
                        return h[0]
        return c[0] if len(c) == 1 else None


def _modname(f):
    b = os.path.basename(f)
    if b == "mod.rs":
        return os.path.basename(os.path.dirname(f))
    return b[:-3]
