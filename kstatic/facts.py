"""Facts: the resolved MIR exported by the rustc driver for one crate."""
import json, os

class Facts:
    def __init__(self, d, crate):
        self.crate = crate
        j = json.load(open(os.path.join(d, crate + ".json")))
        self.types = j["types"]
        self.adts = j["adts"]
        self.fns = j["fns"]
        self.impls = j["impls"]
        self.by_name = {}
        for f in self.fns:
            self.by_name.setdefault(f["n"], []).append(f)
        self._lines = {}
        self._bodies = {}
        self.names = {}
        with open(os.path.join(d, crate + ".bodies")) as fh:
            for line in fh:
                # {"id":N,"n":...
                i = int(line[6:line.index(",", 6)])
                self._lines[i] = line
    def body(self, i):
        b = self._bodies.get(i)
        if b is None:
            b = json.loads(self._lines[i])
            self._bodies[i] = b
            indeg = {}
            for bb in b["b"]:
                for t in succs(bb[2]):
                    indeg[t] = indeg.get(t, 0) + 1
            b["merge"] = {t for t, n in indeg.items() if n > 1}
        return b
    def ninst(self):
        return len(self._lines)
    def bodies(self):
        for i in self._lines:
            yield self.body(i)
    def fn(self, name):
        l = self.by_name.get(name)
        return l[0] if l else None
    # ---- types
    def ty_str(self, i, depth=0):
        if i is None: return "?"
        t = self.types[i]
        k = t["k"]
        if depth > 8: return "…"
        s = lambda j: self.ty_str(j, depth + 1)
        if k == "prim": return t["n"]
        if k == "never": return "!"
        if k == "adt":
            a = [s(x) if isinstance(x, int) else str(x) for x in t["a"]]
            return t["n"] + ("<" + ", ".join(a) + ">" if a else "")
        if k == "ref": return "&" + ("mut " if t["m"] else "") + s(t["t"])
        if k == "ptr": return "*" + s(t["t"])
        if k == "tuple": return "(" + ", ".join(s(x) for x in t["a"]) + ")"
        if k == "slice": return "[" + s(t["t"]) + "]"
        if k == "param": return t["n"]
        if k in ("closure", "coroutine"): return "{" + t["n"] + "}"
        if k == "fndef": return "fn " + t["n"]
        if k == "dyn": return "dyn " + t["n"]
        return t.get("s", k)
    def ty(self, i):
        return self.types[i]
    def has_param(self, i, depth=0):
        t = self.types[i]
        k = t["k"]
        if k == "param" or k == "alias": return True
        if depth > 10: return True
        if k in ("adt", "tuple", "fndef", "dyn", "closure"):
            return any(self.has_param(x, depth + 1) for x in t.get("a", []) if isinstance(x, int))
        if k in ("ref", "ptr", "slice"): return self.has_param(t["t"], depth + 1)
        return False
    def subst(self, tyi, env, depth=0):
        """structural rendering of a type with generic parameters replaced (string form)"""
        t = self.types[tyi]
        if t["k"] == "param": return env.get(t["n"], t["n"])
        return self.ty_str(tyi)
    def variant(self, adt, v):
        a = self.adts.get(adt)
        if not a or v >= len(a["v"]): return str(v)
        return a["v"][v]["n"]
    def variant_idx(self, adt, name):
        for i, v in enumerate(self.adts[adt]["v"]):
            if v["n"] == name: return i
        return None
    def discr_to_variant(self, adt, d):
        a = self.adts.get(adt)
        if not a: return None
        for i, v in enumerate(a["v"]):
            if int(v["d"]) == d: return i
        return None
    def field(self, adt, name, variant=0):
        fs = self.adts[adt]["v"][variant]["f"]
        return fs.index(name) if name in fs else None

def succs(t):
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "switch": return [x[1] for x in t[3]] + [t[4]]
    if k == "drop": return [x for x in (t[2], t[3]) if x is not None]
    if k == "call": return [x for x in (t[4], t[5]) if x is not None]
    if k == "assert": return [x for x in (t[3], t[4]) if x is not None]
    if k == "yield": return [t[1]]
    return []
