"""Program model on top of the facts written by the rustc driver (one JSON file per crate)."""
import json, os, re, collections, functools


SMART = ("::Box", "::Arc", "::Rc", "::Pin")


class Ty:
    __slots__ = ("s", "k", "d", "a", "tr", "mut", "_walk")

    def __init__(self, j):
        self.s = j["s"]
        self.k = j["k"]
        self.d = j.get("d")
        self.tr = j.get("tr", [])
        self.mut = j.get("mut", False)
        self.a = j["a"]
        self._walk = None

    def walk(self):
        """all types nested in this one (generic arguments, pointees, tuple members, captures)"""
        if self._walk is None:
            seen, out, st = set(), [], [self]
            while st:
                t = st.pop()
                if id(t) in seen:
                    continue
                seen.add(id(t))
                out.append(t)
                st.extend(t.a)
            self._walk = out
        return self._walk

    def is_adt(self, *names):
        return self.k == "adt" and any(self.d == n or self.d.endswith("::" + n) for n in names)

    def has_adt(self, *names):
        return any(t.is_adt(*names) for t in self.walk())

    def peel(self):
        """strip references, pointers and Box/Arc/Rc"""
        t = self
        while True:
            if t.k in ("ref", "ptr"):
                t = t.a[0]
            elif t.k == "adt" and t.d.endswith(SMART):
                t = t.a[0]
            else:
                return t

    def peel_refs(self):
        t = self
        while t.k in ("ref", "ptr"):
            t = t.a[0]
        return t

    def __repr__(self):
        return "Ty(%s)" % self.s


class Body:
    def __init__(self, prog, crate, j, tys):
        self.prog = prog
        self.crate = crate
        self.id = j["id"]
        self.name = j["name"]
        self.kind = j["kind"]
        self.file = j["file"]
        self.line = j["line"]
        self.parent = j.get("parent")
        self.argc = j["argc"]
        self.method = j.get("m")
        self.trait = j.get("trait")
        self.impl = j.get("impl")
        self.default = j.get("default", False)
        self.pub = j.get("pub", False)
        self.reach = j.get("reach", False)
        self.is_async = j.get("async", False)
        self.nomangle = j.get("nomangle", False)
        self.caps = j.get("caps", [])
        self.selfty = tys[j["selfty"]] if "selfty" in j else None
        self.dbg = j.get("dbg", [])
        self.tys = tys
        self.ltys = [tys[l[0]] for l in j["locals"]]
        self.lnames = [l[1] if len(l) > 1 else None for l in j["locals"]]
        self.bbs = j["bbs"]
        self._succ = None
        self._pred = None
        self._defs = None

    def __repr__(self):
        return "<%s>" % self.id

    # --- CFG
    def succ(self, b):
        t = self.bbs[b]["t"]
        return t.get("to", [])

    @property
    def preds(self):
        if self._pred is None:
            p = collections.defaultdict(list)
            for i in range(len(self.bbs)):
                for s in self.succ(i):
                    p[s].append(i)
            self._pred = p
        return self._pred

    def reachable(self, start=0, avoid=()):
        avoid = set(avoid)
        seen = set()
        st = [start] if start not in avoid else []
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            for s in self.succ(b):
                if s not in seen and s not in avoid:
                    st.append(s)
        return seen

    def live_blocks(self):
        return self.reachable(0)

    def calls(self):
        """(bb, terminator) of every call that is not in cleanup code"""
        for i, bb in enumerate(self.bbs):
            if bb["t"]["k"] == "call":
                yield i, bb["t"]

    def loops(self):
        """natural loops as {header: set(blocks)} (back edges found by DFS; irreducible edges ignored)"""
        if getattr(self, "_loops", None) is not None:
            return self._loops
        dom = self.dominators()
        loops = {}
        for b in self.live_blocks():
            for s in self.succ(b):
                if s in dom.get(b, ()):
                    body = {s, b}
                    st = [b]
                    while st:
                        x = st.pop()
                        if x == s:
                            continue
                        for p in self.preds[x]:
                            if p not in body and p in dom:
                                body.add(p)
                                st.append(p)
                    loops.setdefault(s, set()).update(body)
        self._loops = loops
        return loops

    def dominators(self):
        if getattr(self, "_dom", None) is not None:
            return self._dom
        live = self.live_blocks()
        order = []
        seen = set()

        def dfs(root):
            st = [(root, iter(self.succ(root)))]
            seen.add(root)
            while st:
                n, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succ(s))))
                        break
                else:
                    order.append(n)
                    st.pop()

        dfs(0)
        rpo = order[::-1]
        dom = {0: frozenset([0])}
        changed = True
        while changed:
            changed = False
            for n in rpo:
                if n == 0:
                    continue
                ps = [dom[p] for p in self.preds[n] if p in dom]
                if not ps:
                    continue
                d = frozenset.intersection(*ps) | {n}
                if dom.get(n) != d:
                    dom[n] = d
                    changed = True
        self._dom = dom
        return dom

    # --- definitions of locals (flow-insensitive)
    @property
    def defs(self):
        """local -> list of ('=',bb,stmt_idx,stmt) | ('call',bb,term) | ('yield',bb,term) for whole-local writes"""
        if self._defs is None:
            d = collections.defaultdict(list)
            for i, bb in enumerate(self.bbs):
                for k, s in enumerate(bb["s"]):
                    if s["k"] == "=" and len(s["p"]) == 1:
                        d[s["p"][0]].append(("=", i, k, s))
                t = bb["t"]
                if t["k"] == "call" and len(t["d"]) == 1:
                    d[t["d"][0]].append(("call", i, None, t))
                elif t["k"] == "yield" and len(t["d"]) == 1:
                    d[t["d"][0]].append(("yield", i, None, t))
            self._defs = d
        return self._defs

    def pretty(self):
        return self.name


def callee(t):
    """callee description of a call terminator, or None for calls through a pointer"""
    f = t["f"]
    return f.get("fn")


@functools.lru_cache(maxsize=None)
def plain(n):
    """path without generic arguments"""
    out, i = [], 0
    while i < len(n):
        if n.startswith("::<", i) and not n.startswith("::<impl", i):
            d = 0
            j = i + 2
            while j < len(n):
                if n[j] == "<":
                    d += 1
                elif n[j] == ">" and n[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(n[i])
        i += 1
    return "".join(out)


@functools.lru_cache(maxsize=None)
def short(n):
    """last two path segments without generic arguments, e.g. Vec::push, Iterator::next, fs::rename"""
    p = plain(n)
    d, seg, cur = 0, [], ""
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        if d == 0 and p.startswith("::", i):
            seg.append(cur)
            cur = ""
            i += 2
            continue
        cur += c
        i += 1
    seg.append(cur)
    return "::".join(seg[-2:])


def cname(t):
    f = callee(t)
    return f["n"] if f else ""


class Program:
    def __init__(self, facts_dir, crates=None):
        self.bodies = {}
        self.adts = {}
        self.traits = {}
        self.impls = []
        self.impls_by_trait = collections.defaultdict(list)
        self.crates = []
        for f in sorted(os.listdir(facts_dir)):
            if not f.endswith(".json"):
                continue
            name = f.split("-")[0]
            if crates is not None and name not in crates:
                continue
            with open(os.path.join(facts_dir, f)) as fh:
                self._load(json.load(fh))
        self.children = collections.defaultdict(list)
        for b in self.bodies.values():
            if b.kind in ("closure", "coroutine", "promoted"):
                self.children[b.parent].append(b.id)
        # trait method id -> {impl: body id}
        self.method_impls = collections.defaultdict(list)
        for im in self.impls:
            for it in im["items"]:
                if it["of"]:
                    self.method_impls[it["of"]].append((im, it["id"]))

    def _load(self, j):
        crate = j["crate"]
        self.crates.append(crate)
        tys = [Ty(t) for t in j["types"]]
        for t in tys:
            t.a = [tys[i] for i in t.a]
        for b in j["bodies"]:
            bd = Body(self, crate, b, tys)
            self.bodies[bd.id] = bd
        for a in j["adts"]:
            a["crate"] = crate
            for v in a["variants"]:
                v["f"] = [(n, tys[t], p) for n, t, p in v["f"]]
            self.adts[a["id"]] = a
        for t in j["traits"]:
            self.traits[t["id"]] = t
        for i in j["impls"]:
            i["selfty"] = tys[i["self"]]
            i["crate"] = crate
            self.impls.append(i)
            if "trait" in i:
                self.impls_by_trait[i["trait"]].append(i)

    # --- lookup
    def find(self, suffix, crate=None):
        """bodies whose name or id ends with the given path suffix"""
        r = []
        for b in self.bodies.values():
            if b.kind == "promoted":
                continue
            if (b.name.endswith(suffix) or b.id.endswith(suffix)) and (crate is None or b.crate == crate):
                r.append(b)
        return r

    def method(self, adt, name):
        """inherent or trait methods called `name` in impls whose self type is the ADT ending with `adt`"""
        r = []
        for b in self.bodies.values():
            if b.kind == "method" and b.method == name and b.selfty is not None and b.selfty.is_adt(adt):
                r.append(b)
        return r

    def impl_self_matches(self, im, st):
        """could a receiver of static type st be an instance of this impl's self type?"""
        it = im["selfty"]
        if it.k in ("param", "alias") or st is None:
            return True
        if st.k in ("param", "alias"):
            return True
        if st.k != it.k:
            return False
        if st.k == "adt":
            return st.d == it.d
        return True

    def targets(self, body, f, external_traits=False):
        """ids of workspace bodies a callee description may run"""
        if f is None:
            return []
        if "res" in f:
            return [f["res"]] if f["res"] in self.bodies else []
        if f.get("rk") == "ctor":
            return []
        if "tr" in f:
            st = body.tys[f["self"]]
            if f["tr"].startswith("core::ops::function::Fn"):
                p = st.peel()
                if p.k in ("closure", "fndef", "coroutine") and p.d in self.bodies:
                    return [p.d]
                return []
            if f["tr"] not in self.traits and not external_traits:
                return []
            r = []
            dynall = st.k == "dyn"
            over = set()
            for im, mid in self.method_impls.get(f["id"], []):
                if dynall or self.impl_self_matches(im, st):
                    r.append(mid)
                    over.add(im["id"])
            # default body for impls that do not override it
            if f["id"] in self.bodies:
                if any(im["id"] not in over and (dynall or self.impl_self_matches(im, st)) for im in self.impls_by_trait.get(f["tr"], [])) or not r:
                    r.append(f["id"])
            return [x for x in r if x in self.bodies]
        if f["id"] in self.bodies:
            return [f["id"]]
        return []

    def operand_fns(self, body, o):
        """function items / closures an operand may denote directly"""
        r = []
        if "fn" in o:
            r += self.targets(body, o["fn"])
        return r

    @functools.lru_cache(maxsize=None)
    def edges(self, bid, external_traits=False):
        """call-graph successors of a body: calls, closures created, function items mentioned"""
        b = self.bodies[bid]
        out = set()
        for bb in b.bbs:
            for s in bb["s"]:
                if s["k"] != "=":
                    continue
                r = s["r"]
                if r["k"] == "agg" and r["g"] in ("closure", "coroutine"):
                    if r["d"] in self.bodies:
                        out.add(r["d"])
                for o in r.get("o", []):
                    if "fn" in o:
                        out.update(self.targets(b, o["fn"], external_traits))
                    if "prom" in o and o["prom"] in self.bodies:
                        out.add(o["prom"])
            t = bb["t"]
            if t["k"] == "call":
                out.update(self.targets(b, callee(t), external_traits))
                for o in t["args"]:
                    if "fn" in o:
                        out.update(self.targets(b, o["fn"], external_traits))
                    if "prom" in o and o["prom"] in self.bodies:
                        out.add(o["prom"])
        return frozenset(out)

    def closure_of(self, roots, external_traits=False, stop=()):
        seen = set()
        st = list(roots)
        while st:
            x = st.pop()
            if x in seen or x not in self.bodies or x in stop:
                continue
            seen.add(x)
            st.extend(self.edges(x, external_traits))
        return seen

    @property
    def callers(self):
        if getattr(self, "_callers", None) is None:
            c = collections.defaultdict(set)
            for b in self.bodies:
                for t in self.edges(b):
                    c[t].add(b)
            self._callers = c
        return self._callers

    def root_fn(self, bid):
        """the function a closure/coroutine/promoted belongs to"""
        b = self.bodies[bid]
        while b.kind in ("closure", "coroutine", "promoted") and b.parent in self.bodies:
            b = self.bodies[b.parent]
        return b
