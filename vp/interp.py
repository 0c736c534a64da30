"""A disjunctive, variant-sensitive abstract interpreter over MIR control-flow graphs.

A state is (ast, env): `ast` is the client's automaton state, `env` maps locals to partially known
values (enum variants, booleans, string constants, closures, client symbols).  Knowing the variant
of Result/Option values keeps the success and the failure outcome of an operation apart, through
`?`, match, if let, combinators and helper functions (calls to workspace functions that can reach
an event are interpreted at the call site, with memoised summaries).  No path is handed to a
solver: infeasible combinations are only excluded by known variants and booleans.
"""
import functools
from .facts import callee, short, plain

MAXD = 5


def depth_cap(v, d=0):
    if v is None:
        return None
    if v[0] == "a":
        if d >= MAXD:
            return ("a", v[1], ())
        fs = []
        for n, x in v[2]:
            y = depth_cap(x, d + 1)
            if y is not None:
                fs.append((n, y))
        return ("a", v[1], tuple(fs))
    return v


def A(variant, *fields):
    fs = []
    for i, f in enumerate(fields):
        if isinstance(f, tuple) and len(f) == 2 and f[0] == "=":
            pass
        if f is not None:
            fs.append((str(i), f))
    return ("a", variant, tuple(fs))


def OK(v=None):
    return A("Ok", v)


def ERR(v=None):
    return A("Err", v)


def SOME(v=None):
    return A("Some", v)


NONE = ("a", "None", ())
UNIT = ("a", "()", ())
TRUE = ("i", 1)
FALSE = ("i", 0)


def fget(v, name):
    if v is None:
        return None
    if v[0] == "a":
        for n, x in v[2]:
            if n == name:
                return x
        return None
    return None


def variant(v):
    if v is not None and v[0] == "a":
        return v[1]
    return None


TRANSPARENT_OWNERS = (
    "alloc::boxed::Box",
    "core::ptr::unique::Unique",
    "core::ptr::non_null::NonNull",
    "core::pin::Pin",
    "core::mem::manually_drop::ManuallyDrop",
)

# calls that hand on (a view of / a copy of) their first argument, by last two path segments
IDENT = {
    "Clone::clone", "ToOwned::to_owned", "Into::into", "From::from", "AsRef::as_ref", "AsMut::as_mut", "Deref::deref",
    "DerefMut::deref_mut", "Borrow::borrow", "BorrowMut::borrow_mut", "IntoIterator::into_iter", "ToString::to_string",
    "IntoFuture::into_future", "hint::must_use", "convert::identity", "future::get_context",
    "Option::cloned", "Option::copied", "Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut", "Option::take",
    "Result::as_ref", "Result::as_mut", "Arc::new", "Rc::new", "Box::new", "Pin::new", "Pin::new_unchecked", "Pin::as_mut", "Box::pin",
    "Arc::clone", "PathBuf::as_path", "Path::to_path_buf", "Path::new", "String::as_str", "Path::as_os_str", "Path::into_inner",
    "Json::into_inner", "Query::into_inner", "PathBuf::into_boxed_path", "Path::into_path_buf", "Cow::into_owned",
}


class Client:
    """override what is needed"""

    def interesting(self, bid):
        return False

    def call(self, ip, body, bb, t, f, ast, args):
        """None: not an event; otherwise a list of (ast, return value)"""
        return None

    def branch(self, ip, body, bb, ast, sym, taken):
        """a branch on a client symbol ('x', ...); returns ast or None if infeasible"""
        return ast

    def drop(self, ip, body, bb, ast, val, ty):
        return ast

    def assign(self, ip, body, bb, stmt, ast, env):
        return ast

    def field(self, ip, body, base, name, owner):
        """value of a field of an unknown or symbolic base"""
        return None

    def opaque_fn_arg(self, ip, body, bb, t, ast, fnid, val):
        """a closure / function of interest handed to an opaque callee: 'once', 'maybe' or 'skip'"""
        return "maybe"

    def ret(self, ip, body, ast, val):
        return ast, val


class Interp:
    def __init__(self, prog, client, max_env=48, max_depth=40):
        self.prog = prog
        self.cl = client
        self.memo = {}
        self.stack = []
        self.max_env = max_env
        self.max_depth = max_depth
        self.stats = {"functions": set(), "blocks": 0, "states": 0, "calls": 0, "widened": 0}
        self._live = {}

    # --- liveness and address-taken locals
    def liveness(self, body):
        if body.id in self._live:
            return self._live[body.id]
        n = len(body.bbs)
        taken = set()
        use = [set() for _ in range(n)]
        kill = [set() for _ in range(n)]

        def rd(i, l):
            if l not in kill[i]:
                use[i].add(l)

        def rdplace(i, p):
            rd(i, p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "[]":
                    rd(i, e[1])

        def rdop(i, o):
            if "p" in o:
                rdplace(i, o["p"])

        for i, bb in enumerate(body.bbs):
            for s in bb["s"]:
                if s["k"] == "=":
                    r = s["r"]
                    for o in r.get("o", []):
                        rdop(i, o)
                    if "p" in r:
                        rdplace(i, r["p"])
                        if r["k"] == "ref":
                            taken.add(r["p"][0])
                        if r["k"] == "disc":
                            pass
                    if len(s["p"]) == 1:
                        kill[i].add(s["p"][0])
                    else:
                        rdplace(i, s["p"])
            t = bb["t"]
            k = t["k"]
            if k == "switch":
                rdop(i, t["o"])
            elif k == "call":
                rdop(i, t["f"])
                for a in t["args"]:
                    rdop(i, a)
                if len(t["d"]) == 1:
                    kill[i].add(t["d"][0])
                else:
                    rdplace(i, t["d"])
            elif k == "drop":
                rdplace(i, t["p"])
            elif k in ("assert", "yield"):
                rdop(i, t["o"])
            elif k == "return":
                rd(i, 0)
        livein = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in body.succ(i):
                    out |= livein[s]
                new = use[i] | (out - kill[i])
                if new != livein[i]:
                    livein[i] = new
                    changed = True
        self._live[body.id] = (livein, taken)
        return self._live[body.id]

    # --- environment helpers (env is a dict local -> value)
    def resolve(self, env, place):
        cur = (place[0], ())
        for e in place[1:]:
            if e == "*":
                v = self.readp(env, cur)
                if v is not None and v[0] == "r":
                    cur = (v[1], v[2])
            elif isinstance(e, list):
                if e[0] == ".":
                    if e[2] in TRANSPARENT_OWNERS:
                        v = self.readp(env, cur)
                        if v is not None and v[0] == "r":
                            cur = (v[1], v[2])
                        continue
                    v = self.readp(env, cur)
                    if v is not None and v[0] == "r":
                        cur = (v[1], v[2])
                    cur = (cur[0], cur[1] + (("f", e[1], e[2]),))
                elif e[0] == "@":
                    cur = (cur[0], cur[1] + (("v", e[1], ""),))
                else:
                    iv = self.readp(env, (e[1], ())) if e[0] == "[]" else None
                    cur = (cur[0], cur[1] + (("i", "", iv if iv is not None and iv[0] == "x" else ""),))
            else:
                cur = (cur[0], cur[1] + (("i", "", ""),))
        return cur

    def readp(self, env, cur, body=None):
        v = env.get(cur[0])
        for k, n, o in cur[1]:
            if v is not None and v[0] == "r":
                v = self.readp(env, (v[1], v[2]), body)
            if k == "v":
                if v is not None and v[0] == "a" and v[1] is not None and v[1] != n:
                    return None
                continue
            if k == "i":
                w = None
                if v is not None and v[0] == "x":
                    w = self.cl.field(self, body, v, "[]", o)
                v = w
                continue
            w = fget(v, n)
            if w is None:
                w = self.cl.field(self, body, v, n, o)
            v = w
        return v

    def deref(self, env, v):
        n = 0
        while v is not None and v[0] == "r" and n < 20:
            v = self.readp(env, (v[1], v[2]))
            n += 1
        return v

    def writep(self, env, cur, val):
        val = depth_cap(val)
        if not cur[1]:
            if val is None:
                env.pop(cur[0], None)
            else:
                env[cur[0]] = val
            return
        base = env.get(cur[0])
        nv = self._wr(base, cur[1], val)
        if nv is None:
            env.pop(cur[0], None)
        else:
            env[cur[0]] = depth_cap(nv)

    def _wr(self, base, proj, val):
        k, n, _o = proj[0]
        if k == "i":
            return None if base is None or base[0] != "x" else base
        if k == "v":
            if base is None or base[0] != "a":
                base = ("a", n, ())
            elif base[1] != n:
                base = ("a", n, ())
            if len(proj) == 1:
                return val if val is not None else base
            return self._wr(base, proj[1:], val)
        if base is not None and base[0] == "x":
            return base
        if base is None or base[0] != "a":
            base = ("a", None, ())
        old = fget(base, n)
        new = val if len(proj) == 1 else self._wr(old, proj[1:], val)
        fs = [(a, b) for a, b in base[2] if a != n]
        if new is not None:
            fs.append((n, new))
        fs.sort(key=lambda x: x[0])
        if not fs and base[1] is None:
            return None
        return ("a", base[1], tuple(fs))

    def snapshot(self, env, v, d=0):
        if v is None:
            return None
        if v[0] == "r":
            return self.snapshot(env, self.readp(env, (v[1], v[2])), d + 1) if d < 12 else None
        if v[0] == "a":
            fs = []
            for n, x in v[2]:
                y = self.snapshot(env, x, d + 1)
                if y is not None:
                    fs.append((n, y))
            return ("a", v[1], tuple(fs))
        if v[0] in ("d", "n", "is"):
            return None
        return v

    def operand(self, env, o, body):
        k = o["k"]
        if k in ("p", "m"):
            return self.readp(env, self.resolve(env, o["p"]), body)
        if k == "c":
            if "s" in o:
                return ("c", o["s"])
            if "b" in o:
                return ("c", o["b"])
            if "i" in o:
                return ("i", int(o["i"]))
            if "fn" in o:
                return ("fn", o["fn"].get("res") or o["fn"]["id"])
            if "prom" in o:
                return self.promoted(o["prom"])
            if "path" in o:
                w = self.cl.field(self, body, None, o["path"], "const")
                if w is not None:
                    return w
                return None
        return None

    def promoted(self, pid):
        key = ("prom", pid)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        b = self.prog.bodies.get(pid)
        if b is None or len(b.bbs) > 4:
            return None
        env = {}
        for i, bb in enumerate(b.bbs):
            for s in bb["s"]:
                if s["k"] == "=":
                    self.writep(env, self.resolve(env, s["p"]), self.rvalue(env, b, s["r"]))
            t = bb["t"]
            if t["k"] == "call" and not bb.get("cl"):
                # constant calls, only known to the client
                ev = self.cl.call(self, b, i, t, callee(t), frozenset(), [self.snapshot(env, self.operand(env, a, b)) for a in t["args"]])
                if ev and len(ev) == 1 and ev[0][1] is not None:
                    self.writep(env, self.resolve(env, t["d"]), ev[0][1])
        v = self.snapshot(env, env.get(0))
        self.memo[key] = v
        return v

    def rvalue(self, env, body, r):
        k = r["k"]
        if k in ("use", "cast"):
            v = self.operand(env, r["o"][0], body)
            if v is None and k == "cast" and "p" in r["o"][0]:
                # the raw pointer of a box stands for the (transparent) box itself
                pl = r["o"][0]["p"]
                if len(pl) > 1 and body.ltys[pl[0]].is_adt("alloc::boxed::Box"):
                    return ("r", pl[0], ())
            return v
        if k == "ref":
            cur = self.resolve(env, r["p"])
            if "*" in r["p"]:
                # reborrow through a pointer whose target is only known by value: hand on the value
                i = r["p"].index("*")
                pv = self.readp(env, self.resolve(env, r["p"][:i]))
                if pv is None or pv[0] != "r":
                    return self.readp(env, cur, body)
            return ("r", cur[0], cur[1])
        if k == "agg":
            g = r["g"]
            vals = [self.operand(env, o, body) for o in r["o"]]
            if g == "adt":
                names = r["f"]
                fs = [(n, v) for n, v in zip(names, vals) if v is not None]
                fs.sort(key=lambda x: x[0])
                return ("a", r["v"], tuple(fs))
            if g == "tuple":
                if not vals:
                    return UNIT
                return ("a", None, tuple((str(i), v) for i, v in enumerate(vals) if v is not None))
            if g in ("closure", "coroutine"):
                caps = self.prog.bodies[r["d"]].caps if r["d"] in self.prog.bodies else []
                fs = []
                for i, v in enumerate(vals):
                    n = "^%d:%s" % (i, caps[i]) if i < len(caps) else str(i)
                    if v is not None:
                        fs.append((n, v))
                fs.sort(key=lambda x: x[0])
                return ("a", "fn:" + r["d"], tuple(fs))
            if g == "array":
                # the number of elements is kept, as some of them might be unknown
                return ("a", "[]", (("#", ("i", len(vals))),) + tuple((str(i), v) for i, v in enumerate(vals) if v is not None)) if any(v is not None for v in vals) else ("a", "[]", ())
            return None
        if k == "disc":
            cur = self.resolve(env, r["p"])
            v = self.readp(env, cur, body)
            v = self.deref(env, v)
            return ("d", cur[0], cur[1], tuple(sorted(r.get("vs", {}).items())))
        if k == "un" and r["b"] == "Not":
            o = r["o"][0]
            v = self.operand(env, o, body)
            if v is not None and v[0] == "i":
                return ("i", 0 if v[1] else 1)
            if v is not None and v[0] == "x":
                return ("not", v)
            if v is not None and v[0] == "not":
                return v[1]
            if "p" in o:
                cur = self.resolve(env, o["p"])
                return ("n", cur[0], cur[1])
            return None
        if k == "bin":
            a = self.operand(env, r["o"][0], body)
            b = self.operand(env, r["o"][1], body)
            if a is not None and b is not None and a[0] == "i" and b[0] == "i":
                if r["b"] == "Eq":
                    return ("i", int(a[1] == b[1]))
                if r["b"] == "Ne":
                    return ("i", int(a[1] != b[1]))
                if r["b"] == "BitOr":
                    return ("i", a[1] | b[1])
                if r["b"] == "BitAnd":
                    return ("i", a[1] & b[1])
            w = getattr(self.cl, "binop", None)
            if w:
                return w(self, body, r["b"], self.snapshot(env, a), self.snapshot(env, b))
            return None
        return None

    # --- models of library calls; returns list of values, or None if not modelled
    def model(self, env, body, f, n, args):
        a0 = self.deref(env, args[0]) if args else None
        if n == "core::ops::try_trait::Try::branch":
            v = variant(a0)
            if v == "Ok" or v == "Some":
                return [A("Continue", fget(a0, "0"))]
            if v == "Err":
                return [A("Break", ERR(fget(a0, "0")))]
            if v == "None":
                return [A("Break", NONE)]
            st = body.tys[f["self"]] if "self" in f else None
            if st is not None and st.is_adt("core::result::Result"):
                return [A("Continue"), A("Break", ERR())]
            if st is not None and st.is_adt("core::option::Option"):
                return [A("Continue"), A("Break", NONE)]
            return [A("Continue"), A("Break")]
        if n == "core::ops::try_trait::FromResidual::from_residual":
            st = body.tys[f["self"]] if "self" in f else None
            if st is not None and st.is_adt("core::option::Option"):
                return [NONE]
            if a0 is not None and variant(a0) == "Err":
                return [ERR(fget(a0, "0"))]
            return [ERR()]
        if n == "core::ops::try_trait::Try::from_output":
            return [OK(args[0])]
        if n == "core::clone::Clone::clone" and a0 is not None and variant(a0) is not None and not a0[2] and "self" in f:
            st = body.tys[f["self"]]
            adt = self.prog.adts.get(st.d) if st.k == "adt" else None
            if adt is not None and not any(v["f"] for v in adt["variants"]):
                return [a0]
        if short(n) in IDENT:
            return [args[0]]
        if n.startswith("core::result::Result::<") or n.startswith("core::option::Option::<"):
            m = n.rsplit("::", 1)[1]
            v = variant(a0)
            p = fget(a0, "0")
            if m in ("unwrap", "expect", "unwrap_or_default", "unwrap_unchecked", "unwrap_or", "unwrap_or_else"):
                if v in ("Ok", "Some"):
                    return [p]
                if v in ("Err", "None") and m in ("unwrap", "expect"):
                    return []
                return [None]
            if m == "ok":
                if v == "Ok":
                    return [SOME(p)]
                if v == "Err":
                    return [NONE]
                return [None]
            if m == "err":
                if v == "Err":
                    return [SOME(p)]
                if v == "Ok":
                    return [NONE]
                return [None]
            if m in ("ok_or", "ok_or_else"):
                if v == "Some":
                    return [OK(p)]
                if v == "None":
                    return [ERR()]
                return [OK(), ERR()]
            if m in ("map_err", "inspect_err", "inspect", "or_else_"):
                if v == "Err":
                    return [ERR()] if m == "map_err" else [a0]
                if v in ("Ok", "Some", "None"):
                    return [a0]
                return [None]
            if m in ("is_ok", "is_some"):
                if v in ("Ok", "Some"):
                    return [TRUE]
                if v in ("Err", "None"):
                    return [FALSE]
                if args and args[0] is not None and args[0][0] == "r":
                    return [("is", args[0][1], args[0][2], "Ok" if m == "is_ok" else "Some", "Err" if m == "is_ok" else "None")]
                return [None]
            if m in ("is_err", "is_none"):
                if v in ("Ok", "Some"):
                    return [FALSE]
                if v in ("Err", "None"):
                    return [TRUE]
                if args and args[0] is not None and args[0][0] == "r":
                    return [("is", args[0][1], args[0][2], "Err" if m == "is_err" else "None", "Ok" if m == "is_err" else "Some")]
                return [None]
            if m == "transpose":
                q = variant(p)
                if v == "None":
                    return [OK(NONE)]
                if v == "Some" and q == "Ok":
                    return [OK(SOME(fget(p, "0")))]
                if v == "Some" and q == "Err":
                    return [ERR(fget(p, "0"))]
                if v == "Err":
                    return [SOME(a0)]
                if v == "Ok" and q == "None":
                    return [NONE]
                if v == "Ok" and q == "Some":
                    return [SOME(OK(fget(p, "0")))]
                return [None]
        if n.startswith("core::cmp::PartialEq") and len(args) == 2:
            a1 = self.deref(env, args[1])
            if a0 is not None and a1 is not None and a0[0] == "c" and a1[0] == "c":
                r = a0[1] == a1[1]
                if n.endswith("::ne"):
                    r = not r
                return [("i", int(r))]
        return None

    # --- running a body
    def freeze(self, body, bb, env, live, taken):
        items = []
        for l, v in env.items():
            if isinstance(l, str) or l in live or l in taken:
                items.append((l, v))
        items.sort(key=lambda x: str(x[0]))
        return tuple(items)

    def run(self, bid, args, ast):
        """set of (ast, return value, tuple of final values of &mut parameters)"""
        key = (bid, args, ast)
        if key in self.memo:
            return self.memo[key]
        if key in [k for k in self.stack] or sum(1 for k in self.stack if k[0] == bid) > 2 or len(self.stack) > self.max_depth:
            return None
        self.stack.append(key)
        try:
            r = self._run(bid, args, ast)
        finally:
            self.stack.pop()
        self.memo[key] = r
        return r

    def _run(self, bid, args, ast):
        body = self.prog.bodies[bid]
        self.stats["functions"].add(bid)
        livein, taken = self.liveness(body)
        env = {}
        muts = []
        for i in range(body.argc):
            v = args[i] if i < len(args) else None
            t = body.ltys[i + 1]
            if t.k == "ref":
                sl = "#%d" % (i + 1)
                if v is not None:
                    env[sl] = v
                env[i + 1] = ("r", sl, ())
                if t.mut:
                    muts.append(sl)
            elif v is not None:
                env[i + 1] = v
        out = set()
        visited = {}
        work = [(0, ast, self.freeze(body, 0, env, livein[0], taken))]
        while work:
            b, a, fe = work.pop()
            seen = visited.setdefault((b, a), set())
            if fe in seen:
                continue
            if ("W",) in seen:
                # widened: keep only the join
                continue
            if len(seen) >= self.max_env:
                # widen: continue with the values common to all environments
                common = dict(fe)
                for s in seen:
                    d = dict(s)
                    common = {k: v for k, v in common.items() if d.get(k) == v}
                fe = tuple(sorted(common.items(), key=lambda x: str(x[0])))
                seen.add(("W",))
                self.stats["widened"] += 1
            seen.add(fe)
            self.stats["states"] += 1
            for nb, na, ne, o in self.block(body, b, a, dict(fe), muts):
                if nb is None:
                    out.add(o)
                else:
                    work.append((nb, na, self.freeze(body, nb, ne, livein[nb], taken)))
        return frozenset(out)

    def block(self, body, b, ast, env, muts):
        bb = body.bbs[b]
        self.stats["blocks"] += 1
        for s in bb["s"]:
            k = s["k"]
            if k == "=":
                cur = self.resolve(env, s["p"])
                v = self.rvalue(env, body, s["r"])
                ast = self.cl.assign(self, body, b, s, ast, env)
                self.writep(env, cur, v)
            elif k == "dead":
                env.pop(s["p"][0], None)
            elif k == "sd":
                self.writep(env, self.resolve(env, s["p"]), None)
        t = bb["t"]
        k = t["k"]
        if k == "goto":
            return [(t["to"][0], ast, env, None)]
        if k in ("assert",):
            return [(t["to"][0], ast, env, None)]
        if k == "yield":
            self.writep(env, self.resolve(env, t["d"]), None)
            return [(t["to"][0], ast, env, None)]
        if k == "drop":
            v = self.readp(env, self.resolve(env, t["p"]), body)
            ast = self.cl.drop(self, body, b, ast, self.snapshot(env, v), None)
            if len(t["p"]) == 1:
                env.pop(t["p"][0], None)
            return [(t["to"][0], ast, env, None)]
        if k == "return":
            v = self.snapshot(env, env.get(0))
            ast, v = self.cl.ret(self, body, ast, v)
            mv = tuple(self.snapshot(env, env.get(m)) for m in muts)
            return [(None, None, None, (ast, v, mv))]
        if k == "switch":
            return self.switch(body, b, t, ast, env)
        if k == "call":
            return self.call(body, b, t, ast, env)
        return []

    def switch(self, body, b, t, ast, env):
        o = t["o"]
        v = self.operand(env, o, body)
        vals = [int(x) for x in t["v"]]
        tos = t["to"]
        res = []

        def edge(i, e, a):
            if a is not None:
                res.append((tos[i], a, e, None))

        neg = False
        while v is not None and v[0] == "not":
            neg = not neg
            v = v[1]
        if v is not None and v[0] == "i":
            n = v[1]
            if neg:
                n = 0 if n else 1
            i = vals.index(n) if n in vals else len(tos) - 1
            edge(i, env, ast)
            return res
        if v is not None and v[0] == "x":
            for i in range(len(tos)):
                if i < len(vals):
                    tv = vals[i]
                elif len(vals) == 1 and vals[0] in (0, 1):
                    tv = 1 - vals[0]
                else:
                    tv = None
                if neg and tv is not None:
                    tv = 1 - tv
                edge(i, dict(env), self.cl.branch(self, body, b, ast, v, tv))
            return res
        if v is not None and v[0] == "d":
            cur = (v[1], v[2])
            vs = dict(v[3])
            cv = self.deref(env, self.readp(env, cur, body))
            if cv is not None and cv[0] == "r":
                cv = None
            known = variant(cv)
            inv = {n: int(d) for d, n in vs.items()}
            if known is not None and known in inv:
                n = inv[known]
                i = vals.index(n) if n in vals else len(tos) - 1
                edge(i, env, ast)
                return res
            # resolve references so that the refinement hits the referenced place
            base = self.readp(env, cur, body)
            while base is not None and base[0] == "r":
                cur = (base[1], base[2])
                base = self.readp(env, cur, body)
            for i in range(len(tos)):
                e = dict(env)
                if i < len(vals):
                    name = vs.get(str(vals[i]))
                    names = [name] if name else []
                else:
                    names = [n for d, n in vs.items() if int(d) not in vals]
                    if not names and vs:
                        continue
                a = ast
                if base is not None and base[0] == "x":
                    a = self.cl.branch(self, body, b, ast, base, names[0] if len(names) == 1 else tuple(names))
                    p = self.cl.field(self, body, base, "@" + names[0], "") if len(names) == 1 else None
                    if p is not None:
                        self.writep(e, cur, p)
                elif len(names) == 1:
                    if base is None or (base[0] == "a" and base[1] is None):
                        self.writep(e, cur, ("a", names[0], base[2] if base else ()))
                edge(i, e, a)
            return res
        if v is not None and v[0] in ("is", "n"):
            for i in range(len(tos)):
                e = dict(env)
                if i < len(vals):
                    tv = vals[i]
                elif len(vals) == 1:
                    tv = 1 - vals[0] if vals[0] in (0, 1) else None
                else:
                    tv = None
                a = ast
                if tv is not None:
                    tr = bool(tv) != neg
                    if v[0] == "is":
                        cur = (v[1], v[2])
                        base = self.readp(e, cur, body)
                        while base is not None and base[0] == "r":
                            cur = (base[1], base[2])
                            base = self.readp(e, cur, body)
                        if base is None:
                            self.writep(e, cur, ("a", v[3] if tr else v[4], ()))
                        elif base[0] == "x":
                            a = self.cl.branch(self, body, b, ast, base, v[3] if tr else v[4])
                    else:
                        self.writep(e, (v[1], v[2]), ("i", 0 if tr else 1))
                edge(i, e, a)
            return res
        for i in range(len(tos)):
            e = dict(env)
            if "p" in o:
                if i < len(vals):
                    self.writep(e, self.resolve(e, o["p"]), ("i", vals[i]))
                elif len(vals) == 1 and vals[0] in (0, 1) and body.ltys[o["p"][0]].s == "bool":
                    self.writep(e, self.resolve(e, o["p"]), ("i", 1 - vals[0]))
            edge(i, e, ast)
        return res

    def call(self, body, b, t, ast, env):
        f = callee(t)
        self.stats["calls"] += 1
        args = [self.operand(env, a, body) for a in t["args"]]
        fv = None
        if f is None:
            fv = self.deref(env, self.operand(env, t["f"], body))
        nxt = t["to"][0] if t["to"] else None
        dcur = self.resolve(env, t["d"])
        res = []

        def done(e, a, v):
            if nxt is None:
                return
            self.writep(e, dcur, v)
            res.append((nxt, a, e, None))

        snap = [self.snapshot(env, a) for a in args]
        ev = self.cl.call(self, body, b, t, f, ast, snap)
        if ev is not None:
            for x in ev:
                a, v = x[0], x[1]
                e = dict(env)
                self.kill_mut(body, e, t, args, keep=(len(x) > 2 and x[2] == "keep"))
                if len(x) > 2 and isinstance(x[2], dict):
                    for i, nv in x[2].items():
                        if args[i] is not None and args[i][0] == "r":
                            self.writep(e, (args[i][1], args[i][2]), nv)
                done(e, a, v)
            return res
        n = f["n"] if f else ""
        # polling a future that is a known coroutine
        if n == "core::future::future::Future::poll" and snap and snap[0] is not None and variant(snap[0]) and variant(snap[0]).startswith("fn:"):
            cid = variant(snap[0])[3:]
            if cid in self.prog.bodies:
                if self.cl.interesting(cid):
                    outs = self.run(cid, (snap[0],), ast)
                    if outs is not None:
                        for a, v, _m in outs:
                            done(dict(env), a, A("Ready", v))
                        return res
                done(dict(env), ast, A("Ready"))
                return res
        if n == "core::iter::traits::iterator::Iterator::next" and snap and variant(snap[0]) == "[]" and fget(snap[0], "#") is not None and args[0] is not None and args[0][0] == "r":
            # stepping an iterator over an array literal
            ln = fget(snap[0], "#")[1]
            pos = fget(snap[0], "pos")
            pos = pos[1] if pos is not None else 0
            e = dict(env)
            if pos < ln:
                fs = tuple(sorted([x for x in snap[0][2] if x[0] != "pos"] + [("pos", ("i", pos + 1))]))
                self.writep(e, (args[0][1], args[0][2]), ("a", "[]", fs))
                done(e, ast, SOME(fget(snap[0], str(pos))))
            else:
                done(e, ast, NONE)
            return res
        it = self.iterator(body, b, t, f, ast, n, snap) if f else None
        if it is not None:
            for a, v in it:
                done(dict(env), a, v)
            return res
        cb = self.combinator(body, b, t, ast, env, n, snap, args) if f else None
        if cb is not None:
            for a, v in cb:
                e = dict(env)
                self.kill_mut(body, e, t, args)
                done(e, a, v)
            return res
        mv = self.model(env, body, f, n, args) if f else None
        if mv is not None:
            for v in mv:
                e = dict(env)
                done(e, ast, v)
            return res
        # calls of closures
        targets = []
        cargs = None
        if f is not None and f.get("tr", "").startswith("core::ops::function::Fn") and snap and snap[0] is not None:
            v = snap[0]
            if v[0] == "fn":
                targets = [v[1]]
            elif variant(v) and variant(v).startswith("fn:"):
                targets = [variant(v)[3:]]
            if targets and targets[0] in self.prog.bodies:
                tb = self.prog.bodies[targets[0]]
                tup = snap[1] if len(snap) > 1 else None
                extra = [fget(tup, str(i)) for i in range(max(0, tb.argc - (1 if tb.kind == "closure" else 0)))]
                cargs = ([v] if tb.kind == "closure" else []) + extra
        if fv is not None and fv[0] == "fn":
            targets = [fv[1]]
            cargs = snap
        if not targets and f is not None:
            targets = self.prog.targets(body, f)
            if targets and f.get("tr", "").startswith("core::ops::function::Fn"):
                tb = self.prog.bodies[targets[0]]
                tup = snap[1] if len(snap) > 1 else None
                extra = [fget(tup, str(i)) for i in range(max(0, tb.argc - (1 if tb.kind == "closure" else 0)))]
                cargs = ([snap[0]] if tb.kind == "closure" else []) + extra
            else:
                cargs = snap
        targets = [x for x in targets if x in self.prog.bodies]
        hot = [x for x in targets if self.cl.interesting(x)]
        if hot:
            for x in hot:
                tb = self.prog.bodies[x]
                outs = self.run(x, tuple((cargs + [None] * tb.argc)[: tb.argc]), ast)
                if outs is None:
                    e = dict(env)
                    self.kill_mut(body, e, t, args)
                    done(e, ast, None)
                    continue
                for a, v, muts in outs:
                    e = dict(env)
                    mi = 0
                    for i in range(tb.argc):
                        ty = tb.ltys[i + 1]
                        if ty.k == "ref" and ty.mut:
                            nv = muts[mi] if mi < len(muts) else None
                            mi += 1
                            if cargs is snap and i < len(args) and args[i] is not None and args[i][0] == "r":
                                self.writep(e, (args[i][1], args[i][2]), nv)
                    done(e, a, v)
            if len(hot) < len(targets):
                e = dict(env)
                self.kill_mut(body, e, t, args)
                done(e, ast, None)
            return res
        # pure small helpers: constructor-like async fns just build the coroutine value
        if len(targets) == 1 and self.prog.bodies[targets[0]].is_async:
            outs = self.run(targets[0], tuple(snap), ast)
            if outs is not None:
                for a, v, _m in outs:
                    done(dict(env), a, v)
                return res
        # opaque call: closures and functions of interest may run inside it
        cur = {(ast, None)}
        asts = {ast}
        for i, sv in enumerate(snap):
            ids = []
            if sv is not None:
                if sv[0] == "fn":
                    ids = [sv[1]]
                elif variant(sv) and variant(sv).startswith("fn:"):
                    ids = [variant(sv)[3:]]
            for fid in ids:
                if fid in self.prog.bodies and self.cl.interesting(fid):
                    how = self.cl.opaque_fn_arg(self, body, b, t, ast, fid, sv)
                    if how == "skip":
                        continue
                    tb = self.prog.bodies[fid]
                    na = set() if how == "once" else set(asts)
                    for a in asts:
                        outs = self.run(fid, tuple(([sv] + [None] * tb.argc)[: tb.argc]) if tb.kind == "closure" else (None,) * tb.argc, a)
                        if outs is None:
                            na.add(a)
                        else:
                            for a2, _v, _m in outs:
                                na.add(a2)
                    asts = na
        for a in asts:
            e = dict(env)
            self.kill_mut(body, e, t, args)
            done(e, a, None)
        return res

    def run_closure(self, v, cargs, ast):
        """outcomes (ast, value) of calling a closure or function value; (ast, None) when unknown"""
        fid = None
        if v is not None:
            if v[0] == "fn":
                fid = v[1]
            elif variant(v) and variant(v).startswith("fn:"):
                fid = variant(v)[3:]
        if fid is None or fid not in self.prog.bodies:
            lf = getattr(self.cl, "libfn", None)
            return [(ast, lf(fid, cargs) if lf and fid is not None else None)]
        tb = self.prog.bodies[fid]
        full = ([v] if tb.kind == "closure" else []) + list(cargs)
        outs = self.run(fid, tuple((full + [None] * tb.argc)[: tb.argc]), ast)
        if outs is None:
            return [(ast, None)]
        return [(a, r) for a, r, _m in outs]

    ADAPT = {"map", "filter", "filter_map"}

    def iterator(self, body, b, t, f, ast, n, snap):
        """map / filter / filter_map over an iterator the client knows (a symbol), and stepping it"""
        if not n.startswith("core::iter::traits::iterator::Iterator::") or not snap or snap[0] is None:
            return None
        m = n.rsplit("::", 1)[1]
        if m in self.ADAPT and len(snap) == 2 and (snap[0][0] == "x" or (variant(snap[0]) or "").startswith("iter:")):
            if snap[1] is None:
                return None
            return [(ast, ("a", "iter:" + m, (("0", snap[0]), ("1", snap[1]))))]
        if m == "next" and (variant(snap[0]) or "").startswith("iter:"):
            return self.step(body, b, t, f, ast, snap[0])
        return None

    def step(self, body, b, t, f, ast, it):
        if it is not None and it[0] == "x":
            r = self.cl.call(self, body, b, t, f, ast, [it])
            return [(x[0], x[1]) for x in r] if r is not None else [(ast, SOME()), (ast, NONE)]
        v = variant(it)
        if v is None or not v.startswith("iter:"):
            return [(ast, SOME()), (ast, NONE)]
        kind, base, cl = v[5:], fget(it, "0"), fget(it, "1")
        out, seen, work = [], set(), [ast]
        while work:
            a0 = work.pop()
            if a0 in seen:
                continue
            seen.add(a0)
            for a, el in self.step(body, b, t, f, a0, base):
                if variant(el) == "None":
                    out.append((a, NONE))
                    continue
                p = fget(el, "0")
                for a2, r in self.run_closure(cl, [p], a):
                    if kind == "map":
                        out.append((a2, SOME(r)))
                    elif kind == "filter_map":
                        if variant(r) != "None":
                            out.append((a2, SOME(fget(r, "0"))))
                        if variant(r) != "Some":
                            work.append(a2)
                    else:
                        ay, an = self.truth(body, b, a2, r)
                        if ay is not None:
                            out.append((ay, SOME(p)))
                        if an is not None:
                            work.append(an)
        return list(dict.fromkeys(out))

    def truth(self, body, b, ast, r):
        """client states in which a boolean value is true / false (None: impossible)"""
        neg = False
        while r is not None and r[0] == "not":
            neg, r = not neg, r[1]
        if r is not None and r[0] == "i":
            v = bool(r[1]) != neg
            return (ast, None) if v else (None, ast)
        if r is not None and r[0] == "x":
            return self.cl.branch(self, body, b, ast, r, 0 if neg else 1), self.cl.branch(self, body, b, ast, r, 1 if neg else 0)
        return ast, ast

    COMB = {"map", "and_then", "or_else", "map_or", "map_or_else", "unwrap_or_else", "map_err", "ok_or_else", "is_some_and",
            "is_none_or", "is_ok_and", "is_err_and", "filter", "inspect", "inspect_err", "then"}

    def combinator(self, body, b, t, ast, env, n, snap, args):
        sh = short(n)
        own, _, m = sh.rpartition("::")
        if own.endswith("bool>") or own == "bool":
            if m == "then" and snap[0] is not None and snap[0][0] == "i":
                if snap[0][1] == 0:
                    return [(ast, NONE)]
                return [(a, SOME(r)) for a, r in self.run_closure(snap[1], [], ast)]
            return None
        if own not in ("Option", "Result") or m not in self.COMB:
            return None
        isopt = own == "Option"
        good, bad = ("Some", "None") if isopt else ("Ok", "Err")
        v = variant(snap[0])
        out = []
        cl = snap[-1]
        for vv in ([v] if v in (good, bad) else [good, bad]):
            p = fget(snap[0], "0") if v == vv else None
            if snap[0] is not None and snap[0][0] == "x":
                a0 = self.cl.branch(self, body, b, ast, snap[0], vv)
                if a0 is None:
                    continue
                p = self.cl.field(self, body, snap[0], "0", "")
            else:
                a0 = ast
            if vv == good:
                if m == "map":
                    out += [(a, A(good, r)) for a, r in self.run_closure(cl, [p], a0)]
                elif m == "and_then":
                    out += self.run_closure(cl, [p], a0)
                elif m in ("or_else", "map_err", "inspect_err"):
                    out.append((a0, A(good, p)))
                elif m in ("map_or", "map_or_else", "is_some_and", "is_none_or", "is_ok_and"):
                    out += self.run_closure(cl, [p], a0)
                elif m == "unwrap_or_else":
                    out.append((a0, p))
                elif m == "ok_or_else":
                    out.append((a0, OK(p)))
                elif m == "is_err_and":
                    out.append((a0, FALSE))
                elif m == "filter":
                    for a, r in self.run_closure(cl, [p], a0):
                        if r != FALSE:
                            out.append((a, SOME(p)))
                        if r != TRUE:
                            out.append((a, NONE))
                elif m == "inspect":
                    out += [(a, A(good, p)) for a, _r in self.run_closure(cl, [p], a0)]
                else:
                    return None
            else:
                if m in ("map", "and_then", "inspect"):
                    out.append((a0, NONE if isopt else ERR(p)))
                elif m == "or_else":
                    out += self.run_closure(cl, [] if isopt else [p], a0)
                elif m == "map_err":
                    out += [(a, ERR(r)) for a, r in self.run_closure(cl, [p], a0)]
                elif m == "inspect_err":
                    out += [(a, ERR(p)) for a, _r in self.run_closure(cl, [p], a0)]
                elif m == "map_or":
                    out.append((a0, snap[1]))
                elif m == "map_or_else":
                    out += self.run_closure(snap[1], [] if isopt else [p], a0)
                elif m in ("is_some_and", "is_ok_and"):
                    out.append((a0, FALSE))
                elif m == "is_none_or":
                    out.append((a0, TRUE))
                elif m == "is_err_and":
                    out += self.run_closure(cl, [p], a0)
                elif m == "unwrap_or_else":
                    out += self.run_closure(cl, [] if isopt else [p], a0)
                elif m == "ok_or_else":
                    out += [(a, ERR(r)) for a, r in self.run_closure(cl, [], a0)]
                elif m == "filter":
                    out.append((a0, NONE))
                else:
                    return None
        return list(dict.fromkeys(out))

    def kill_mut(self, body, env, t, args, keep=False):
        """forget what a &mut argument points to"""
        if keep:
            return
        for o, v in zip(t["args"], args):
            if v is None:
                continue
            if v[0] == "a" and v[1] is not None and v[1].startswith("fn:") and "p" in o and len(o["p"]) == 1:
                ct = body.ltys[o["p"][0]].peel_refs()
                caps = {n: x for n, x in v[2]}
                for n, x in caps.items():
                    if x is not None and x[0] == "r" and n.startswith("^"):
                        i = int(n[1:].split(":")[0])
                        ty = ct.a[i] if ct.k in ("closure", "coroutine") and i < len(ct.a) else None
                        if ty is not None and ty.k == "ref" and not ty.mut:
                            continue
                        cv = self.readp(env, (x[1], x[2]))
                        if cv is not None and (cv[0] == "x" or (cv[0] == "a" and self.has_sym(cv))):
                            continue
                        self.writep(env, (x[1], x[2]), None)
                continue
            if v[0] == "r":
                ty = None
                if "p" in o and len(o["p"]) == 1:
                    ty = body.ltys[o["p"][0]]
                if ty is not None and ty.k == "ref" and not ty.mut:
                    continue
                cv = self.readp(env, (v[1], v[2]))
                if cv is not None and (cv[0] == "x" or (cv[0] == "a" and self.has_sym(cv))):
                    continue
                self.writep(env, (v[1], v[2]), None)

    def has_sym(self, v):
        if v is None:
            return False
        if v[0] == "x":
            return True
        if v[0] == "a":
            return any(self.has_sym(x) for _n, x in v[2])
        return False


def reach_back(prog, roots):
    """bodies from which some body in roots can be reached through the call graph"""
    seen = set()
    st = list(roots)
    callers = prog.callers
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(callers.get(x, ()))
    return seen
