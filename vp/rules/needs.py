"""C26: the components an operator or node search announces include all components it looks up.

Component descriptors (type, layer, name) are tracked symbolically: `necessary_components` is interpreted once for every
combination of the optional and boolean parameters of the operator and yields the announced descriptors of each path,
`create_operator` (and everything the created operator runs on the corpus) yields the looked-up descriptors."""
import itertools
from ..facts import short, plain
from ..interp import Client, Interp, OK, ERR, SOME, NONE, TRUE, FALSE, fget, variant, reach_back
from ..report import loc

CRATE = "graphannis"
LOOKUP = ("get_graphstorage", "get_graphstorage_as_ref")
PASS = {"iter", "into_iter", "cloned", "copied", "collect", "from_iter", "from", "into", "to_vec", "into_vec", "into_boxed_slice", "by_ref", "fuse", "rev", "iter_mut", "drain", "as_slice", "clone", "deref", "collect_vec", "sorted",
        "unique", "dedup", "peekable", "enumerate_", "box_assume_init_into_vec_unsafe", "exchange_malloc", "assume_init", "write"}
OPTRAITS = ("operator::BinaryOperatorBase", "operator::BinaryOperatorIndex", "operator::UnaryOperator", "operator::BinaryOperatorSpec", "operator::UnaryOperatorSpec")
EMPTY = {"new", "default", "with_capacity"}


def sset(ds):
    return ("x", "set", frozenset(ds))


def is_coll(t):
    t = t.peel()
    return (t.k == "adt" and t.d.rsplit("::", 1)[1] in ("HashSet", "BTreeSet", "Vec", "VecDeque", "LinkedList", "IndexSet")) or t.k in ("slice", "array")


def has_comp(t):
    return any(x.k == "adt" and x.d.endswith("types::Component") for x in t.walk())


def text(v):
    """layer or name of a component as a comparable text"""
    if v is None:
        return "?"
    if v[0] == "c":
        return '"%s"' % v[1]
    if v[0] == "x" and v[1] == "f":
        return "$" + v[2]
    return "?"


def members(v):
    """descriptors a value stands for, or None"""
    if v is None:
        return None
    if v[0] == "x" and v[1] == "set":
        return v[2]
    if v[0] == "x" and v[1] == "comp":
        return frozenset([v[2]])
    if v[0] == "x" and v[1] == "of":
        return frozenset([("of", v[2])])
    if v[0] == "a" and v[1] in ("[]", "Some", "Ok", None):
        r = frozenset()
        for n, x in v[2]:
            if n in ("#", "pos"):
                continue
            m = members(x)
            if m is None:
                return None
            r |= m
        return r
    return None


def covers(n, u):
    """does the announced descriptor n include the looked-up descriptor u?"""
    if n == u:
        return True
    if len(n) != 3 or len(u) != 3:
        return False
    if n[0] not in (u[0], "*"):
        return False
    for a, b in zip(n[1:], u[1:]):
        if a != "*" and a != b and not (a == "?" or b == "?"):
            return False
    return True


class Needs(Client):
    def __init__(self, prog, hot, stop=()):
        self.prog = prog
        self.hot = hot
        self.stop = stop
        self.used = {}
        self.built = {}
        self.operators = set()
        self.case = {}
        self.owner = None
        self.owned = {}
        self.callers_mode = False
        self.bad = []
        self.checked = 0
        self.statics = {}

    def interesting(self, bid):
        return bid in self.hot and bid not in self.stop

    # --- parameters of the operator
    def field(self, ip, body, base, name, owner):
        if owner == "const":
            return None
        if base is not None and base[0] == "x":
            if base[1] == "self":
                if name in self.case:
                    return self.case[name]
                if name in self.owned:
                    return self.owned[name]
                return ("x", "f", name)
            if base[1] == "of":
                return base
            if base[1] == "f":
                return ("x", "f", base[2] + "." + name)
            if base[1] == "comp" or base[1] == "set":
                return base if name in ("[]", "0") or name.startswith("@") else None
        return None

    def branch(self, ip, body, bb, ast, sym, taken):
        if sym[1] == "self" and isinstance(taken, str):
            return ast
        return ast

    def static(self, ip, bids):
        for x in bids:
            if x not in self.statics:
                self.statics[x] = None
                outs = ip.run(x, (None,) * self.prog.bodies[x].argc, frozenset())
                vals = {v for _a, v, _m in outs or () if members(v) is not None}
                if len(vals) == 1:
                    self.statics[x] = vals.pop()
            if self.statics[x] is not None:
                return self.statics[x]
        return None

    def use(self, body, t, ast, d, line):
        self.used.setdefault(d, loc(body, line))
        if self.callers_mode and d[0] != "?":
            self.checked += 1
            if ("prep",) in ast and not any(x[0] in ("have", "vac") and covers(x[1], d) for x in ast if len(x) == 2):
                self.bad.append((body, line, d))

    def assign(self, ip, body, bb, stmt, ast, env):
        r = stmt["r"]
        if r["k"] == "agg" and r.get("g") == "adt":
            p = stmt["p"]
            t = body.ltys[p[0]]
            if len(p) == 1 and t.k == "adt" and t.d in self.operators:
                v = ip.snapshot(env, ip.rvalue(env, body, r))
                fs = self.built.setdefault(t.d, {})
                for n, x in v[2] if v is not None and v[0] == "a" else ():
                    if x[0] == "x" and x[1] == "of":
                        fs[n] = x
        return ast

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return None
        n = f.get("n", "")
        m = plain(n).rsplit("::", 1)[-1]
        line = t.get("l")
        dty = body.ltys[t["d"][0]]
        a0 = args[0] if args else None
        if short(n) == "Component::new" and len(args) == 3:
            ct = variant(args[0]) or text(args[0])
            return [(ast, ("x", "comp", (ct, text(args[1]), text(args[2]))))]
        if m == "get_all_components" and len(args) == 3:
            ct, name = args[1], args[2]
            c = "*" if variant(ct) == "None" else (variant(fget(ct, "0")) if variant(ct) == "Some" else text(ct)) or "?"
            nm = "*" if variant(name) == "None" else text(fget(name, "0") if variant(name) == "Some" else name)
            return [(ast, sset([(c, "*", nm)]))]
        if m in LOOKUP and len(args) == 2:
            ds = members(args[1])
            for d in ds if ds is not None else [("?", "?", "?")]:
                self.use(body, t, ast, d, line)
            return [(ast, SOME(("x", "gs"))), (ast, NONE)]
        if m in ("default", "new") and not args and dty.is_adt("alloc::string::String", "String"):
            return [(ast, ("c", ""))]
        if m in ("unwrap_or_default", "map_or_else", "map_or", "unwrap_or", "map_or_default") and variant(a0) == "None" and dty.is_adt("String"):
            return [(ast, args[1] if m in ("map_or", "unwrap_or") else ("c", ""))]
        if m in ("unwrap_or_default", "unwrap_or", "unwrap_or_else") and variant(a0) == "Some":
            return [(ast, fget(a0, "0"))]
        if m in ("eq", "ne") and len(args) == 2 and variant(args[0]) and variant(args[1]) and not args[0][2] and not args[1][2]:
            r = (variant(args[0]) == variant(args[1])) == (m == "eq")
            return [(ast, TRUE if r else FALSE)]
        # --- statics
        if m == "deref" and "res" in f and f["res"] in self.prog.bodies and f.get("tr", "").endswith("ops::deref::Deref") and has_comp(dty):
            v = self.static(ip, sorted(x for x in self.prog.closure_of([f["res"]]) if self.makes(x)))
            if v is not None:
                return [(ast, v)]
        if m in ("deref", "force", "clone") and has_comp(dty) and members(a0) is None and t["args"]:
            s = self.static_operand(body, t["args"][0])
            if s is not None:
                v = self.static(ip, sorted(x for x in self.prog.bodies if x.startswith(s + "::") and self.makes(x)))
                if v is not None:
                    return [(ast, v)]
        # --- what wrapped operators and node searches announce
        if f.get("tr", "").endswith(OPTRAITS) and f.get("res") not in self.prog.bodies and not (m == "necessary_components" or a0 is not None and a0[0] == "x" and a0[1] == "of"):
            # dynamically dispatched method of a created operator: every created operator is examined itself
            return [(ast, OK()), (ast, ERR())] if dty.is_adt("Result") else [(ast, None)]
        if m == "necessary_components" and (a0 is not None and a0[0] == "x" and a0[1] in ("of", "set")):
            return [(ast, sset(members(a0)))]
        if m in ("create_operator", "from_spec", "get_value_filter") and a0 is not None and a0[0] == "x" and a0[1] == "of":
            self.use(body, t, ast, ("of", a0[2]), line)
            return [(ast, OK()), (ast, ERR())] if dty.is_adt("Result") else [(ast, None)]
        if m in ("add_node", "add_operator", "add_unary_operator", "add_node_from_query", "add_operator_from_query", "add_unary_operator_from_query") and len(args) > 1:
            own = frozenset(x for v in args[1:] for x in (members(v) or ()) if x[0] == "of")
            base = members(a0) or frozenset()
            res = [(ast, OK() if dty.is_adt("Result") else None, {0: sset(base | own)})]
            if dty.is_adt("Result"):
                res.append((ast | {("failed",)}, ERR()))
            return res
        # --- collections of components
        if self.callers_mode and m == "prepare_query":
            cl = args[-1]
            res = [(ast, ERR())]
            for a, v in ip.run_closure(cl, [None], ast):
                ds = members(v)
                res.append((a | {("prep",)} | {("have", d) for d in ds or ()}, OK()))
            return res
        if (is_coll(dty) and has_comp(dty) or dty.is_adt("Conjunction")) and m in EMPTY and not any(members(a) for a in args):
            return [(ast, sset([]))]
        if (is_coll(dty) or "teration" in n or "iter::" in n) and a0 is None and m in ("empty",) and has_comp(dty):
            return [(ast, sset([]))]
        if m in ("insert", "push", "extend", "push_back", "append", "extend_from_slice", "chain", "union", "replace") and len(args) == 2 and members(a0) is not None and (a0[0] == "x" and a0[1] in ("set", "of")):
            add = members(args[1])
            if add is None:
                add = frozenset()
            if m in ("chain", "union"):
                return [(ast, sset(members(a0) | add))]
            return [(ast, None, {0: sset(members(a0) | add)})]
        if m in ("remove", "retain", "clear", "truncate", "pop", "take", "filter", "skip", "difference", "intersection", "take_while") and a0 is not None and a0[0] == "x" and a0[1] == "set" and dty.k != "x":
            if m in ("filter", "skip", "difference", "intersection", "take", "take_while"):
                return [(ast, sset([]))]
            return [(ast, None, {0: sset([])})]
        if m in ("next", "pop_front") and a0 is not None and a0[0] == "x" and a0[1] in ("set", "of"):
            ds = members(a0)
            # one iteration stands for the iterations of all elements
            out = []
            if ds:
                d = next(iter(ds))
                out.append((ast | {("some", a0)}, SOME(("x", "of", d[1]) if len(ds) == 1 and d[0] == "of" else sset(ds)), "keep"))
            na = ast if ("some", a0) in ast else ast | {("vac", d) for d in ds}
            out.append((na, NONE, "keep"))
            return out
        if m in ("map", "filter_map", "flat_map", "for_each", "and_then_") and len(args) == 2 and a0 is not None and a0[0] == "x" and a0[1] in ("set", "of") and "terator" in n:
            ds = members(a0)
            out = set()
            for d in ds:
                el = ("x", "of", d[1]) if d[0] == "of" else ("x", "comp", d)
                for a, v in ip.run_closure(args[1], [el], ast):
                    r = members(v)
                    out.add((a, sset(r) if r is not None else None))
            return list(out) or [(ast, None)]
        if m in ("fold", "try_fold") and len(args) == 3 and a0 is not None and a0[0] == "x" and a0[1] in ("set", "of"):
            out = set()
            for d in members(a0):
                el = ("x", "of", d[1]) if d[0] == "of" else ("x", "comp", d)
                for a, v in ip.run_closure(args[2], [args[1], el], ast):
                    out.add((a, v))
            return list(out) or [(ast, args[1])]
        if m == "box_assume_init_into_vec_unsafe" and a0 is not None:
            while a0 is not None and a0[0] == "a" and a0[1] is None:
                a0 = fget(a0, "value")
            return [(ast, sset(members(a0)) if members(a0) is not None else None)]
        if m in PASS and a0 is not None and members(a0) is not None and (is_coll(dty) or "terator" in n or (a0[0] == "x") or dty.has_adt("Box")):
            if a0[0] == "x":
                return [(ast, a0)]
            if is_coll(dty) or "terator" in n:
                return [(ast, sset(members(a0)))]
        return None

    def makes(self, bid):
        for _i, t in self.prog.bodies[bid].calls():
            f = t["f"].get("fn")
            if f and short(f["n"]) == "Component::new":
                return True
        return False

    def static_operand(self, body, o):
        """the static an operand refers to"""
        seen = set()
        while True:
            if "static" in o:
                return o["static"]
            if "p" not in o or o["p"][0] in seen:
                return None
            seen.add(o["p"][0])
            ds = [d for d in body.defs.get(o["p"][0], []) if d[0] == "="]
            if len(ds) != 1:
                return None
            r = ds[0][3]["r"]
            if r["k"] == "ref":
                o = {"p": [r["p"][0]]}
            elif r.get("o"):
                o = r["o"][0]
            else:
                return None


def cases(fields):
    """all combinations of the optional and boolean parameters"""
    opts = []
    for n, t, _p in fields:
        if t.is_adt("core::option::Option"):
            opts.append([(n, SOME(("x", "f", n))), (n, NONE)])
        elif t.s == "bool":
            opts.append([(n, TRUE), (n, FALSE)])
    if len(opts) > 6:
        opts = opts[:6]
    for c in itertools.product(*opts):
        yield dict(c)


def announces(t, prog, seen=frozenset()):
    """does a value of this type (or an element of it) announce components itself?"""
    for x in t.walk():
        if x.k == "dyn" and any(tr.endswith(("BinaryOperatorSpec", "UnaryOperatorSpec")) for tr in x.tr):
            return True
        if x.k == "adt" and x.d in prog.announcing:
            return True
        if x.k == "adt" and x.d in prog.adts and x.d not in seen:
            for v in prog.adts[x.d]["variants"]:
                if any(announces(ft, prog, seen | {x.d}) for _n, ft, _p in v["f"]):
                    return True
    return False


def show(d):
    return "%s" % (d[1] if d[0] == "of" else "/".join(d[:3]) if len(d) == 3 else str(d))


def c26(prog, rep):
    rep.rule("announced-includes-used", "every component descriptor that is looked up in the corpus when the operator or node search is created or executed is announced on every path of necessary_components, for each combination of the optional and boolean parameters")
    rep.rule("parts-are-asked", "an operator, node search or query that consists of other operators and node searches announces what all of its parts announce")
    rep.rule("callers-load-what-they-use", "functions that prepare a query load all further components they look up themselves")
    bodies = prog.bodies
    need = [b for b in bodies.values() if b.kind in ("method", "fn") and b.name.rsplit("::", 1)[-1] == "necessary_components" or b.method == "necessary_components"]
    need = [b for b in need if b.kind not in ("closure", "promoted") and not b.default]
    lookups = set()
    makers = set()
    for b in bodies.values():
        for _i, t in b.calls():
            f = t["f"].get("fn")
            if not f:
                continue
            m = plain(f["n"]).rsplit("::", 1)[-1]
            if m in LOOKUP or m == "prepare_query":
                lookups.add(b.id)
            if m in ("get_all_components", "necessary_components") or short(f["n"]) in ("Component::new", "Conjunction::new"):
                makers.add(b.id)
    back = reach_back(prog, lookups | makers)
    prog.announcing = {b.selfty.peel().d for b in need if b.selfty is not None and b.selfty.peel().k == "adt"}
    operators = {b.selfty.peel().d for b in bodies.values() if b.selfty is not None and b.selfty.peel().k == "adt" and b.trait and b.trait.endswith(OPTRAITS[:3])}
    nspecs = nused = nparts = ncases = 0
    for b in sorted(need, key=lambda b: b.id):
        if b.selfty is None or b.selfty.peel().k != "adt":
            continue
        adt = prog.adts.get(b.selfty.peel().d)
        if adt is None or b.argc < 2:
            continue
        users = []
        for x in bodies.values():
            if x.selfty is not None and x.selfty.peel().k == "adt" and x.selfty.peel().d == b.selfty.peel().d and x.method in ("create_operator", "get_value_filter"):
                users.append(x)
        if not users or b.trait is None:
            # free standing or inherent: everything that is made from a value of this type
            for x in bodies.values():
                if x.kind == "method" and x.argc and x.method in ("from_spec",) and x.ltys[1].peel().k == "adt" and x.ltys[1].peel().d == b.selfty.peel().d:
                    users.append(x)
        who = b.selfty.peel().d.rsplit("::", 1)[-1]
        nspecs += 1
        variants = adt["variants"]
        for v in variants:
            for case in cases(v["f"]):
                ncases += 1
                tag = who + ("::" + v["n"] if adt["kind"] == "enum" else "") if "kind" in adt else who + ("::" + v["n"] if len(variants) > 1 else "")
                owned = {n: ("x", "of", n) for n, t, _p in v["f"] if announces(t, prog)}
                owned.update({n: sset([("fld", n)]) for n, t, _p in v["f"] if is_coll(t) and has_comp(t)})
                if len(variants) > 1:
                    me = ("a", v["n"], tuple(sorted((n, case.get(n) or owned.get(n) or ("x", "f", n)) for n, _t, _p in v["f"])))
                else:
                    me = ("x", "self")
                # announced
                cl = Needs(prog, back)
                cl.case, cl.owned = case, owned
                ip = Interp(prog, cl)
                outs = ip.run(b.id, (me, None), frozenset())
                rep.fns(ip.stats["functions"])
                ann = []
                for a, val, _m in outs or ():
                    if ("failed",) in a:
                        continue
                    ann.append((members(val) or frozenset()) | {x[1] for x in a if x[0] == "vac"})
                # looked up
                cu = Needs(prog, back)
                cu.operators = operators
                cu.case, cu.owned = case, owned
                iu = Interp(prog, cu)
                for u in users:
                    args = [None] * u.argc
                    args[0] = me
                    iu.run(u.id, tuple(args), frozenset())
                done = set()
                while True:
                    new = sorted(d for d in cu.built if d not in done)
                    if not new:
                        break
                    for d in new:
                        done.add(d)
                        cu.case = {}
                        cu.owned = dict(cu.built[d])
                        for x in bodies.values():
                            if x.kind == "method" and x.trait and x.selfty is not None and x.selfty.peel().k == "adt" and x.selfty.peel().d == d and x.id in back:
                                iu.run(x.id, tuple([("x", "self")] + [None] * (x.argc - 1)), frozenset())
                rep.fns(iu.stats["functions"])
                parts = {("of", n) for n, t, _p in v["f"] if n in owned and owned[n][1] == "of"}
                if users:
                    parts &= set(cu.used)
                nparts += len(parts)
                for d in sorted(parts):
                    if ann and all(d in s for s in ann):
                        rep.ok("parts-are-asked", "%s.%s" % (who, d[1]))
                    else:
                        rep.bad("parts-are-asked", "%s.%s" % (who, d[1]), loc(b), "what the part '%s' needs is not announced on every path" % d[1])
                for d in sorted(cu.used):
                    if d[0] == "of":
                        continue
                    nused += 1
                    cs = ",".join("%s=%s" % (k, variant(x) or x[1]) for k, x in sorted(case.items()))
                    if ann and all(any(covers(n, d) for n in s) for s in ann):
                        rep.ok("announced-includes-used", "%s (%s): %s" % (tag, cs, show(d)))
                    elif d[0] == "?":
                        rep.bad("announced-includes-used", "%s: unknown component" % tag, cu.used[d], "a component that cannot be determined is looked up")
                    else:
                        rep.bad("announced-includes-used", "%s: %s" % (tag, show(d)), cu.used[d], "component %s is looked up but not announced on every path (with %s)" % (show(d), cs or "any parameters"))
    rep.floor("announced-includes-used", "types that announce components", nspecs, 14)
    rep.floor("announced-includes-used", "look-ups compared", nused, 30)
    rep.floor("parts-are-asked", "parts", nparts, 5)
    # functions that prepare a query and look up components themselves
    roots = []
    for b in bodies.values():
        if b.kind in ("closure", "promoted") or b.name.endswith("prepare_query"):
            continue
        for _i, t in b.calls():
            f = t["f"].get("fn")
            if f and plain(f["n"]).endswith("::prepare_query"):
                roots.append(b)
                break
    stop = {x.id for x in bodies.values() if x.name.endswith(("ExecutionPlan::from_disjunction", "::prepare_query")) or "::from_disjunction" in x.name}
    checked = 0
    for b in sorted(roots, key=lambda b: b.id):
        enums = []
        for i in range(b.argc):
            ad = prog.adts.get(b.ltys[i + 1].peel().d) if b.ltys[i + 1].peel().k == "adt" else None
            if ad and len(ad["variants"]) == 1 and not ad["id"].endswith("SearchQuery"):
                for n, t, _p in ad["variants"][0]["f"]:
                    e = prog.adts.get(t.d) if t.k == "adt" else None
                    if e and len(e["variants"]) > 1 and all(not v["f"] for v in e["variants"]):
                        enums.append([(i, n, ("a", v["n"], ())) for v in e["variants"]])
        for combo in itertools.product(*enums):
            args = [None] * b.argc
            for i in range(b.argc):
                fs = tuple(sorted((n, v) for j, n, v in combo if j == i))
                if fs:
                    args[i] = ("a", None, fs)
                elif b.lnames[i + 1]:
                    args[i] = ("x", "f", b.lnames[i + 1])
            cl = Needs(prog, back, stop)
            cl.callers_mode = True
            ip = Interp(prog, cl)
            ip.run(b.id, tuple(args), frozenset())
            rep.fns(ip.stats["functions"])
            checked += cl.checked
            badd = set()
            for bb, line, d in cl.bad:
                badd.add(d)
                rep.bad("callers-load-what-they-use", "%s: %s" % (b.name.rsplit("::", 1)[-1], show(d)), loc(bb, line), "component %s is looked up, but was not loaded for this query (%s)" % (show(d), ", ".join("%s=%s" % (n, v[1]) for _i, n, v in combo)))
            if not badd:
                rep.ok("callers-load-what-they-use", "%s (%s): %d look-ups" % (b.name.rsplit("::", 1)[-1], ", ".join("%s=%s" % (n, v[1]) for _i, n, v in combo), cl.checked))
    rep.floor("callers-load-what-they-use", "functions that prepare a query", len(roots), 5)
    rep.floor("callers-load-what-they-use", "look-ups by these functions", checked, 4)
    rep.extra["parameter_combinations"] = ncases


def check(pid, prog, rep):
    c26(prog, rep)
