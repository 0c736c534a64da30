"""C19 / C32: operators.

Terms: results of calls are uninterpreted terms over the operator's fields and the two matches ("l", "r"). A function that
decides about a match is interpreted abstractly; it yields a set of conjunctions of atoms (conditions over terms) under which
it accepts. Two such functions are compared as boolean functions over their atoms.

C32  an operator and its inverse accept the same pairs; the search for the right-hand side visits the same paths as the filter.
C19  wrappers (enumerations of operators, negation, unions of edges) hand each question on to what they wrap."""
import itertools
from ..facts import callee, short
from ..interp import Client, Interp, OK, ERR, SOME, NONE, UNIT, TRUE, FALSE, fget, variant
from ..report import loc
from .layers import F, struct, sym, strip
from .joins import adt_name

BASE = "BinaryOperatorBase"
INDEX = "BinaryOperatorIndex"
OPDIR = "/aql/operators/"
SHARED = ("TokenHelper", "NodeAnnotationStorage")
L, R, SELF = ("x", "l"), ("x", "r"), ("x", "self")
PIPE = ("map", "map_ok", "filter_map", "filter_map_ok", "filter", "filter_ok", "flat_map", "flatten", "flatten_ok", "fuse", "chain", "into_iter",
        "iter", "collect", "and_then", "map_err", "inspect", "inspect_ok", "peekable", "by_ref", "into_boxed", "collect_vec", "sorted", "dedup", "unique", "and_then_ok")


def last(s):
    return str(s).rsplit("::", 1)[-1]


def shared(ty):
    for x in ty.walk():
        for s in SHARED:
            if s in x.s and (x.k != "adt" or adt_name(x) == s):
                return s
    return None


def mentions(v, what):
    return v == what or (isinstance(v, tuple) and any(mentions(x, what) for x in v if isinstance(x, tuple)))


def subst(v, old, new):
    if v == old:
        return new
    return tuple(subst(x, old, new) if isinstance(x, tuple) else x for x in v) if isinstance(v, tuple) else v


def canon(name, args):
    if name in ("eq", "ne") and len(args) == 2:
        args = tuple(sorted(args, key=repr))
        return ("x", "t", "eq", args)
    return ("x", "t", name, tuple(args))


def show(v):
    if v is None:
        return "?"
    if isinstance(v, str):
        return v
    if v[0] == "x":
        if v[1] == "t":
            return "%s(%s)" % (v[2], ",".join(show(a) for a in v[3]))
        if v[1] == "fld":
            return show(v[2]) + "." + v[3] if v[2] != SELF else v[3]
        if v[1] in ("elem", "some"):
            return show(v[2])
        return str(v[1])
    if v[0] in ("i", "c"):
        return str(v[1])
    if v[0] == "a":
        return "%s{%s}" % (v[1] or "", ",".join(show(x) for _n, x in v[2]))
    if v[0] == "not":
        return "!" + show(v[1])
    return str(v[0])


class Terms(Client):
    """uninterpreted calls"""

    def __init__(self, prog, follow):
        self.prog, self.follow = prog, follow
        self.events = []

    def interesting(self, bid):
        return bid in self.follow

    def field(self, ip, body, base, name, owner):
        if not sym(base):
            return None
        if name.startswith("@"):
            if name == "@Some":
                return SOME(("x", "some", base))
            if name == "@None":
                return NONE
            return None
        if name == "[]":
            return ("x", "elem", base)
        if base[1] == "pipe":
            return None
        if name == "0" and owner and "option::Option" in owner:
            return ("x", "some", base)
        return ("x", "fld", base, name)

    def branch(self, ip, body, bb, ast, s, taken):
        if not sym(s) or taken is None:
            return ast
        if s[1] == "is":
            if taken not in (0, 1):
                return ast
            return self.atom(ast, ("var", s[2]), s[3] if taken else s[4])
        if s[1] == "t" and s[2] == "ne":
            s = ("x", "t", "eq", s[3])
            taken = 1 - taken if taken in (0, 1) else taken
        if taken in (0, 1):
            return self.atom(ast, ("bool", s), bool(taken))
        return self.atom(ast, ("var", s), taken)

    def atom(self, ast, k, v):
        old = F.get(ast, k)
        if old is not None and old != v:
            return None
        return F.set(ast, k, v)

    def forget(self, ast, el):
        return frozenset(x for x in ast if not mentions(x[0], el))

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return None
        n = short(f["n"])
        own, _, m = n.rpartition("::")
        a0 = args[0] if args else None
        dty = body.ltys[t["d"][0]] if len(t["d"]) == 1 else None
        if m in ("new", "default", "with_capacity") and dty is not None and dty.k == "adt" and last(dty.d) in ("Vec", "HashSet", "VecDeque", "BTreeSet"):
            return [(ast, ("x", "pipe", ()))]
        if sym(a0, "pipe"):
            return self.pipe(ip, m, a0, args, ast, dty)
        if own in ("iter", "once", "empty") or n in ("iter::once", "once::once", "iter::empty", "empty::empty"):
            if m == "once":
                return [(ast, ("x", "pipe", (a0,)))]
            if m == "empty":
                return [(ast, ("x", "pipe", ()))]
        if sym(a0) and m in ("clone", "as_ref", "deref", "borrow", "as_deref", "to_owned", "as_mut", "copied", "cloned", "into", "from", "as_str", "get_ref"):
            return [(ast, a0)]
        if m in ("is_some", "is_none") and sym(a0):
            x = ("x", "is", a0, "Some", "None")
            return [(ast, x if m == "is_some" else ("not", x))]
        if sym(a0, "some") and m in ("unwrap", "expect"):
            return [(ast, a0)]
        if own == "Option" and m == "map" and a0 is not None and len(args) == 2 and args[1] is not None and args[1][0] == "fn" \
                and last(args[1][1]) in ("as_str", "as_ref", "deref", "clone", "borrow"):
            return [(ast, a0)]
        if own == "Option" and m in ("unwrap", "expect") and sym(a0):
            a = self.atom(ast, ("var", a0), "Some")
            return [(a, ("x", "some", a0))] if a is not None else []
        if m == "next" and sym(a0):
            el = ("x", "elem", a0)
            b = self.forget(ast, el)
            return [(b, SOME(el), "keep"), (b, NONE, "keep")]
        if m in ("into_iter", "iter") and sym(a0):
            return [(ast, a0)]
        if m == "index" and sym(a0):
            return [(ast, ("x", "elem", a0))]
        if sym(a0) and m in PIPE and len(args) == 2 and own in ("Iterator", "Itertools", "ParallelIterator"):
            return self.pipe(ip, m, ("x", "pipe", (("x", "elem", a0),)), args, ast, dty)
        if m in ("map_err",) and variant(a0) in ("Ok", "Err"):
            return [(ast, a0)]
        if m in ("eq", "ne") and len(args) == 2 and all(self.optional(body, o) for o in t["args"]):
            return self.eqopt(ast, args, m == "ne")
        if any(x in self.follow for x in self.prog.targets(body, f)) and not (dty is not None and False):
            if len(self.prog.targets(body, f)) == 1:
                return None
        r = self.event(ip, body, ast, m, args, f, dty)
        if r is not None:
            return r
        return self.term(ast, m, args, dty, f)

    def optional(self, body, o):
        ty = body.ltys[o["p"][0]].peel_refs() if o.get("p") and len(o["p"]) == 1 else None
        return ty is not None and ty.is_adt("core::option::Option")

    def eqopt(self, ast, args, neg):
        """comparison of two options"""
        out = []
        for va in ("Some", "None"):
            for vb in ("Some", "None"):
                a, xs = ast, []
                for x, v in zip(args, (va, vb)):
                    if variant(x) in ("Some", "None"):
                        a = a if variant(x) == v else None
                        xs.append(fget(x, "0"))
                    elif sym(x):
                        a = self.atom(a, ("var", x), v) if a is not None else None
                        xs.append(("x", "some", x))
                    else:
                        return None
                    if a is None:
                        break
                if a is None:
                    continue
                if va == vb == "Some":
                    r = canon("eq", tuple(xs))
                    out.append((a, ("not", r) if neg else r))
                else:
                    out.append((a, ("i", int((va == vb) != neg))))
        return out

    def event(self, ip, body, ast, m, args, f, dty):
        return None

    def binop(self, ip, body, op, a, b):
        if a is None or b is None or not (sym(a) or sym(b)):
            return None
        o = op.replace("WithOverflow", "").replace("Unchecked", "").lower()
        if o in ("eq", "ne"):
            v = canon("eq", (a, b))
            return v if o == "eq" else ("not", v)
        if o in ("gt", "ge"):
            a, b, o = b, a, {"gt": "lt", "ge": "le"}[o]
        return canon(o, (a, b))

    def term(self, ast, m, args, dty, f):
        if args and args[0] is not None and args[0][0] == "a" and m in ("from", "into", "clone", "deref", "as_ref", "to_owned", "borrow", "into_iter", "unwrap", "expect", "is_some", "is_none"):
            return None
        if m in ("eq", "ne", "len", "is_empty", "cmp") or f.get("tr") or self.known(f):
            if any(variant(x) in ("Ok", "Err") and m in ("branch", "from_residual", "from_output") for x in args):
                return None
            if m in ("branch", "from_residual", "from_output", "call", "call_once", "call_mut", "poll"):
                return None
            if dty is not None and adt_name(dty) in ("Formatter",):
                return None
            s = shared(dty) if dty is not None and m in ("new", "get_node_annos") else None
            v = ("x", s) if s else canon(m, tuple(args))
            if m == "ne":
                v = ("not", v)
            if dty is not None and dty.peel_refs().is_adt("core::result::Result"):
                return [(ast, OK(v)), (F.set(ast, "failed", True), ERR())]
            return [(ast, v)]
        return None

    def known(self, f):
        return f.get("id") in self.prog.bodies or f.get("res") in self.prog.bodies or (f["n"].split("::")[0].startswith("graphannis"))

    # iterators with known elements: ("x", "pipe", elements)
    def pipe(self, ip, m, p, args, ast, dty):
        els = p[2]
        fn = args[1] if len(args) > 1 else None
        if m == "chain":
            o = args[1]
            oe = o[2] if sym(o, "pipe") else (("x", "elem", o),)
            return [(ast, ("x", "pipe", els + tuple(x for x in oe if x not in els)))]
        if m in ("next",):
            b = ast
            for e in els:
                b = self.forget(b, e)
                x = strip(e, ("Ok", "Some"))
                b = self.forget(b, x) if sym(x) else b
            return [(b, SOME(e), "keep") for e in els] + [(b, NONE, "keep")]
        if m in ("push", "push_back", "insert", "extend") and len(args) == 2:
            o = args[1]
            new = (o,) if m != "extend" else o[2] if sym(o, "pipe") else (("x", "elem", o),)
            c = conj(ast)
            new = tuple(("x", "with", x, c) if not sym(x, "with") else x for x in new)
            return [(ast, UNIT if m != "insert" else None, {0: ("x", "pipe", els + tuple(x for x in new if x not in els))})]
        if m in ("collect", "collect_vec", "sorted", "try_collect"):
            if dty is not None and dty.is_adt("core::result::Result"):
                return [(ast, OK(("x", "pipe", tuple(strip(e, ("Ok",)) if variant(e) == "Ok" else e for e in els if variant(e) != "Err")))), (F.set(ast, "failed", True), ERR())]
            return [(ast, p)]
        if m in ("map", "flat_map", "filter_map", "map_ok", "filter_map_ok", "and_then", "filter", "filter_ok", "flatten_ok", "flatten"):
            res = {}
            base = {ast: ()}
            for e in els:
                nb = {}
                for a, acc in base.items():
                    for a2, outs in self.apply(ip, m, e, fn, a):
                        nb.setdefault(a2, ())
                        nb[a2] = nb[a2] + tuple(x for x in acc + outs if x not in nb[a2])
                base = nb
            for a, acc in base.items():
                res.setdefault(a, acc)
            return [(a, ("x", "pipe", acc)) for a, acc in res.items()]
        if m in ("fuse", "into_iter", "iter", "by_ref", "peekable", "map_err", "inspect", "dedup", "unique", "sort", "sort_unstable", "into_boxed", "into_vec", "into_boxed_slice"):
            return [(ast, p, "keep")] if m not in ("dedup", "sort", "sort_unstable") else [(ast, UNIT, "keep")]
        return None

    def apply(self, ip, m, e, fn, ast):
        """outcomes (ast, elements)"""
        if sym(e, "with"):
            return [(a, tuple(("x", "with", x, e[3]) for x in xs)) for a, xs in self.apply(ip, m, e[2], fn, ast)]
        if variant(e) == "Err" and m.endswith("_ok"):
            return [(ast, (e,))]
        if m in ("flatten", "flatten_ok"):
            x = fget(e, "0") if variant(e) == "Ok" else e
            if sym(x, "pipe"):
                return [(ast, tuple(OK(y) if m == "flatten_ok" else y for y in x[2]))]
            if variant(x) == "Some":
                return [(ast, (OK(fget(x, "0")) if m == "flatten_ok" else fget(x, "0"),))]
            if variant(x) in ("None", "Err"):
                return [(ast, ())]
            return [(ast, (("x", "elem", x),))]
        ctor = fn[1].split("::{constructor")[0].rsplit("::", 1)[-1] if fn is not None and fn[0] == "fn" and ("{constructor" in fn[1] or fn[1].endswith(("::Ok", "::Some"))) else None
        if ctor and m in ("map", "map_ok"):
            e2 = ("a", ctor, (("0", fget(e, "0") if m == "map_ok" else e),))
            return [(ast, (OK(e2) if m == "map_ok" else e2,))]
        arg = fget(e, "0") if m.endswith("_ok") or m == "and_then" else e
        out = []
        for a, v in ip.run_closure(fn, [arg], ast) or []:
            if F.get(a, "failed") and not F.get(ast, "failed"):
                continue
            if m == "map":
                out.append((a, (v,)))
            elif m == "map_ok":
                out.append((a, (OK(v),)))
            elif m == "and_then":
                out.append((a, (v,)))
            elif m == "flat_map":
                out.append((a, v[2] if sym(v, "pipe") else (("x", "elem", v),)))
            elif m in ("filter_map", "filter_map_ok"):
                if variant(v) == "Some":
                    out.append((a, (OK(fget(v, "0")) if m == "filter_map_ok" else fget(v, "0"),)))
                elif variant(v) != "None":
                    out.append((a, (("x", "some", v),)))
                else:
                    out.append((a, ()))
            else:
                if v is not None and v[0] == "i":
                    out.append((a, (e,) if v[1] else ()))
                else:
                    a2 = self.branch(ip, None, 0, a, v, 1) if v is not None and v[0] == "x" else a
                    if a2 is not None:
                        out.append((a2, (e,)))
        return out


def conj(ast):
    return frozenset(x for x in ast if isinstance(x[0], tuple) and x[0][0] in ("bool", "var"))


def boolean(x):
    return sym(x, "t") and x[2] in ("eq", "ne", "lt", "le", "is_connected") or sym(x, "is") or x is not None and x[0] == "not"


def decided(x, v, c):
    """the conjunctions under which a truth value has the given value"""
    while x is not None and x[0] == "not":
        x, v = x[1], not v
    if x is None:
        return set()
    if x[0] == "i":
        return {c} if bool(x[1]) == v else set()
    if sym(x, "is"):
        return {c | {(("var", x[2]), x[3] if v else x[4])}}
    old = dict(c).get(("bool", x))
    return {c | {(("bool", x), v)}} if old is None or old == v else set()


def accepts(ip_run):
    """conjunctions under which a function accepts; None: not decided"""
    out = set()
    for ast, v, _m in ip_run or []:
        if F.get(ast, "failed") or variant(v) == "Err":
            continue
        x = fget(v, "0") if variant(v) == "Ok" else v
        neg = False
        while x is not None and x[0] == "not":
            neg, x = not neg, x[1]
        c = conj(ast)
        if x is None:
            return None
        if sym(x, "t") and x[2] in ("eq", "ne") and len(x[3]) == 2 and any(boolean(y) for y in x[3]):
            # comparison of two truth values
            same_ = (x[2] == "eq") != neg
            for va in (True, False):
                vb = va == same_
                for c2 in decided(x[3][0], va, c):
                    out |= decided(x[3][1], vb, c2)
            continue
        if x[0] == "i":
            if bool(x[1]) != neg:
                out.add(c)
        elif sym(x, "is"):
            out.add(c | {(("var", x[2]), x[4] if neg else x[3])})
        elif sym(x):
            old = dict(c).get(("bool", x))
            if old is None:
                out.add(c | {(("bool", x), not neg)})
            elif old != neg:
                out.add(c)
        else:
            return None
    # contradictory conjunctions are impossible
    return {c for c in out if len({k for k, _v in c}) == len(c)}


def same(a, b):
    """are two sets of conjunctions the same boolean function?"""
    if a == b:
        return True
    keys = {}
    for c in a | b:
        for k, v in c:
            keys.setdefault(k, set()).add(v)
    doms = []
    ks = sorted(keys, key=repr)
    for k in ks:
        d = set(keys[k])
        d |= {True, False} if k[0] == "bool" else {"Some", "None"} if d <= {"Some", "None"} else {"other"}
        doms.append(sorted(d, key=repr))
    n = 1
    for d in doms:
        n *= len(d)
    if n > 70000:
        return False
    for vals in itertools.product(*doms):
        env = dict(zip(ks, vals))
        if any(all(env[k] == v for k, v in c) for c in a) != any(all(env[k] == v for k, v in c) for c in b):
            return False
    return True


def minimal(acc):
    """drops conditions that make no difference"""
    out = set()
    for c in sorted(acc, key=repr):
        for x in sorted(c, key=repr):
            if x in c and x[0][0] == "bool" and x[1] is False:
                c2 = c - {x}
                if any((x[0], True) in o and o - {(x[0], True)} <= c2 for o in acc):
                    c = c2
        out.add(c)
    return out


class Ops:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.bodies = [b for b in prog.bodies.values() if b.kind != "promoted"]
        self.opbodies = {b.id for b in self.bodies if OPDIR in b.file}

    def impl(self, ty, trait, method):
        """body of a method of a trait for a type, else the default body; None: no default"""
        own = [b for b in self.bodies if b.kind == "method" and b.method == method and b.trait and last(b.trait).startswith(trait)
               and b.selfty is not None and b.selfty.is_adt(ty)]
        return own[0] if own else None

    def default(self, trait, method):
        r = [b for b in self.bodies if b.id.endswith("::%s::%s" % (trait, method)) and b.selfty is None]
        return r[0] if r else None

    def operators(self, trait=BASE):
        r = {}
        for b in self.bodies:
            if b.kind == "method" and b.trait and last(b.trait).startswith(trait) and b.selfty is not None and b.selfty.k == "adt" and OPDIR in b.file:
                r[b.selfty.d] = b.selfty
        return r

    def selfval(self, d):
        """symbolic operator; parts that are the same for one graph are shared"""
        fs = []
        for n, ty, _p in self.prog.adts[d]["variants"][0]["f"]:
            s = shared(ty)
            fs.append((n, ("x", s) if s else ("x", "fld", SELF, n)))
        return struct(fs, last(d))

    def follow(self, d, level):
        if level == 0:
            roots = [b for b in self.bodies if b.id in self.opbodies and b.selfty is not None and b.selfty.k == "adt" and b.selfty.d == d]
            ids = {b.id for b in roots}
        else:
            ids = set(self.opbodies)
        # closures of the followed functions
        for b in self.bodies:
            if b.kind == "closure" and self.prog.root_fn(b.id).id in ids:
                ids.add(b.id)
        return ids

    def run(self, b, args, level, client=Terms):
        cl = client(self.prog, self.follow(b.selfty.d, level))
        self.rep.fns([b.id])
        return Interp(self.prog, cl, max_env=400).run(b.id, tuple((list(args) + [None] * b.argc)[:b.argc]), frozenset()), cl

    def bad(self, rule, b, what, key):
        self.rep.bad(rule, "%s|%s" % (b.name if b is not None else key, what), loc(b) if b is not None else key, what)


# --- C32
SEARCH = {"find_connected": 0, "find_connected_inverse": 1}
TOKENS = {"left_token_for": "left", "right_token_for": "right"}


class Search(Terms):
    """candidates of a search know where they come from"""

    def event(self, ip, body, ast, m, args, f, dty):
        if m in SEARCH and len(args) == 4:
            return [(ast, ("x", "pipe", (OK(("x", "cand", m) + tuple(args)),)))]
        if m in ("get_ingoing_edges", "get_outgoing_edges") and len(args) == 2:
            return [(ast, ("x", "pipe", (OK(("x", "nb", m) + tuple(args)),)))]
        return None


class Agree(Ops):
    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        rep.rule("ops.inverse", "an operator accepts the pair (a, b) exactly if its inverse operator accepts the pair (b, a)")
        rep.rule("ops.reflexive", "an operator and its inverse agree if both sides may be the same node")
        rep.rule("ops.search", "the candidates for the right-hand side are searched along the paths and with the bounds the filter checks")
        rep.rule("ops.nodes", "all nodes aligned to the found position (and only these) are candidates")
        rep.rule("ops.conditions", "further conditions of the filter are checked for each candidate")
        types = self.operators()
        n = k = 0
        for d in sorted(types):
            if d not in prog.adts or len(prog.adts[d]["variants"]) != 1:
                continue
            fb = self.impl(d, BASE, "filter_match")
            if fb is None:
                continue
            n += self.inverse(d, types)
            k += self.search(d, fb)
        rep.floor("ops.inverse", "inverse operators", n, 7)
        rep.floor("ops.search", "searches of candidates", k, 4)

    def filter(self, d, selfv, a, b, level):
        fb = self.impl(d, BASE, "filter_match")
        if fb is None:
            return None
        out, _c = self.run(fb, (selfv, a, b), level)
        return accepts(out)

    def inverse(self, d, types):
        g = self.impl(d, BASE, "get_inverse_operator")
        if g is None:
            return 0
        me = self.selfval(d)
        out, _c = self.run(g, (me, ("x", "graph")), 0)
        invs = set()
        for ast, v, _m in out or []:
            if variant(v) != "Ok" or F.get(ast, "failed"):
                continue
            x = strip(v, ("Ok", "Some", "Index", "Base"))
            if variant(x) != "None":
                invs.add(x)
        if not invs:
            return 0
        for y in sorted(invs, key=repr):
            names = [t for t in types if last(t) == variant(y)]
            if len(names) != 1:
                self.bad("ops.inverse", g, "the inverse operator is of unknown type", d)
                continue
            yd = names[0]
            ok, first = False, None
            for level in (0, 1):
                fx, fy = self.filter(d, me, L, R, level), self.filter(yd, y, R, L, level)
                if fx and fy and same(fx, fy):
                    ok = True
                    break
                first = first or (fx, fy)
            if ok:
                self.rep.ok("ops.inverse", "%s / %s: %d conditions" % (last(d), last(yd), len(fx)))
            elif not first[0] or not first[1]:
                self.bad("ops.inverse", g, "it is not known when %s accepts a pair" % last(d if not first[0] else yd), d)
            else:
                diff = sorted({show(k[1]) for c in first[0] ^ first[1] for k, _v in c if not any(k in dict(c2) for c2 in first[0] & first[1])})
                self.bad("ops.inverse", g, "%s and its inverse %s accept different pairs" % (last(d), last(yd)), d)
            r = []
            for dd, v in ((d, me), (yd, y)):
                b = self.impl(dd, BASE, "is_reflexive")
                r.append(accepts(self.run(b, (v,), 0)[0]) if b is not None else {frozenset()})
            if r[0] is not None and r[1] is not None and same(r[0], r[1]):
                self.rep.ok("ops.reflexive", "%s / %s" % (last(d), last(yd)))
            else:
                self.bad("ops.reflexive", g, "%s and its inverse %s do not agree about equal nodes" % (last(d), last(yd)), d)
        return 1

    # --- search for candidates
    def search(self, d, fb):
        rb = self.impl(d, INDEX, "retrieve_matches")
        if rb is None:
            return 0
        me = self.selfval(d)
        prob, n = None, 0
        for level in (0, 1):
            acc = self.filter(d, me, L, R, level)
            if acc is None:
                continue
            how = [f for f in (self.compare, self.meeting, self.value) if f is not None]
            for f in how:
                p, k = f(d, rb, me, acc, level)
                if p is not None and (prob is None or not any(p.values())):
                    prob, n = p, k
            if prob is not None and not any(prob.values()):
                break
        if prob is None:
            self.bad("ops.search", rb, "the pairs accepted by the filter are decided by other relations than the search follows", d)
            return 1
        for rule, ps in prob.items():
            for x in sorted(ps):
                self.bad(rule, rb, x, d)
            if not ps:
                self.rep.ok(rule, "%s (%d)" % (last(d), n))
        return 1

    def found(self, rb, me, level):
        """candidates of the search: (match, conditions)"""
        out, _c = self.run(rb, (me, L), level, Search)
        r = []
        for ast, v, _m in out or []:
            if F.get(ast, "failed"):
                continue
            x = strip(v, ("Ok",))
            for e in (x[2] if sym(x, "pipe") else ((x,) if x is not None else (None,))):
                c = conj(ast)
                if sym(e, "with"):
                    e, c = e[2], c | e[3]
                if variant(e) == "Err":
                    continue
                r.append((strip(e, ("Ok",)), c))
        return r

    # both sides meet in the same node: (A(l) == B(r))
    def norm(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "x" and len(t) > 1 and t[1] in ("some", "elem"):
            return self.norm(t[2])
        if t[0] == "a" and t[1] in ("Some", "Ok"):
            return self.norm(fget(t, "0"))
        t = tuple(self.norm(x) if isinstance(x, tuple) else x for x in t)
        if sym(t, "t"):
            if t[2] in TOKENS and len(t[3]) == 2:
                x = t[3][1]
                if sym(x, "t") and x[2] in TOKENS:
                    return x
                if sym(x, "nb") and self.gs_side(x[3]) == TOKENS[t[2]]:
                    return x[4]
            if t[2] == "eq":
                return ("x", "t", "eq", tuple(sorted(t[3], key=repr)))
        if sym(t, "nb") and t[2] == "get_outgoing_edges" and self.gs_side(t[3]):
            return ("x", "t", "%s_token_for" % self.gs_side(t[3]), (("x", "TokenHelper"), t[4]))
        if sym(t, "fld") and sym(t[2], "t") and t[2][2] == "left_right_token_for" and t[3] in ("0", "1"):
            return self.norm(("x", "t", "left_token_for" if t[3] == "0" else "right_token_for", t[2][3]))
        return t

    def gs_side(self, gs):
        nm = gs[3] if sym(gs, "fld") else gs[2] if sym(gs, "t") else ""
        return "left" if "left" in nm else "right" if "right" in nm else None

    def norm_atoms(self, c):
        """None: impossible; else the conditions that are not trivial"""
        out = set()
        for (k, t), v in c:
            t = self.norm(t)
            if k == "var":
                if v == "Some" and (sym(t, "nb") or sym(t, "t") and t[2] in TOKENS and sym(t[3][1], "nb")):
                    continue
                out.add(((k, t), v))
                continue
            if sym(t, "t") and t[2] == "eq" and t[3][0] == t[3][1]:
                if not v:
                    return None
                continue
            out.add(((k, t), v))
        return frozenset(out)

    def meeting(self, d, rb, me, acc, level):
        acc = minimal(acc)
        node = ("x", "fld", R, "node")
        exp = []
        for c in acc:
            es = None
            for (k, t), v in c:
                t = self.norm(t)
                if k == "bool" and v is True and sym(t, "t") and t[2] == "eq":
                    for a, b in (t[3], t[3][::-1]):
                        if mentions(a, R) or not mentions(a, L):
                            continue
                        if b == node:
                            es = es or [(a, None)]
                        elif sym(b, "t") and b[2] in TOKENS and b[3][1] == node:
                            alt = [(a, None), (a, TOKENS[b[2]])]
                            if es is None:
                                es = []
                            es.append(alt)
            if not es:
                return None, 0
            exp.append((c, [es] if isinstance(es[0], tuple) else es))
        prob = {"ops.search": set(), "ops.nodes": set(), "ops.conditions": set()}
        got = []
        for m, c in self.found(rb, me, level):
            n = fget(m, "node") if variant(m) == "Match" else m
            n = self.norm(n) if n is not None else None
            got.append((n, self.norm_atoms(c)))
        if not got:
            prob["ops.search"].add("it is not known which candidates are searched")
            return prob, 0
        if any(n is None for n, _c in got):
            prob["ops.search"].add("it is not known which candidates are searched")
        used = set()
        for c, alts in exp:
            best = None
            for es in alts:
                miss, here, extra = set(), set(), set()
                for a, side in es:
                    hits = [(n, cc) for n, cc in got if cc is not None and n is not None and
                            (n == a if side is None else sym(n, "nb") and n[2] == "get_ingoing_edges" and n[4] == a and self.gs_side(n[3]) == side)]
                    what = "the found node" if side is None else "nodes whose %s token is found" % side
                    conds, needs = set(), set()
                    for n, cc in hits:
                        need = self.norm_atoms({((k, subst(self.norm(t), node, n)), v) for (k, t), v in c})
                        if need is None:
                            continue
                        here.add((n, cc))
                        need = frozenset(x for x in need if x[0][0] == "bool")
                        have = frozenset(x for x in cc if x[0][0] == "bool")
                        needs.add(need)
                        conds.add(have)
                        if need - have:
                            extra.add("%s: candidates are not checked with %s" % (what, ",".join(sorted(show(x[0][1]) for x in need - have))))
                    ok = bool(needs) and same(needs, conds)
                    if not hits:
                        miss.add("%s are no candidates, but the filter accepts them" % what)
                    elif not ok and not extra:
                        miss.add("%s are only candidates under conditions which the filter does not check" % what)
                r = (len(miss) + len(extra), sorted(miss), sorted(extra), here)
                if best is None or r[0] < best[0]:
                    best = r
            prob["ops.nodes"].update(best[1])
            prob["ops.conditions"].update(best[2])
            used |= best[3]
        for x in got:
            if x not in used and x[0] is not None and x[1] is not None:
                prob["ops.nodes"].add("candidates are other nodes than the filter accepts")
        return prob, len(got)

    # both sides have the same (or a different) value
    def value(self, d, rb, me, acc, level):
        if not level:
            return None, 0
        exp = []
        for c in acc:
            for (k, t), v in c:
                t = self.norm(t)
                if k != "bool" or not sym(t, "t") or t[2] != "eq":
                    continue
                for a, b in (t[3], t[3][::-1]):
                    if all(sym(x, "t") and x[2] == "get_value_for_item" and len(x[3]) == 3 for x in (a, b)) and mentions(a, L) and not mentions(a, R) \
                            and mentions(b, R) and not mentions(b, L):
                        exp.append((self.flags(c), v, a, b))
        if len(exp) != len(acc) or not exp:
            return None, 0
        prob = {"ops.search": set(), "ops.nodes": set(), "ops.conditions": set()}
        got = []
        for m, c in self.found(rb, me, level):
            t = m
            while sym(t) and t[1] in ("fld", "elem", "some"):
                t = t[2]
            got.append((t if sym(t, "t") and t[2] == "exact_anno_search" and len(t[3]) == 4 else None, self.flags(c), c))
        used = set()
        for fl, eq, a, b in exp:
            hits = [(i, t) for i, (t, f2, c) in enumerate(got) if t is not None and not any((k, v) in f2 and (k, w) not in f2 for (k, w) in fl for v in self.others(f2, k, w))]
            if not hits:
                prob["ops.search"].add("not all pairs accepted by the filter are found by the search")
            for i, t in hits:
                used.add(i)
                _gs, ns, name, vs = t[3]
                if variant(vs) != ("Some" if eq else "NotSome") or self.norm(fget(vs, "0")) != a:
                    prob["ops.search"].add("the values which are searched are not those the filter compares")
                whole = b[3][2]
                ns = strip(ns, ("Some",))
                if whole == ("x", "fld", R, "anno_key"):
                    nons = variant(ns) == "None" and any(k[0] == "var" and v == "None" and self.spec(k[1], "spec_right") for k, v in got[i][2])
                    if not self.spec(name, "spec_right") or not (nons or self.spec(ns, "spec_right")):
                        prob["ops.nodes"].add("the annotations which are searched are not those of the right-hand side")
                elif not all(x is not None and x[0] == "c" for x in (ns, name)):
                    prob["ops.nodes"].add("the annotations which are searched are not those of the right-hand side")
        for i, (t, _f, c) in enumerate(got):
            if t is None:
                prob["ops.search"].add("it is not known which candidates are searched")
            elif i not in used:
                prob["ops.nodes"].add("candidates are other nodes than the filter accepts")
        return prob, len(got)

    def flags(self, c):
        return frozenset(x for x in c if not mentions(x[0][1], L) and not mentions(x[0][1], R))

    def others(self, f2, k, w):
        return [v for k2, v in f2 if k2 == k and v != w]

    def spec(self, v, field):
        return v is not None and (mentions(v, ("x", "fld", SELF, field)))

    def compare(self, d, rb, me, acc, level):
        acc = minimal(acc)
        # paths the filter looks for: (search method, storage, start, min, max) -> (goal, other conditions)
        want = {}
        nconn = 0
        for c in acc:
            here = []
            for (k, t), v in c:
                if k == "bool" and v is True and sym(t, "t") and t[2] == "is_connected" and len(t[3]) == 5:
                    gs, s, g, mi, ma = t[3]
                    others = frozenset(x for x in c if x[0][1] != t)
                    if not mentions(s, R) and mentions(g, R):
                        here.append((("find_connected", gs, s, mi, ma), g, others))
                    elif mentions(s, R) and not mentions(g, R):
                        here.append((("find_connected_inverse", gs, g, mi, ma), s, others))
            if here:
                nconn += 1
                for k, g, o in here:
                    want.setdefault(k, []).append((g, o, c))
        if not nconn:
            return None, 0
        if nconn != len(acc):
            # some pairs are accepted without a path
            return None, 0
        got = []
        for m, c in self.found(rb, me, level):
            node = fget(m, "node") if variant(m) == "Match" else m
            cands = []
            self.cands(node, cands)
            got.append((node, cands[0] if len(set(cands)) == 1 else None, c))
        prob = {"ops.search": set(), "ops.nodes": set(), "ops.conditions": set()}
        if not got:
            prob["ops.search"].add("it is not known which candidates are searched")
            return prob, 0
        flags = {k for c in acc for k, v in c if k[0] == "bool" and not mentions(k[1], L) and not mentions(k[1], R)}
        seen = {}
        for node, cand, c in got:
            if cand is None:
                prob["ops.search"].add("a candidate does not come from a search along a path")
                continue
            key = cand[2:]
            cf = {x for x in c if x[0] in flags}
            match = [(g, o, cc) for g, o, cc in want.get(key, []) if not any((k, not v) in cc for k, v in cf)]
            if not match:
                prob["ops.search"].add("candidates are searched along another path than the filter checks: %s(%s)" % (key[0], ",".join(show(x) for x in key[1:])))
                continue
            for g, o, cc in match:
                seen.setdefault((key, g, o, cc), []).append((node, cand, c))
        # one of the paths of each accepted conjunction is searched
        for c in acc:
            hit = [k for k in seen if k[3] == c]
            if not hit:
                prob["ops.search"].add("not all pairs accepted by the filter are found by the search")
        for (key, g, o, cc), found in seen.items():
            nodes = {n for n, _c, _a in found}
            cand = found[0][1]
            exp = self.goalnodes(g, cand, d)
            if exp is None:
                prob["ops.nodes"].add("it is not known which nodes have %s" % show(self.norm(g)))
                continue
            have = {self.side(n, cand, d) for n in nodes}
            for x in sorted(have - exp):
                prob["ops.nodes"].add("candidates are %s, but the filter checks %s" % (x, show(g)))
            for x in sorted(exp - have):
                prob["ops.nodes"].add("%s are no candidates, but the filter accepts them" % x)
            for n, _c, a in found:
                if self.side(n, cand, d) == "the found node" or exp == {"the found node"}:
                    continue
                atoms = {((k, self.norm(t)), v) for (k, t), v in a}
                for (k, t), v in o:
                    if k == "bool" and mentions(t, R):
                        t2 = self.norm(subst(self.norm(t), ("x", "fld", R, "node"), self.norm(n)))
                        if not mentions(t2, R) and ((k, t2), v) not in atoms:
                            prob["ops.conditions"].add("candidates are not checked with %s" % show(self.norm(t)))
            if exp == {"the found node"}:
                for (k, t), v in o:
                    if k == "bool" and mentions(t, R) and mentions(subst(t, g, cand), cand) and not mentions(subst(t, g, cand), R):
                        t2 = subst(t, g, cand)
                        for n, _c, a in found:
                            if ((k, t2), v) not in a:
                                prob["ops.conditions"].add("candidates are not checked with %s" % show(t))
        return prob, len(got)

    def cands(self, v, out):
        if sym(v, "cand"):
            out.append(v)
            return
        if isinstance(v, tuple):
            for x in v:
                if isinstance(x, tuple):
                    self.cands(x, out)

    def goalnodes(self, g, cand, d):
        """which nodes are the right-hand side if the goal of the path is found"""
        if g == ("x", "fld", R, "node"):
            return {"the found node"}
        t = self.norm(g)
        if sym(t, "t") and t[2] in TOKENS and len(t[3]) == 2 and t[3][1] == ("x", "fld", R, "node"):
            return {"the found node", "nodes whose %s token is found" % TOKENS[t[2]]}
        return None

    def side(self, n, cand, d):
        if n == cand:
            return "the found node"
        if sym(n, "nb") and n[4] == cand and n[2] == "get_ingoing_edges":
            gs = n[3]
            nm = gs[3] if sym(gs, "fld") else gs[2] if sym(gs, "t") else ""
            s = "left" if "left" in nm else "right" if "right" in nm else None
            if s:
                return "nodes whose %s token is found" % s
        return "other nodes"


def check(pid, prog, rep):
    if pid == "C32":
        Agree(prog, rep)
    else:
        from . import wrap
        wrap.Wrap(prog, rep)
