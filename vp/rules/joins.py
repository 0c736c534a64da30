"""C30: all joins accept a combination of matches under the same conditions.

Join types are found by their constructors (an operator and the operands to join). The constructor is interpreted
abstractly, so that each field is known by what is stored in it, then the step of the join is interpreted on this state:
every test (operator, reflexivity, difference, node conditions, constant annotation) becomes a recorded fact of the path.
A combination must be reported exactly on the paths whose facts satisfy the condition of the query language."""
from ..facts import short
from ..interp import Client, Interp, OK, ERR, SOME, NONE, UNIT, TRUE, FALSE, A, fget, variant
from ..report import loc
from .layers import F, struct, sym, strip

CRATE = "graphannis"


def is_dyn(t, name):
    t = t.peel_refs()
    while t.k == "adt" and t.a and t.d.rsplit("::", 1)[1] in ("Box", "Arc", "Rc"):
        t = t.a[0]
    return t.k == "dyn" and ("::" + name) in t.s or (t.k == "dyn" and t.s.startswith("dyn " + name))


def adt_name(t):
    t = t.peel_refs()
    return t.d.rsplit("::", 1)[1] if t.k == "adt" else None


class Roles:
    """symbolic arguments of a constructor or join-creating function by the types of its parameters"""

    def __init__(self, body):
        self.args = []
        ex = ix = ns = 0
        self.exec = self.idx = self.desc = 0
        self.entry = self.op = False
        for i in range(1, body.argc + 1):
            t = body.ltys[i]
            v = None
            if any(x.k == "dyn" and "ExecutionNode<" in x.s for x in t.walk()):
                v = ("x", "src", "LR"[self.exec]) if self.exec < 2 else None
                self.exec += 1
            elif t.s == "usize":
                v = ("x", "idx", "lr"[self.idx]) if self.idx < 2 else None
                self.idx += 1
            elif adt_name(t) == "BinaryOperatorEntry":
                v = ("x", "entry")
                self.entry = True
            elif any(x.k == "dyn" and "BinaryOperator" in x.s for x in t.walk()) or adt_name(t) == "BinaryOperator":
                v = ("x", "op")
                self.op = True
            elif adt_name(t) == "BinaryOperatorArguments":
                v = ("x", "args")
            elif any(x.is_adt("NodeSearchDesc") for x in t.walk()):
                v = ("x", "desc")
                self.desc += 1
            elif any(x.k == "dyn" and "AnnotationStorage" in x.s for x in t.walk()):
                v = ("x", "annos")
            self.args.append(v)


def group(parts):
    return ("x", "g", tuple(parts))


class Joins(Client):
    def __init__(self, prog, mod, index, order):
        self.prog, self.mod, self.index, self.order = prog, mod, index, order
        self.bad = []
        self.emissions = 0
        self.candidates = 0
        self.checked = set()

    def interesting(self, bid):
        return bid in self.mod

    def alarm(self, ast, what):
        self.bad.append(what)
        return ast

    # --- facts
    def decide(self, ast):
        """does the current combination satisfy the condition? True / False / None (not decided by the path)"""
        def AND(*xs):
            if any(x is False for x in xs):
                return False
            return None if any(x is None for x in xs) else True

        def OR(*xs):
            if any(x is True for x in xs):
                return True
            return None if any(x is None for x in xs) else False

        def NOT(x):
            return None if x is None else not x
        g, r = F.get(ast, "glob"), F.get(ast, "refl")
        eL = ("el", "L", "l")
        if self.index:
            eR = ("m", bool(F.get(ast, "const")))
            da = F.get(ast, ("da", eR, "L"))
            first = False if F.get(ast, "condfail") else True if F.get(ast, "condall") else None
        else:
            eR = ("el", "R", "r")
            da = AND(F.get(ast, ("da", eL, "R")), F.get(ast, ("da", eR, "L")))
            first = F.get(ast, "fm")
        d = F.get(ast, ("d", frozenset((eL, eR))))
        return AND(first, OR(r, AND(g, da), AND(NOT(g), d)))

    PER = ("fm", "condall", "condfail", "condpend", "cand", "emitted", "err", "reported", "built", "same", "dedup", "const?", "handed")

    def close(self, ast):
        """the current combination is left"""
        if F.get(ast, "cand"):
            if F.get(ast, "err"):
                if not F.get(ast, "reported"):
                    ast = self.alarm(ast, "drops the error of a failed check")
            elif not F.get(ast, "emitted") and not F.get(ast, "handed"):
                d = self.decide(ast)
                if d is None:
                    ast = self.alarm(ast, "leaves out a combination without checking all conditions")
                elif d:
                    ast = self.alarm(ast, "leaves out a combination that satisfies all conditions")
            p = F.get(ast, "pend")
            if p:
                ast = self.alarm(ast, "leaves out a combination: not %s" % {"cache": "remembered for the repeated pass", "buf": "handed over to be checked"}[sorted(p)[0]])
        return frozenset(f for f in ast if f[0] not in self.PER and f[0] != "pend" and not isinstance(f[0], tuple))

    def open(self, ast, pend=()):
        ast = self.close(ast)
        self.candidates += 1
        ast = F.set(ast, "cand", True)
        return F.set(ast, "pend", frozenset(pend)) if pend else ast

    def emit(self, ast, g, where):
        self.emissions += 1
        if not (sym(g, "g") or (sym(g, "gm"))):
            return self.alarm(ast, "reports something else than the combination of both matches")
        if F.get(ast, "emitted"):
            ast = self.alarm(ast, "reports a combination twice")
        parts = g[2]
        want = tuple(self.order) if not self.index else ("L", ("m", bool(F.get(ast, "const"))))
        if tuple(parts) != want:
            if set(map(str, parts)) == set(map(str, want)):
                ast = self.alarm(ast, "reports the matches in another order than described")
            elif self.index and parts and parts[0] == "L" and len(parts) == 2:
                ast = self.alarm(ast, "reports the found annotation instead of the constant one or vice versa")
            else:
                ast = self.alarm(ast, "does not report the nodes of both operands")
        if self.index and F.get(ast, "const") is None:
            ast = self.alarm(ast, "ignores the constant annotation of the searched node")
        if self.index and F.get(ast, "const") and not F.get(ast, "dedup"):
            ast = self.alarm(ast, "reports a node several times when its annotation is replaced by a constant one")
        if not F.get(ast, "err"):
            d = self.decide(ast)
            if d is None:
                ast = self.alarm(ast, "reports a combination without checking all conditions")
            elif not d:
                ast = self.alarm(ast, "reports a combination that does not satisfy the conditions")
        ast = F.set(F.set(ast, "emitted", True), "built", None)
        return ast

    # --- values
    def elem(self, v):
        """normal form of a single match"""
        if sym(v, "el"):
            return ("el", v[2], v[3])
        if sym(v, "m"):
            return ("m", False)
        if v is not None and v[0] == "a" and sym(fget(v, "0"), "node") and fget(v, "1") == ("x", "constanno"):
            return ("m", True)
        return None

    def field(self, ip, body, base, name, owner):
        if base is None:
            return None
        if sym(base, "entry"):
            return ("x", "op") if name == "op" else ("x", "args") if name == "args" else None
        if sym(base, "args"):
            return ("x", "glob") if name == "global_reflexivity" else ("x", "arg", name)
        if sym(base, "desc"):
            return {"const_output": ("x", "const"), "cond": ("x", "cond"), "qname": ("x", "qname")}.get(name)
        if sym(base, "qname") and len(base) == 2:
            return ("x", "qname", name)
        if sym(base, "const") and name in ("@Some", "0"):
            return ("x", "constanno") if name == "0" else SOME(("x", "constanno"))
        if sym(base, "m") and name == "node":
            return ("x", "node", base[2])
        if sym(base, "el") and name == "node":
            return ("x", "node", "el")
        if base[0] == "a" and name == "node" and sym(fget(base, "0"), "node"):
            return fget(base, "0")
        if sym(base, "g") and name == "[]":
            return ("x", "el", base[2][0], owner[2] if isinstance(owner, tuple) and sym(owner, "idx") else "?") if len(base[2]) == 1 else None
        return None

    def branch(self, ip, body, bb, ast, s, taken):
        k = s[1]
        if k in ("glob", "refl", "fmv", "dv", "dav", "cv", "same", "differ"):
            t = bool(taken) if not isinstance(taken, str) else None
            if t is None:
                return ast
            if k in ("glob", "refl"):
                old = F.get(ast, k)
                return None if old not in (None, t) else F.set(ast, k, t)
            if k == "differ":
                k, t = "same", not t
            if k == "same":
                a = F.set(ast, "same", t)
                return F.set(a, "dedup", True) if not t else a
        if k == "const" and taken in ("Some", "None"):
            t = taken == "Some"
            old = F.get(ast, "const")
            if old not in (None, t):
                return None
            ast = F.set(ast, "const", t)
            return ast
        return ast

    def fork(self, ast, key):
        old = F.get(ast, key)
        return [(F.set(ast, key, b), TRUE if b else FALSE) for b in ((True, False) if old is None else (old,))]

    def binop(self, ip, body, op, a, b):
        if op in ("Eq", "Ne") and sym(a, "node") and sym(b, "node") and {a[2], b[2]} == {"R", "next"}:
            return ("x", "same" if op == "Eq" else "differ")
        return None

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return None
        n = short(f["n"])
        own, _, m = n.rpartition("::")
        a0 = args[0] if args else None
        a1 = args[1] if len(args) > 1 else None
        if own == "__private_api" or own == "log":
            return [(ast, None)]
        # operands
        if sym(a0, "src"):
            side = a0[2]
            if m in ("peekable", "into_iter", "fuse", "by_ref", "boxed"):
                return [(ast, a0)]
            if m == "map" and len(args) == 2:
                return [(ast, ("x", "mapped", a0, a1))]
            if m in ("next", "peek"):
                if m == "next" or side != self.inner:
                    ast2 = ast
                if side == self.inner and m == "next":
                    o = self.open(ast, ("cache",) + (("buf",) if self.parallel else ()))
                    return [(o, SOME(OK(group([side])))), (self.close(ast), SOME(ERR())), (self.close(ast), NONE)]
                if m == "next":
                    ast = self.close(ast)
                    if self.index and self.parallel:
                        got = [(F.set(self.open(ast), "pend", frozenset(("buf",))), v) for v in (SOME(OK(group([side]))), SOME(ERR()))]
                        return [(F.set(a, "handed", True), v) for a, v in got] + [(ast, NONE)]
                return [(ast, SOME(OK(group([side])))), (ast, SOME(ERR())), (ast, NONE)]
            if m == "get_desc":
                return [(ast, ("x", "descof", side))]
            if m == "as_nodesearch":
                return [(ast, ("x", "nsopt", side))]
            return None
        if sym(a0, "nsopt") or sym(a0, "ns"):
            if m in ("unwrap", "expect", "unwrap_unchecked"):
                return [(ast, ("x", "ns", a0[2]))]
            if m == "get_node_search_desc":
                return [(ast, ("x", "descsearch", a0[2]))]
        if sym(a0, "descof") and m in ("cloned", "as_ref", "clone"):
            return [(ast, a0)]
        if n == "ExecutionNodeDesc::join":
            o = tuple(x[2] for x in args if sym(x, "descof"))
            return [(F.set(ast, "order", o), OK()), (ast, ERR())]
        # groups of matches
        if own in ("SmallVec", "Vec") and m in ("new", "with_capacity", "default") or n == "Default::default":
            ty = body.ltys[t["d"][0]] if len(t["d"]) == 1 else None
            if ty is not None:
                if adt_name(ty) == "Vec" and ty.peel().a:
                    e = ty.peel().a[0]
                    if e.k == "tuple" and any(x.is_adt("Match") or adt_name(x) == "SmallVec" for x in e.walk()):
                        return [(ast, ("x", "buf"))]
                    if any(x.k == "adt" and x.d.endswith("SmallVec") for x in e.walk()):
                        return [(ast, ("x", "cache"))]
                if adt_name(ty) in ("SmallVec", "Vec") and any(x.is_adt("Match") for x in ty.walk()):
                    return [(ast, group([]))]
        if sym(a0, "g"):
            if m == "index" or (m == "get" and own in ("<impl [T]>", "SmallVec", "slice")):
                if len(a0[2]) == 1 and sym(a1, "idx"):
                    v = ("x", "el", a0[2][0], a1[2])
                    return [(ast, v if m == "index" else SOME(v))]
                return [(ast, ("x", "el", "?", "?") if m == "index" else None)]
            if m in ("append", "extend", "extend_from_slice"):
                p = a1[2] if sym(a1, "g") else ("?",)
                return [(F.set(ast, "built", True), UNIT, {0: group(a0[2] + p)})]
            if m == "push":
                e = self.elem(a1)
                return [(F.set(ast, "built", True), UNIT, {0: group(a0[2] + ((e if e else "?"),))})]
            if m in ("iter", "cloned", "copied", "into_iter", "drain", "to_vec", "as_slice", "as_ref", "clone", "deref", "deref_mut", "collect", "from_iter", "into_vec", "from", "into", "borrow", "as_mut", "to_owned", "chain"):
                if m == "chain":
                    p = a1[2] if sym(a1, "g") else ("?",)
                    return [(F.set(ast, "built", True), group(a0[2] + p))]
                return [(ast, a0)]
        # buffers
        if sym(a0, "cache"):
            if m == "push":
                if a1 == group([self.inner]):
                    ast = F.set(ast, "pend", (F.get(ast, "pend") or frozenset()) - {"cache"} or None)
                elif a1 is not None:
                    ast = self.alarm(ast, "remembers something else than the matches of the inner side")
                return [(ast, UNIT, "keep")]
            if m in ("index", "get", "get_unchecked"):
                o = self.open(ast, ("buf",) if self.parallel else ())
                v = group([self.inner])
                return [(o, v)] if m == "index" else [(o, SOME(v)), (self.close(ast), NONE)]
            if m in ("clear", "pop", "truncate", "remove", "swap_remove", "drain"):
                return [(self.alarm(ast, "forgets matches of the inner side"), None, "keep")]
            if m in ("len", "is_empty"):
                return [(ast, None)]
        if sym(a0, "buf"):
            if m == "push":
                gs = [x for _n, x in a1[2] if sym(x, "g") or (variant(x) == "Ok" and sym(fget(x, "0"), "g"))] if a1 is not None and a1[0] == "a" else []
                if not self.index:
                    if {x[2] for x in gs} != {("L",), ("R",)}:
                        ast = self.alarm(ast, "hands over something else than a combination of both sides")
                    ast = F.set(ast, "pend", (F.get(ast, "pend") or frozenset()) - {"buf"} or None)
                    if not F.get(ast, "pend"):
                        ast = F.set(ast, "emitted", True)  # decided later
                else:
                    ast = F.set(ast, "pend", None)
                old = F.get(ast, "item")
                if old is not None and old != a1 and not self.index:
                    ast = self.alarm(ast, "hands over the sides of a combination in different order")
                if not (self.index and not gs):
                    ast = F.set(ast, "item", a1)
                return [(ast, UNIT, "keep")]
            if m in ("par_iter_mut", "par_iter", "into_par_iter", "par_drain", "drain", "iter", "into_iter", "iter_mut", "map", "with_min_len", "by_ref"):
                return [(ast, a0)]
            if m in ("for_each", "for_each_with", "for_each_init"):
                item = F.get(ast, "item")
                self.checked.add("parallel")
                if item is not None:
                    cl = args[-1]
                    base = frozenset(f for f in ast if f[0] in ("glob", "refl", "const", "order"))
                    items = [item]
                    if self.index:
                        items.append(struct([(k, ERR() if variant(x) == "Ok" else x) for k, x in item[2]]))
                    for it in items:
                        failed = self.index and it is not item
                        start = base if self.index else self.open(base)
                        if failed:
                            start = F.set(F.set(start, "cand", True), "err", True)
                        for a, _v in ip.run_closure(cl, [it], start):
                            self.close(a)
                return [(ast, UNIT, "keep")]
            if m in ("clear", "len", "is_empty"):
                return [(ast, None if m != "clear" else UNIT, "keep")]
        if own == "Sender" and m in ("send", "try_send"):
            if variant(a1) == "Ok":
                ast = self.emit(ast, fget(a1, "0"), body)
            elif variant(a1) == "Err":
                ast = F.set(ast, "reported", True)
            return [(ast, OK(UNIT)), (ast, ERR())]
        # checks
        if m == "filter_match" and len(args) == 3:
            es = [self.elem(x) for x in args[1:3]]
            if es == [("el", "L", "l"), ("el", "R", "r")] or (self.single and es == [("el", self.single, "l"), ("el", self.single, "r")]):
                return [(F.set(ast, "fm", True), OK(TRUE)), (F.set(ast, "fm", False), OK(FALSE)), (F.set(ast, "err", True), ERR())]
            if es == [("el", "R", "r"), ("el", "L", "l")] or (self.single and es == [("el", self.single, "r"), ("el", self.single, "l")]):
                ast = self.alarm(ast, "asks the operator with swapped operands")
            else:
                ast = self.alarm(ast, "asks the operator for other nodes than its operands")
            return [(ast, OK()), (F.set(ast, "err", True), ERR())]
        if m == "is_reflexive":
            return self.fork(ast, "refl")
        if m == "different_to" and len(args) == 2:
            es = [self.elem(x) for x in args]
            return self.fork(ast, ("d", frozenset(es)))
        if m == "different_to_all" and len(args) == 2:
            e = self.elem(a0)
            p = a1[2][0] if sym(a1, "g") and len(a1[2]) == 1 else "?"
            return self.fork(ast, ("da", e, p))
        if sym(a0, "glob") or sym(a0, "cond") or sym(a0, "conds"):
            if sym(a0, "cond") and m in ("iter", "into_iter", "as_slice", "as_ref"):
                return [(ast, ("x", "conds"))]
            if sym(a0, "conds") and m == "next":
                if F.get(ast, "condpend"):
                    ast = self.alarm(ast, "does not check every condition of the searched node")
                r = []
                if not F.get(ast, "condall"):
                    r.append((F.set(ast, "condpend", True), SOME(("x", "condfn"))))
                r.append((F.set(ast, "condall", True), NONE))
                return r
            if m in ("skip", "take", "filter", "step_by", "take_while", "skip_while"):
                return [(self.alarm(ast, "does not check every condition of the searched node"), ("x", "conds"))]
            if m == "is_empty":
                return [(F.set(ast, "condall", True), TRUE), (ast, FALSE)]
        if sym(a0, "condfn") and m in ("call", "call_mut", "call_once"):
            e = self.elem(fget(a1, "0"))
            if e != ("m", False):
                ast = self.alarm(ast, "checks the conditions of the searched node on something else than the found match")
            ast = F.set(ast, "condpend", None)
            return [(ast, OK(TRUE)), (F.set(ast, "condfail", True), OK(FALSE)), (F.set(ast, "err", True), ERR())]
        # candidates of an index join
        if m == "retrieve_matches" and len(args) == 2:
            if self.elem(a1) != ("el", "L", "l"):
                ast = self.alarm(ast, "searches the matches of another node than the left operand")
            return [(ast, ("x", "rm"))]
        if sym(a0, "rm") and m in ("fuse", "map", "into_iter", "map_ok", "map_err", "boxed"):
            return [(ast, a0)]
        if sym(a0, "rm"):
            return [(self.alarm(ast, "does not use all matches the operator found"), a0)] if m in ("filter", "take", "skip", "step_by", "take_while", "skip_while", "filter_map", "filter_ok", "dedup") else None
        if m == "get_keys_for_iterator":
            q = [x for x in args if sym(x, "qname")]
            if q != [("x", "qname", "0"), ("x", "qname", "1")]:
                ast = self.alarm(ast, "does not search the annotation of the searched node")
            if ("x", "rm") not in args:
                ast = self.alarm(ast, "does not use all matches the operator found")
            return [(ast, OK(("x", "cands"))), (F.set(F.set(ast, "cand", True), "err", True), ERR())]
        if sym(a0, "qname") and m in ("as_deref", "as_ref", "as_str", "clone", "deref"):
            return [(ast, a0)]
        if sym(a0, "cands"):
            if m in ("into_iter", "peekable", "iter", "fuse", "by_ref", "as_mut"):
                return [(ast, a0)]
            if m == "next":
                if F.get(ast, "built"):
                    # skips over further annotations of the node that is going to be reported
                    if not F.get(ast, "same") or F.get(ast, "const") is not True:
                        ast = self.alarm(ast, "drops candidates that are not duplicates")
                    return [(F.set(ast, "same", None), SOME(("x", "m", "next")))]
                o = self.open(ast)
                return [(o, SOME(("x", "m", "R"))), (self.close(ast), NONE)]
            if m == "peek":
                return [(F.set(ast, "same", None), SOME(("x", "m", "next"))), (F.set(F.set(ast, "same", None), "dedup", True), NONE)]
            if m == "next_if" and len(args) == 2:
                r = []
                for a, v in ip.run_closure(a1, [("x", "m", "next")], F.set(ast, "same", None)):
                    if sym(v, "same") or sym(v, "differ"):
                        hit = F.set(a, "same", sym(v, "same"))
                        r.append((hit, True))
                        miss = F.set(a, "same", not sym(v, "same"))
                        r.append((F.set(miss, "dedup", True) if sym(v, "same") else miss, False))
                    else:
                        r += [(a, True), (a, False)]
                out = []
                for a, hit in r:
                    if hit:
                        if F.get(a, "built") and (not F.get(a, "same") or F.get(a, "const") is not True):
                            a = self.alarm(a, "drops candidates that are not duplicates")
                        out.append((F.set(a, "same", None), SOME(("x", "m", "next"))))
                    else:
                        out.append((F.set(a, "same", None), NONE))
                out.append((F.set(F.set(ast, "same", None), "dedup", True), NONE))
                return out
            if m in ("filter", "take", "skip", "step_by", "rev", "dedup_by"):
                return [(self.alarm(ast, "drops candidates that are not duplicates"), a0)]
        if sym(a0, "const") and m in ("is_some", "is_none"):
            r = self.fork(ast, "const")
            if m == "is_none":
                r = [(a, FALSE if v == TRUE else TRUE) for a, v in r]
            return r
        return None


def check_single(prog, rep, mod):
    pass


class Check:
    def __init__(self, pid, prog, rep):
        self.prog, self.rep = prog, rep
        rep.rule("joins.condition", "a join reports a combination exactly when the operator, the node conditions and the reflexivity rule accept it")
        rep.rule("joins.create", "sequential and parallel joins are created with the same operands, indexes, operator and arguments")
        self.joins = {}
        for b in prog.bodies.values():
            if b.crate != CRATE or b.kind != "method" or b.selfty is None or b.selfty.k != "adt":
                continue
            r = Roles(b)
            own = prog.adts.get(b.selfty.d)
            if own is None or not any(x.is_adt(b.selfty.d) for x in b.ltys[0].walk()) or r.exec == 0 or not (r.entry or r.op):
                continue
            self.joins.setdefault(b.selfty.d, []).append((b, r))
        rep.floor("joins.condition", "join and filter types", len(self.joins), 5)
        self.kinds = {}
        for aid, cs in sorted(self.joins.items()):
            for b, r in cs:
                self.one(aid, b, r)
        self.create()

    def mod(self, b):
        """functions of the same file"""
        return {x.id for x in self.prog.bodies.values() if x.file == b.file and x.crate == CRATE and x.kind != "promoted"}

    def client(self, b, index, order, inner, parallel, single=None):
        c = Joins(self.prog, self.mod(b), index, order)
        c.inner, c.parallel, c.single = inner, parallel, single
        return c

    def report(self, rule, b, cfg, prob, n):
        if prob:
            for p in sorted(set(prob)):
                self.rep.bad(rule, "%s|%s" % (b.name, p), loc(b), "%s (%s)" % (p, cfg))
        else:
            for _ in range(max(1, n)):
                self.rep.ok(rule, "%s %s" % (b.name, cfg))

    def one(self, aid, b, r):
        prog = self.prog
        index = r.op and not r.entry
        methods = [x for x in prog.bodies.values() if x.kind == "method" and x.selfty is not None and x.selfty.is_adt(aid)]
        self.rep.fns(x for x in self.mod(b))
        step = [x for x in methods if any(short(__import__("vp.facts", fromlist=["callee"]).callee(t)["n"]).endswith("ParallelIterator::for_each") for _i, t in x.calls() if __import__("vp.facts", fromlist=["callee"]).callee(t))]
        parallel = bool(step)
        if not step:
            step = [x for x in methods if x.method == "next"]
        if r.exec == 1 and r.idx == 2:
            return self.filter(b, r)
        if len(step) != 1:
            self.report("joins.condition", b, "step", ["has no recognised step"], 0)
            return
        step = step[0]
        c0 = self.client(b, index, (), "R", parallel)
        ip = Interp(prog, c0)
        outs = ip.run(b.id, tuple(r.args), frozenset()) or []
        states = set()
        for ast, val, _m in outs:
            if variant(val) == "Ok" or (val is not None and val[0] == "a" and variant(val) != "Err"):
                s = fget(val, "0") if variant(val) == "Ok" else val
                if s is not None:
                    states.add((s, F.get(ast, "order")))
        if not states:
            self.report("joins.condition", b, "constructor", ["has no outcome"], 0)
            return
        total = 0
        for s, order in sorted(states, key=str):
            vals = dict(s[2])
            srcs = {n: v[2] for n, v in vals.items() if sym(v, "src")}
            prob = []
            if index:
                order, inner = ("L", "R"), "R"
            else:
                if sorted(srcs.values()) != ["L", "R"]:
                    prob.append("does not keep both operands")
                    self.report("joins.condition", b, "constructor", prob, 0)
                    continue
                # the inner side is the one that is remembered: try both, the right one is the operand that is put into the cache
                inner = None
            best = None
            for inn in ([inner] if inner else ["L", "R"]):
                cl = self.client(b, index, order or (), inn, parallel)
                ip = Interp(prog, cl)
                prob = []
                res = ip.run(step.id, (s,), frozenset()) or []
                # a repeated pass over the remembered inner side
                extra = [n for n, v in vals.items() if variant(v) == "None" and not parallel or variant(v) == "None"]
                for n in extra:
                    ty = dict((x[0], x[1]) for x in prog.adts[aid]["variants"][0]["f"]).get(n)
                    if ty is not None and ty.a and ty.a[0].s == "usize":
                        s2 = struct([(k, v) for k, v in s[2] if k != n] + [(n, SOME(("x", "pos")))])
                        res = list(res) + list(ip.run(step.id, (s2,), frozenset()) or [])
                        cl.repeated = True
                for ast, val, muts in res:
                    v = variant(val)
                    if not parallel:
                        if v == "Some":
                            x = fget(val, "0")
                            if variant(x) == "Ok":
                                ast = cl.emit(ast, fget(x, "0"), step)
                                cl.close(ast)
                            elif variant(x) == "Err":
                                cl.close(F.set(ast, "reported", True))
                            else:
                                cl.alarm(ast, "reports something else than the combination of both matches")
                        else:
                            cl.close(ast)
                    else:
                        cl.close(F.set(ast, "reported", True) if F.get(ast, "err") else ast)
                if not res:
                    cl.bad.append("has no outcome")
                if cl.emissions == 0:
                    cl.bad.append("never reports a combination")
                if cl.candidates == 0:
                    cl.bad.append("never looks at a combination")
                if best is None or len(set(cl.bad)) < len(set(best.bad)):
                    best = cl
            self.report("joins.condition", b, "order %s%s" % ("-".join(map(str, order or ())), ", parallel" if parallel else ""), best.bad, best.emissions)
            total += best.emissions
        self.rep.floor("joins.condition", "reported combinations of %s" % b.name, total, 1)

    def filter(self, b, r):
        """a filter on combinations which have already been joined"""
        cl = self.client(b, False, (), "R", False, single="L")

        class M(Joins):
            pass
        ip = Interp(self.prog, cl)
        done = []
        orig = cl.call

        def call(ip_, body, bb, t, f, ast, args):
            if f is not None and short(f["n"]) == "Iterator::map" and args and sym(args[0], "src"):
                for item, src in ((OK(group(["L"])), "ok"), (ERR(), "err")):
                    for a, v in ip_.run_closure(args[1], [item], frozenset()):
                        done.append((src, a, v))
            return orig(ip_, body, bb, t, f, ast, args)
        cl.call = call
        ip.run(b.id, tuple(r.args), frozenset())
        prob = list(cl.bad)
        n = 0
        for src, ast, v in done:
            n += 1
            out = strip(fget(v, "0"), ("Some",)) if variant(v) == "Ok" else None
            if src == "err" or F.get(ast, "err"):
                if variant(v) != "Err":
                    prob.append("drops the error of a failed check")
            elif out is not None and sym(out, "g"):
                if F.get(ast, "fm") is not True:
                    prob.append("reports a combination the operator does not accept")
            elif F.get(ast, "fm") is not False:
                prob.append("leaves out a combination the operator accepts")
        if not done:
            return
        self.report("joins.condition", b, "filter", prob, n)

    def create(self):
        """where joins are created: (operands, indexes, operator, arguments) of each kind of join"""
        prog = self.prog
        ctors = {b.id: (aid, r) for aid, cs in self.joins.items() for b, r in cs}
        sites = {}
        for b in prog.bodies.values():
            if b.crate != CRATE or b.kind not in ("fn", "method"):
                continue
            r = Roles(b)
            if r.exec != 2 or b.id in ctors or not (r.entry or r.op):
                continue
            sites[b.id] = (b, r)
        n = 0

        class C(Joins):
            def call(self2, ip, body, bb, t, f, ast, args):
                gid = f and (f.get("res") or f["id"])
                if gid in ctors:
                    got.append((gid, tuple(args), F.get(ast, "inv")))
                    return [(ast, None)]
                if f is not None:
                    nm = short(f["n"])
                    if nm.endswith("::get_inverse_operator"):
                        return [(F.set(ast, "inv", True), OK(SOME(("x", "iop")))), (ast, OK(NONE)), (ast, ERR())]
                    if nm.endswith("::as_nodesearch") and sym(args[0], "src"):
                        return [(ast, ("x", "nsopt", args[0][2]))]
                    if nm.endswith("::is_some") and sym(args[0], "nsopt"):
                        return [(ast, TRUE), (ast, FALSE)]
                return super().call(ip, body, bb, t, f, ast, args)

            def field(self2, ip, body, base, name, owner):
                if base is not None and base[0] == "x" and base[1] in ("op", "iop") and (name.startswith("@") or name == "0"):
                    return base
                return super().field(ip, body, base, name, owner)
        kinds = {}
        for sid, (b, r) in sorted(sites.items()):
            if not r.entry:
                continue
            got = []
            cl = C(prog, set(sites), False, ())
            cl.inner, cl.parallel, cl.single = "R", False, None
            ip = Interp(prog, cl)
            ip.run(b.id, tuple(r.args), frozenset())
            prob = []
            for gid, args, inv in got:
                n += 1
                aid, cr = ctors[gid]
                vals = {}
                for role, v in zip(cr.args, args):
                    if role is not None:
                        vals[role[1:]] = v
                index = cr.op and not cr.entry
                if not index:
                    want = {("src", "L"): ("x", "src", "L"), ("src", "R"): ("x", "src", "R"), ("idx", "l"): ("x", "idx", "l"), ("idx", "r"): ("x", "idx", "r"), ("entry",): ("x", "entry")}
                    for k, w in want.items():
                        if k in vals and vals[k] is not None and vals[k] != w:
                            prob.append("creates a %s with exchanged or wrong operands" % aid.rsplit("::", 1)[1])
                    kinds.setdefault(aid, set()).add("loop")
                    continue
                op = vals.get(("op",))
                swapped = op == ("x", "iop")
                lo = ("x", "src", "R") if swapped else ("x", "src", "L")
                li = ("x", "idx", "r") if swapped else ("x", "idx", "l")
                de = ("x", "descsearch", "L" if swapped else "R")
                if op not in (("x", "op"), ("x", "iop")):
                    prob.append("creates an index join with an unknown operator")
                    continue
                if vals.get(("src", "L")) != lo or vals.get(("idx", "l")) != li:
                    prob.append("creates an index join of the %soperator that starts at the wrong operand" % ("inverse " if swapped else ""))
                if vals.get(("desc",)) not in (de, None):
                    prob.append("creates an index join of the %soperator that searches the wrong operand" % ("inverse " if swapped else ""))
                ar = vals.get(("args",))
                if ar is not None and ar[0] == "a":
                    if fget(ar, "global_reflexivity") != ("x", "glob"):
                        prob.append("creates an index join with another reflexivity rule")
                    lr = (fget(ar, "left"), fget(ar, "right"))
                    if lr not in ((("x", "arg", "right"), ("x", "arg", "left")) if swapped else (("x", "arg", "left"), ("x", "arg", "right")),):
                        prob.append("creates an index join with exchanged arguments")
                elif ar is not None and ar != ("x", "args"):
                    prob.append("creates an index join with unknown arguments")
                kinds.setdefault(aid, set()).add("inverse" if swapped else "forward")
            self.report("joins.create", b, "%d created joins" % len(got), prob, len(got))
        sigs = sorted(tuple(sorted(v)) for v in kinds.values())
        self.rep.floor("joins.create", "created joins", n, 6)
        if len(kinds) >= 4 and any(sigs.count(x) < 2 for x in sigs):
            self.rep.bad("joins.create", "variants", "-", "sequential and parallel joins are not created for the same operands: %s" % sigs)


def check(pid, prog, rep):
    Check(pid, prog, rep)
