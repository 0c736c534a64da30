"""C19: what only wraps another object answers each question by asking the wrapped object the same question.

Each method of a wrapper is interpreted with a symbolic wrapped object (calls are uninterpreted terms, see ops.Terms); its
outcomes are compared with the term the wrapped object answers with.

 wrap.enum     an enumeration of operators hands each call on, for each of its variants
 wrap.negation a negated operator accepts exactly what the wrapped one does not accept and inherits the rest
 wrap.spec     a specification of a negated operator
 wrap.union    a union of edge containers
 wrap.default  answers by default are made from the matching question"""
from ..facts import callee, short
from ..interp import Interp, OK, ERR, SOME, NONE, fget, variant
from ..report import loc
from .layers import F, struct, sym, strip
from .joins import adt_name
from .ops import Ops, Terms, accepts, last, BASE, show, mentions, canon

BINOP = "BinaryOperator"
SPEC = "BinaryOperatorSpec"
EDGES = "EdgeContainer"
W = ("x", "w")


class Hand(Terms):
    def event(self, ip, body, ast, m, args, f, dty):
        if m in ("as_binary_operator", "as_ref", "deref", "into_any") and args and sym(args[0]):
            return [(ast, args[0])]
        return None


class Union(Terms):
    """knows whether all containers were asked"""
    conts = None

    def call(self, ip, body, bb, t, f, ast, args):
        if f is not None:
            m = short(f["n"]).rpartition("::")[2]
            if m == "next" and args and args[0] == self.conts:
                el = ("x", "elem", args[0])
                b = self.forget(ast, el)
                return [(F.set(b, "asked", "some"), SOME(el), "keep"), (F.set(b, "asked", "all"), NONE, "keep")]
            if m in ("first", "last", "nth", "take", "skip", "find", "step_by", "get", "filter", "split_first") and args and args[0] == self.conts:
                self.partial.add(m)
        return super().call(ip, body, bb, t, f, ast, args)


class Wrap(Ops):
    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        rep.rule("wrap.enum", "an enumeration of operators hands each question on to the operator it contains, with the same arguments")
        rep.rule("wrap.negation", "a negated operator accepts exactly the pairs the original operator does not accept and takes everything else from it")
        rep.rule("wrap.spec", "a specification of a negated operator needs and creates what the original specification needs and creates, and does not bind")
        rep.rule("wrap.union", "a union of edge containers returns what each container returns for the same question, and every error")
        rep.rule("wrap.default", "an answer by default is made from the matching question")
        self.traits = {i: t for i, t in prog.traits.items()}
        n = self.enums()
        k = self.negations()
        s = self.specs()
        u = self.unions()
        self.defaults()
        rep.floor("wrap.enum", "methods of enumerations", n, 10)
        rep.floor("wrap.negation", "negations", k, 1)
        rep.floor("wrap.spec", "specifications", s, 1)
        rep.floor("wrap.union", "unions", u, 1)

    def items(self, trait):
        for i, t in self.traits.items():
            if last(i) == trait:
                return [(x["n"], x["default"]) for x in t["items"]]
        return []

    def dyntrait(self, ty):
        for x in ty.walk():
            if x.k == "dyn":
                for w in (BASE, "BinaryOperatorIndex", SPEC, EDGES):
                    if w in x.s:
                        return w
        return None

    def is_wrapped(self, ty, what):
        s = self.dyntrait(ty)
        if s is not None and (s in what):
            return True
        return any(x.k == "adt" and adt_name(x) in what for x in ty.walk())

    def traits_of(self, d):
        return sorted({last(b.trait).split("<")[0] for b in self.bodies if b.kind == "method" and b.trait and b.selfty is not None and b.selfty.is_adt(d)})

    def methods(self, d, trait):
        return {b.method: b for b in self.bodies if b.kind == "method" and b.trait and last(b.trait).split("<")[0] == trait and b.selfty is not None and b.selfty.is_adt(d)}

    def go(self, b, args, client=Hand):
        own = {x.id for x in self.bodies if x.crate == b.crate and x.file == b.file and x.kind in ("closure", "fn")}
        own |= {x.id for x in self.bodies if x.kind == "method" and not x.trait and x.file == b.file}
        cl = client(self.prog, own)
        cl.partial = set()
        if client is Union:
            cl.conts = args[0][2][0][1] if args[0][0] == "a" and args[0][2] else None
        self.rep.fns([b.id])
        out = Interp(self.prog, cl, max_env=400).run(b.id, tuple((list(args) + [None] * b.argc)[:b.argc]), frozenset())
        return out, cl

    def outcomes(self, out):
        """values on success, is a failure possible"""
        vals, err = set(), False
        for ast, v, _m in out or []:
            if F.get(ast, "failed") or variant(v) == "Err":
                err = True
                if variant(v) != "Err" and v is not None:
                    vals.add(("failed", v))
            else:
                vals.add(v)
        return vals, err

    def delegates(self, b, selfv, w, m, rule, what):
        args = [("x", "arg", i) for i in range(b.argc - 1)]
        out, _c = self.go(b, [selfv] + args)
        vals, _e = self.outcomes(out)
        want = canon(m, tuple([w] + args))
        good = {want, OK(want)} | ({("not", want)} if False else set())
        if vals and vals <= good:
            self.rep.ok(rule, "%s %s" % (b.name, what))
            return True
        if out is None or not vals:
            self.bad(rule, b, "%s: the answer is not known" % what, b.name)
        else:
            self.bad(rule, b, "%s: the question is not handed on, the answer is %s" % (what, ", ".join(sorted(show(v) for v in vals - good))[:120]), b.name)
        return False

    # --- enumerations
    def enums(self):
        n = 0
        for d, a in sorted(self.prog.adts.items()):
            if a["crate"] not in self.prog.crates or len(a["variants"]) < 2:
                continue
            if not all(len(v["f"]) == 1 and self.dyntrait(v["f"][0][1]) in (BASE, "BinaryOperatorIndex", SPEC, EDGES) for v in a["variants"]):
                continue
            for trait in self.traits_of(d):
                items = self.items(trait)
                ms = self.methods(d, trait)
                names = [x for x, _d in items] if items else sorted(ms)
                for m in names:
                    if trait not in (BASE, "BinaryOperatorIndex", SPEC, EDGES, "Display"):
                        continue
                    if m not in ms:
                        self.rep.bad("wrap.enum", "%s|%s is not handed on" % (last(d), m), d, "%s answers %s by default instead of asking the operator it contains" % (last(d), m))
                        continue
                    for v in a["variants"]:
                        n += 1
                        self.delegates(ms[m], ("a", v["n"], ((v["f"][0][0], W),)), W, m, "wrap.enum", v["n"])
        return n

    # --- structures with one wrapped operator
    def wrappers(self, trait, what):
        for d, a in sorted(self.prog.adts.items()):
            if a["crate"] not in self.prog.crates or len(a["variants"]) != 1:
                continue
            fs = [(n, ty) for n, ty, _p in a["variants"][0]["f"]]
            wr = [n for n, ty in fs if self.is_wrapped(ty, what)]
            if len(wr) == 1 and trait in self.traits_of(d):
                yield d, wr[0], struct([(n, W if n == wr[0] else ("x", "fld", ("x", "self"), n)) for n, _t in fs], last(d))

    def negated(self, d):
        """does the name in explanations have a negation?"""
        ms = self.methods(d, "Display")
        b = ms.get("fmt")
        return b is None or any("!" in s for s in self.strings(b))

    def strings(self, b):
        r = []

        def walk(x):
            if isinstance(x, dict):
                if isinstance(x.get("s"), str):
                    r.append(x["s"])
                if isinstance(x.get("b"), str):
                    r.append(x["b"])
                for y in x.values():
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        for blk in b.bbs:
            walk([s.get("r") for s in blk["s"] if s["k"] == "="])
            walk(blk["t"].get("args"))
        return r

    def negations(self):
        n = 0
        self.negs = {}
        for d, f, me in self.wrappers(BASE, (BASE, "BinaryOperatorIndex", BINOP)):
            ms = self.methods(d, BASE)
            neg = self.negated(d)
            self.negs[last(d)] = (f, neg)
            n += 1
            b = ms.get("filter_match")
            if b is not None:
                l, r = ("x", "l"), ("x", "r")
                out, _c = self.go(b, (me, l, r))
                acc = accepts(out)
                want = {frozenset([(("bool", canon("filter_match", (W, l, r))), not neg)])}
                if acc == want:
                    self.rep.ok("wrap.negation", b.name)
                else:
                    self.bad("wrap.negation", b, "a pair is not accepted exactly if the original operator does %saccept it" % ("not " if neg else ""), d)
            b = ms.get("is_reflexive")
            if b is None:
                self.rep.bad("wrap.negation", "%s|is_reflexive by default" % last(d), d, "whether both sides may be the same node is not asked from the original operator")
            else:
                self.delegates(b, me, W, "is_reflexive", "wrap.negation", "is_reflexive")
            b = ms.get("estimation_type")
            if b is None:
                self.rep.bad("wrap.negation", "%s|estimation by default" % last(d), d, "the estimation does not depend on the original operator")
            else:
                self.estimate(b, me, neg)
            b = ms.get("get_inverse_operator")
            if b is not None:
                g = ("x", "arg", 0)
                out, _c = self.go(b, (me, g))
                for v in self.outcomes(out)[0]:
                    x = strip(v, ("Ok",))
                    if variant(x) == "None" or not neg and x == canon("get_inverse_operator", (W, g)):
                        continue
                    y = strip(x, ("Some", "Base", "Index"))
                    inner = fget(y, f) if variant(y) == last(d) else None
                    if inner is None or strip(inner, ("Base", "Index", "Some")) not in (("x", "some", canon("get_inverse_operator", (W, g))), canon("get_inverse_operator", (W, g))):
                        self.bad("wrap.negation", b, "the inverse operator is not the wrapped inverse of the original operator", d)
            b = ms.get("edge_anno_selectivity")
            if b is not None:
                out, _c = self.go(b, (me,))
                if self.outcomes(out)[0] - {OK(NONE), OK(canon("edge_anno_selectivity", (W,)))}:
                    self.bad("wrap.negation", b, "the selectivity of edge labels is not the one of the original operator", d)
        return n

    def estimate(self, b, me, neg):
        term = canon("estimation_type", (W,))
        out, _c = self.go(b, (me,))
        seen = {}
        for ast, v, _m in out or []:
            if F.get(ast, "failed") or variant(v) == "Err":
                continue
            k = F.get(ast, ("var", term))
            x = strip(v, ("Ok",))
            if not neg and x == term:
                continue
            if k is None:
                self.bad("wrap.negation", b, "the estimation does not depend on the one of the original operator", b.name)
                return
            seen.setdefault(k, set()).add(variant(x))
            if k != variant(x):
                self.bad("wrap.negation", b, "the estimation is of another kind than the one of the original operator", b.name)
        if seen or not neg:
            self.rep.ok("wrap.negation", b.name)
        else:
            self.bad("wrap.negation", b, "the estimation is not known", b.name)

    # --- specifications
    def specs(self):
        n = 0
        for d, f, me in self.wrappers(SPEC, (SPEC,)):
            ms = self.methods(d, SPEC)
            b = ms.get("create_operator")
            if b is None:
                continue
            n += 1
            db, cost = ("x", "arg", 0), ("x", "arg", 1)
            out, _c = self.go(b, (me, db, cost))
            made = None
            vals, _e = self.outcomes(out)
            for v in vals:
                x = strip(v, ("Ok", "Base", "Index"))
                w = self.negs.get(variant(x))
                if w is None or fget(x, w[0]) != canon("create_operator", (W, db, cost)):
                    self.bad("wrap.spec", b, "the created operator does not wrap the operator of the original specification", d)
                    made = None
                    break
                made = w
            if made is None:
                continue
            self.rep.ok("wrap.spec", b.name)
            b = ms.get("necessary_components")
            if b is not None:
                self.delegates(b, me, W, "necessary_components", "wrap.spec", "necessary_components")
            neg = made[1]
            for m, why in (("is_binding", "a negated operator would bind its operands"), ("needs_outgoing_edge", "a negated operator would only look at nodes with edges")):
                b = ms.get(m)
                if b is None:
                    dflt = self.default(SPEC, m)
                    out = self.go(dflt, (me,))[0] if dflt is not None else None
                else:
                    out = self.go(b, (me,))[0]
                vals = self.outcomes(out)[0]
                if neg and vals != {("i", 0)}:
                    self.bad("wrap.spec", b, "%s" % why, d)
                elif not neg and vals != {canon(m, (W,))}:
                    self.bad("wrap.spec", b, "%s is not asked from the original specification" % m, d)
                else:
                    self.rep.ok("wrap.spec", "%s %s" % (last(d), m))
        return n

    # --- unions
    MATCH = {"get_outgoing_edges": ("get_outgoing_edges",), "get_ingoing_edges": ("get_ingoing_edges",), "source_nodes": ("source_nodes",),
             "has_outgoing_edges": ("has_outgoing_edges", "get_outgoing_edges"), "has_ingoing_edges": ("has_ingoing_edges", "get_ingoing_edges"),
             "root_nodes": ("source_nodes", "has_ingoing_edges", "get_ingoing_edges")}

    def unions(self):
        n = 0
        for d, a in sorted(self.prog.adts.items()):
            if a["crate"] not in self.prog.crates or len(a["variants"]) != 1:
                continue
            fs = [(x, ty) for x, ty, _p in a["variants"][0]["f"]]
            if not (fs and any(self.dyntrait(ty) == EDGES and any(x.k == "adt" and last(x.d) == "Vec" for x in ty.walk()) for _x, ty in fs)) or EDGES not in self.traits_of(d):
                continue
            n += 1
            conts = ("x", "containers")
            me = struct([(x, conts if self.dyntrait(ty) == EDGES else ("x", "fld", ("x", "self"), x)) for x, ty in fs], last(d))
            for m, b in sorted(self.methods(d, EDGES).items()):
                if m == "get_statistics":
                    vals = self.outcomes(self.go(b, (me,))[0])[0]
                    if vals != {NONE}:
                        self.bad("wrap.union", b, "the statistics of one container are reported as those of the union", d)
                    continue
                self.union(d, b, m, me, conts)
        return n

    def union(self, d, b, m, me, conts):
        args = [("x", "node")] if b.argc > 1 else []
        out, cl = self.go(b, [me] + args, Union)
        el = ("x", "elem", conts)
        want = [canon(x, tuple([el] + args)) for x in self.MATCH.get(m, (m,))]
        if not out:
            self.bad("wrap.union", b, "the answer is not known", d)
            return
        if cl.partial:
            self.bad("wrap.union", b, "only some of the containers are asked", d)
            return
        good = False
        wrong = set()
        for ast, v, _m in out:
            terms = set()
            self.terms(v, el, terms)
            wrong |= {t for t in terms if t not in want}
            for k, x in ast:
                if isinstance(k, tuple):
                    self.terms(k, el, wrong2 := set())
                    wrong |= {t for t in wrong2 if t not in want}
            good |= bool(terms & set(want))
            if F.get(ast, "asked") == "some" and not F.get(ast, "failed") and not m.startswith("has_") \
                    and not any(isinstance(k, tuple) and k[0] == "var" and x == "Err" for k, x in ast):
                self.bad("wrap.union", b, "not all of the containers are asked", d)
                return
        if m.startswith("has_"):
            good = good or any(mentions(k, w) for ast, _v, _m in out for k, _x in ast if isinstance(k, tuple) for w in want)
        if wrong:
            self.bad("wrap.union", b, "containers are asked for %s" % ", ".join(sorted(show(t) for t in wrong))[:100], d)
        elif not good:
            self.bad("wrap.union", b, "the answer does not contain what the containers return", d)
        else:
            self.rep.ok("wrap.union", b.name)

    def terms(self, v, el, out):
        if not v:
            return
        if isinstance(v, tuple) and len(v) == 4 and v[:2] == ("x", "t") and v[3] and v[3][0] == el:
            out.add(v)
        if isinstance(v, tuple):
            for x in v:
                if isinstance(x, tuple):
                    self.terms(x, el, out)

    # --- default answers
    def defaults(self):
        for m, want in (("has_outgoing_edges", {"get_outgoing_edges"}), ("has_ingoing_edges", {"get_ingoing_edges"}), ("root_nodes", {"source_nodes", "has_ingoing_edges", "get_ingoing_edges"})):
            b = self.default(EDGES, m)
            if b is None:
                continue
            used = set()
            names = {x for x, _d in self.items(EDGES)}
            for x in self.prog.bodies.values():
                if x.id == b.id or x.kind == "closure" and self.prog.root_fn(x.id).id == b.id:
                    for _bb, t in x.calls():
                        f = callee(t)
                        k = short(f["n"]).rpartition("::")[2] if f else None
                        if k in names:
                            used.add(k)
            if not used or used - want:
                self.bad("wrap.default", b, "%s is answered by asking %s" % (m, ", ".join(sorted(used)) or "nothing"), m)
            else:
                self.rep.ok("wrap.default", b.name)
