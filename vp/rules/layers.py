"""C24: a disk-based map answers from all of its layers, newest first.

The map type is found by its fields (an in-memory BTreeMap of optional values, an optional on-disk index, an optional
read-only table). Each of its operations is interpreted abstractly over the finite set of layer states
(absent / deleted / value per layer, layer missing or empty): no keys or values are computed, only which layer an answer
comes from."""
import itertools
from ..facts import short
from ..interp import Client, Interp, OK, ERR, SOME, NONE, UNIT, TRUE, FALSE, A, fget, variant
from ..report import loc

CRATE = "graphannis_core"
KEY = ("x", "key")
VAL = ("x", "value")
KB = ("x", "kb")
STRUCTS = ("BTreeMap", "BtreeIndex", "Table")


def struct(fs, v=None):
    return ("a", v, tuple(sorted((n, x) for n, x in fs if x is not None)))


def strip(v, names=("Borrowed", "Owned")):
    while v is not None and variant(v) in names:
        v = fget(v, "0")
    return v


def sym(v, kind=None):
    return v is not None and v[0] == "x" and (kind is None or v[1] == kind)


class F:
    """client state: an immutable set of facts"""

    @staticmethod
    def get(ast, k, d=None):
        for f in ast:
            if f[0] == k:
                return f[1]
        return d

    @staticmethod
    def set(ast, k, v):
        return frozenset([f for f in ast if f[0] != k] + ([(k, v)] if v is not None else []))


def layer_of(v):
    return v[2] if sym(v) and v[1] in ("layer",) else None


def find_layer(v):
    """the layer handed over in some argument, possibly below Some"""
    v = strip(v, ("Some", "Borrowed", "Owned"))
    return layer_of(v)


class Layers(Client):
    def __init__(self, prog, mod, opaque):
        self.prog = prog
        self.mod = mod
        self.opaque = opaque          # method ids that are not entered, with their handler
        self.bad = []
        self.structs = set()

    def interesting(self, bid):
        return bid in self.mod and bid not in self.opaque

    def field(self, ip, body, base, name, owner):
        if sym(base, "bufslice"):
            return base
        return None

    def alarm(self, ast, what):
        self.bad.append(what)
        return F.set(ast, "bad", what)

    # --- state of the searched key in a layer
    def state(self, ast, layer, tomb=True):
        s = F.get(ast, layer)
        if s is not None:
            return [(ast, s)]
        if F.get(ast, "e" + layer) is True:
            return [(F.set(ast, layer, "abs"), "abs")]
        return [(F.set(ast, layer, s), s) for s in (("abs", "tomb", "val") if tomb else ("abs", "val"))]

    def entry(self, s, layer):
        return NONE if s == "abs" else SOME(NONE) if s == "tomb" else SOME(SOME(("x", "val", layer)))

    def write(self, ast, layer, s):
        if F.get(ast, "o" + layer) is None:
            ast = F.set(ast, "o" + layer, F.get(ast, layer, "?"))
        return F.set(ast, layer, s)

    def check_filter(self, ip, closure, kind, ast):
        """does this closure drop deleted entries and only these?"""
        k, v = ("x", "k"), ("x", "v")

        def results(item):
            return [r for _a, r in ip.run_closure(closure, [item], frozenset())]

        def ok(item, want):
            rs = results(item)
            if kind == "filter":
                return all(r == (TRUE if want == "Some" else FALSE) for r in rs) and rs
            return rs and all(variant(r) == want for r in rs)

        plain = ok(struct((("0", k), ("1", NONE))), "None") and ok(struct((("0", k), ("1", SOME(v)))), "Some")
        if plain:
            return True
        return ok(OK(struct((("0", k), ("1", NONE)))), "None") and ok(OK(struct((("0", k), ("1", SOME(v))))), "Some") and ok(ERR(), "Some")

    def rangeinfo(self, ast, v):
        if sym(v, "range"):
            return "range"
        if variant(v) == "RangeFull":
            return "full"
        return "?"

    def boundinfo(self, ast, lo, hi):
        if variant(lo) == "Unbounded" and variant(hi) == "Unbounded" and F.get(ast, "start") is None and F.get(ast, "end") is None:
            return "full"
        for w, b in (("start", lo), ("end", hi)):
            want = F.get(ast, w)
            if want is None or variant(b) != want:
                return "?"
            if want != "Unbounded" and fget(b, "0") != ("x", "kb", w):
                return "?"
        return "range"

    def cmp(self, ast, a, b):
        """[(ast, 'lt'|'eq'|'gt')] for two comparable symbols, or None"""
        return None

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return None
        n = short(f["n"])
        own, _, m = n.rpartition("::")
        gid = f.get("res") or f["id"]
        a0 = args[0] if args else None
        if gid in self.opaque:
            return self.opaque[gid](self, ip, ast, args)
        if own == "__private_api" or n == "log::max_level":
            return [(ast, None)]
        lay = layer_of(a0)
        if lay == "c0" and own == "BTreeMap":
            return self.c0(ip, ast, m, args)
        if lay == "c1" and own == "BtreeIndex":
            return self.c1(ip, ast, m, args)
        if lay == "c2" and own == "Table":
            return self.c2(ip, ast, m, args)
        if n == "Default::default" or (own == "BTreeMap" and m == "new"):
            ty = body.ltys[t["d"][0]] if len(t["d"]) == 1 else None
            if own == "BTreeMap" or (ty is not None and ty.is_adt("collections::btree::map::BTreeMap")):
                return [(ast, ("x", "empty"))]
            return None
        if n == "Clone::clone" and (sym(a0) or variant(a0) == "RangeFull"):
            return [(ast, a0)]
        if n == "KeySerializer::create_key":
            if sym(a0, "bound"):
                return [(ast, ("x", "kb", a0[2]))]
            if sym(a0, "key"):
                return [(ast, ("x", "kb") + tuple(a0[2:]))]
            return None
        if n == "KeySerializer::parse_key":
            if sym(a0, "cur") or sym(a0, "rawk"):
                return [(ast, OK(("x", "parsed"))), (F.set(ast, "err", True), ERR())]
            return [(ast, OK()), (F.set(ast, "err", True), ERR())]
        if n == "Options::deserialize":
            if len(args) > 1 and sym(args[1], "raw"):
                r = []
                for s in ("tomb", "val"):
                    if F.get(ast, "buf", s) == s:
                        a = F.set(ast, "buf", s)
                        if args[1][2] == "c2":
                            if F.get(ast, "c2") not in (None, "some", s):
                                continue
                            a = F.set(a, "c2", s)
                        r.append((a, OK(SOME(("x", "val", "c2")) if s == "val" else NONE)))
                return r + [(F.set(ast, "err", True), ERR())]
            return None
        if own == "SSIterator" and a0 is not None:
            r = self.table_it(ip, ast, m, args)
            if r is not None:
                return r
        if n in ("PartialEq::eq", "PartialEq::ne", "PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge", "Ord::cmp") and len(args) == 2:
            r = self.cmp(ast, args[0], args[1])
            if r is not None:
                table = {"eq": ("eq",), "ne": ("lt", "gt", "ne"), "lt": ("lt",), "le": ("lt", "eq"), "gt": ("gt",), "ge": ("gt", "eq")}
                if m == "cmp":
                    return [(a, ("a", {"lt": "Less", "eq": "Equal", "gt": "Greater"}.get(o), ())) for a, o in r]
                return [(a, TRUE if o in table[m] else FALSE) for a, o in r]
        if own in ("SmallVec", "Vec") and m in ("as_slice", "as_ref", "as_mut_slice"):
            return [(ast, a0)]
        if n == "RangeBounds::start_bound" or n == "RangeBounds::end_bound":
            w = "start" if m == "start_bound" else "end"
            if sym(a0, "range"):
                return [(F.set(ast, w, "Unbounded"), A("Unbounded"))] + [(F.set(ast, w, x), A(x, ("x", "bound", w))) for x in ("Included", "Excluded")]
            if variant(a0) == "RangeFull":
                return [(ast, A("Unbounded"))]
            return None
        if own == "Bound" and m == "map" and variant(a0):
            if variant(a0) == "Unbounded":
                return [(ast, a0)]
            return [(a, A(variant(a0), v)) for a, v in ip.run_closure(args[1], [fget(a0, "0")], ast)]
        if own == "empty" or n == "iter::empty":
            return [(ast, ("x", "it", "none", "ok", "*"))]
        if own == "once" and variant(a0) == "Err":
            return [(F.set(ast, "err", True), ("x", "errit"))]
        if sym(a0, "it") and (own in ("Iterator", "Itertools", "Peekable", "DoubleEndedIterator")):
            r = self.it(ip, body, ast, m, args)
            if r is not None:
                return r
        if m in ("swap", "take", "replace") and own == "mem":
            if m == "swap":
                return [(ast, UNIT, {0: args[1], 1: args[0]})]
            if sym(a0, "layer") and a0[2] == "c0":
                return [(ast, a0, {0: ("x", "empty")})]
            if m == "take" and variant(a0) in ("Some", "None"):
                return [(ast, a0, {0: NONE})]
        if n == "Option::take" and variant(a0) in ("Some", "None") and args:
            return [(ast, a0, {0: NONE})]
        return None

    def need_key(self, ast, v, want=(KEY,)):
        return ast if strip(v, ("Some",)) in want else self.alarm(ast, "looks up something else than the given key")

    def c0(self, ip, ast, m, args):
        a0 = args[0]
        if m in ("get", "contains_key", "get_mut"):
            ast = self.need_key(ast, args[1])
            return [(a, self.entry(s, "c0") if m != "contains_key" else (FALSE if s == "abs" else TRUE)) for a, s in self.state(ast, "c0")]
        if m == "insert":
            ast = self.need_key(ast, args[1])
            v = variant(args[2])
            if v == "Some" and fget(args[2], "0") not in (VAL, None):
                ast = self.alarm(ast, "inserts something else than the given value")
            return [(self.write(ast, "c0", "tomb" if v == "None" else "val"), None)]
        if m == "remove":
            ast = self.need_key(ast, args[1])
            return [(self.write(a, "c0", "abs"), self.entry(s, "c0")) for a, s in self.state(ast, "c0")]
        if m == "is_empty":
            e = F.get(ast, "ec0")
            if e is None and F.get(ast, "c0") in ("tomb", "val"):
                return [(ast, FALSE)]
            return [(F.set(ast, "ec0", b), TRUE if b else FALSE) for b in ((True, False) if e is None else (e,))]
        if m == "clear":
            return [(F.set(self.write(ast, "c0", "abs"), "ec0", True), UNIT, {0: ("x", "empty")})]
        if m in ("iter", "into_iter", "range"):
            info = "full" if m != "range" else self.rangeinfo(ast, args[1])
            return [(ast, ("x", "it", "c0", "raw", info))]
        if m == "len":
            return [(ast, ("x", "len"))]
        return None

    def c1(self, ip, ast, m, args):
        err = (F.set(ast, "err", True), ERR())
        if m in ("get", "contains_key"):
            ast = self.need_key(ast, args[1])
            return [err] + [(a, OK(self.entry(s, "c1") if m == "get" else (FALSE if s == "abs" else TRUE))) for a, s in self.state(ast, "c1")]
        if m == "is_empty":
            e = F.get(ast, "ec1")
            return [(F.set(ast, "ec1", b), TRUE if b else FALSE) for b in ((True, False) if e is None else (e,))]
        if m in ("range", "iter", "into_iter"):
            info = "full" if m != "range" else self.rangeinfo(ast, args[1])
            return [err, (ast, OK(("x", "it", "c1", "raw", info)))]
        return None

    def c2(self, ip, ast, m, args):
        if m == "get":
            if args[1] != KB:
                ast = self.alarm(ast, "looks up something else than the serialized key")
            r = [(F.set(ast, "err", True), ERR())]
            if F.get(ast, "c2") in (None, "abs"):
                r.append((F.set(ast, "c2", "abs"), OK(NONE)))
            if F.get(ast, "c2") != "abs":
                r.append((F.set(ast, "c2", F.get(ast, "c2", "some")), OK(SOME(("x", "raw", "c2")))))
            return r
        if m == "iter":
            return [(ast, ("x", "tit"))]
        return None

    # default: an iterator over the table is used to look for a key
    def table_it(self, ip, ast, m, args):
        if not sym(args[0], "tit"):
            return None
        if m == "seek":
            if args[1] != KB:
                ast = self.alarm(ast, "seeks something else than the serialized key")
            return [(F.set(ast, "seek", True), UNIT, {0: args[0]})]
        if m == "current_key":
            if not F.get(ast, "seek"):
                ast = self.alarm(ast, "reads the position of the table before searching for the key")
            r = []
            if F.get(ast, "c2") in (None, "abs"):
                r.append((F.set(ast, "c2", "abs"), NONE))
            if F.get(ast, "c2") != "none":
                r.append((ast, SOME(("x", "cur"))))
            return r
        if m == "valid":
            r = [(ast, TRUE)]
            if F.get(ast, "c2") in (None, "abs"):
                r.append((F.set(ast, "c2", "abs"), FALSE))
            return r
        if m == "current":
            r = [(ast, TRUE, {1: ("x", "cur"), 2: ("x", "raw", "c2")})]
            if F.get(ast, "c2") in (None, "abs"):
                r.append((F.set(ast, "c2", "abs"), FALSE))
            return r
        return None

    def it(self, ip, body, ast, m, args):
        a0 = args[0]
        if m in ("map", "peekable", "fuse", "into_iter", "by_ref", "inspect", "cloned", "copied", "map_err"):
            return [(ast, a0)]
        if m in ("filter_map", "filter_map_ok", "filter", "filter_ok") and a0[3] == "raw":
            good = self.check_filter(ip, args[1], "filter" if m.startswith("filter") and "map" not in m else "filter_map", ast)
            return [(ast, a0[:3] + ("ok" if good else "bad",) + a0[4:])]
        if m in ("filter_map", "filter", "filter_ok", "filter_map_ok", "take", "skip", "take_while", "skip_while", "step_by", "rev", "map_while"):
            return [(ast, a0[:4] + ("?",))]
        return None


class Point(Layers):
    """lookups of a single key"""

    def cmp(self, ast, a, b):
        s = {a, b}
        if ("x", "cur") in s and KB in s:
            c = F.get(ast, "c2")
            if c in ("val", "tomb"):
                return [(ast, "eq")]
            if c == "abs":
                return [(ast, "ne")]
            return [(F.set(ast, "c2", "val"), "eq"), (F.set(ast, "c2", "abs"), "ne")]
        return None


class Whole(Layers):
    """iterators over the map"""

    def __init__(self, prog, mod, opaque):
        super().__init__(prog, mod, opaque)


def newest(ast, present, orig=False):
    for l in present:
        s = F.get(ast, "o" + l) if orig else None
        if s is None:
            s = F.get(ast, l)
        if s is None or s in ("some", "?"):
            return "unknown", l
        if s in ("val", "tomb"):
            return s, l
    return "abs", None


NAMES = {"c0": "the changes in memory", "c1": "the index on disk", "c2": "the table on disk"}


class Check:
    def __init__(self, pid, prog, rep):
        self.prog, self.rep = prog, rep
        self.found = None
        for aid, a in prog.adts.items():
            if a["crate"] != CRATE or len(a["variants"]) != 1:
                continue
            m = {}
            for n, t, _p in a["variants"][0]["f"]:
                if t.is_adt("collections::btree::map::BTreeMap"):
                    m["c0"] = n
                elif t.is_adt("core::option::Option") and t.a and t.a[0].is_adt("BtreeIndex"):
                    m["c1"] = n
                elif t.is_adt("core::option::Option") and t.a and t.a[0].is_adt("Table"):
                    m["c2"] = n
            if len(m) == 3:
                self.found = (aid, m)
        if self.found is None:
            rep.floor("layers.type", "map with three layers", 0, 1)
            return
        self.aid, self.f = self.found
        self.file = next((b.file for b in prog.bodies.values() if b.kind == "method" and b.selfty is not None and b.selfty.is_adt(self.aid)), None)
        self.bodies = {b.id: b for b in prog.bodies.values() if b.crate == CRATE and b.file == self.file and b.kind != "promoted"}
        self.methods = {b.method: b for b in self.bodies.values() if b.kind == "method" and b.selfty is not None and b.selfty.is_adt(self.aid)}
        self.rules()
        need = ["get", "contains_key", "remove", "insert", "iter", "range", "is_empty", "clear", "write_to", "compact", "new"]
        have = [x for x in need if x in self.methods]
        rep.floor("layers.type", "operations of the map", len(have), len(need))
        if len(have) < len(need):
            return
        rep.fns(self.bodies)
        self.n = 0
        self.point("get")
        self.point("contains_key")
        self.remove()
        self.insert()
        self.whole("iter")
        self.whole("range")
        self.is_empty()
        self.clear()
        self.create()
        self.compact()
        self.write()
        self.iterators()
        rep.floor("layers.read", "states of the layers", self.n, 60)

    def rules(self):
        r = self.rep.rule
        r("layers.type", "the disk-based map and its operations are recognised")
        r("layers.read", "a lookup answers from the newest layer that has an entry for the key; a deleted entry hides older layers")
        r("layers.remove", "after removing a key no layer reports a value for it; after inserting one the value is the newest")
        r("layers.iterate", "iterators over the map or a range include every layer that may contain entries, with the same range, without deleted entries")
        r("layers.merge", "merging the layers advances all of them, reports each key once, with its newest value and without deleted entries")
        r("layers.table", "iterating (a range of) the table on disk reports exactly the entries in the range that are not deleted")
        r("layers.write", "compacting moves every entry to the next layer and writing saves every entry of the map")

    def selfs(self):
        """all combinations of existing layers"""
        for h1, h2 in itertools.product((False, True), repeat=2):
            s = struct(((self.f["c0"], ("x", "layer", "c0")), (self.f["c1"], SOME(("x", "layer", "c1")) if h1 else NONE), (self.f["c2"], SOME(("x", "layer", "c2")) if h2 else NONE)))
            present = ["c0"] + (["c1"] if h1 else []) + (["c2"] if h2 else [])
            yield "+".join(present), present, s

    def run(self, client, b, args, ast=frozenset()):
        ip = Interp(self.prog, client)
        outs = ip.run(b.id, tuple((list(args) + [None] * b.argc)[: b.argc]), ast)
        return outs or []

    def report(self, rule, b, cfg, problems):
        if problems:
            for p in sorted(set(problems)):
                self.rep.bad(rule, "%s|%s" % (b.method or b.name, p), loc(b), "%s (%s, existing layers: %s)" % (p, b.method or b.name, cfg))
        else:
            self.rep.ok(rule, "%s %s" % (b.method or b.name, cfg))

    def stop(self):
        """methods that are summarised: evicting only moves entries between layers (checked on its own)"""
        def io(client, ip, ast, args):
            return [(ast, OK(UNIT)), (F.set(ast, "err", True), ERR())]
        return {b.id: io for n, b in self.methods.items() if n not in ("get", "contains_key", "iter", "range", "is_empty") and b.argc == 1 and b.ltys[1].k == "ref" and b.ltys[1].mut and b.ltys[0].is_adt("core::result::Result")}

    def answer(self, ast, res, present):
        """problem of the answer of a lookup or None; res: value inside of Ok"""
        if variant(res) in ("Some", "None"):
            got = "val" if variant(res) == "Some" else "no"
            v = strip(fget(res, "0"))
        elif res is not None and res[0] == "i":
            got, v = ("val" if res[1] else "no"), None
        else:
            return "returns an answer that does not follow from the layers"
        st, l = newest(ast, present, True)
        if st == "unknown":
            return "answers without asking %s" % NAMES[l]
        if (st == "val") != (got == "val"):
            if st == "tomb":
                return "reports an entry that was deleted in %s" % NAMES[l]
            return "misses the value in %s" % NAMES[l] if st == "val" else "reports an entry no layer contains"
        if got == "val" and sym(v, "val") and v[2] != l:
            return "returns the value of %s instead of the newer one of %s" % (NAMES[v[2]], NAMES[l])
        return None

    def point(self, name):
        b = self.methods[name]
        for cfg, present, s in self.selfs():
            cl = Point(self.prog, self.bodies, self.stop())
            outs = self.run(cl, b, (s, KEY))
            prob = list(cl.bad)
            if not outs:
                prob.append("has no outcome")
            for ast, val, _m in outs:
                self.n += 1
                if variant(val) == "Err":
                    if not F.get(ast, "err"):
                        prob.append("fails without an error")
                    continue
                if variant(val) == "Ok":
                    val = fget(val, "0")
                elif b.ltys[0].is_adt("core::result::Result"):
                    prob.append("returns an answer that does not follow from the layers")
                    continue
                p = self.answer(ast, val, present)
                if p:
                    prob.append(p)
            self.report("layers.read", b, cfg, prob)

    def remove(self):
        b = self.methods["remove"]
        for cfg, present, s in self.selfs():
            cl = Point(self.prog, self.bodies, self.stop())
            outs = self.run(cl, b, (s, KEY))
            prob = list(cl.bad)
            if not outs:
                prob.append("has no outcome")
            for ast, val, _m in outs:
                self.n += 1
                if variant(val) == "Err":
                    continue
                p = self.answer(ast, fget(val, "0"), present) if fget(val, "0") is not None else None
                if p:
                    prob.append(p)
                st, l = newest(ast, present)
                if st == "val":
                    prob.append("leaves the value in %s" % NAMES[l])
                elif st == "unknown":
                    prob.append("may leave a value in %s" % NAMES[l])
            self.report("layers.remove", b, cfg, prob)

    def insert(self):
        b = self.methods["insert"]
        for cfg, present, s in self.selfs():
            cl = Point(self.prog, self.bodies, self.stop())
            outs = self.run(cl, b, (s, KEY, VAL))
            prob = list(cl.bad)
            if not outs:
                prob.append("has no outcome")
            for ast, val, _m in outs:
                self.n += 1
                if variant(val) == "Err" and not F.get(ast, "err"):
                    prob.append("fails without an error")
                if variant(val) != "Err" and F.get(ast, "c0") != "val":
                    prob.append("does not store the value in memory")
            self.report("layers.remove", b, cfg, prob)

    # --- iterators
    def parts(self, v, top=True):
        """[(layer, state, range)] an iterator value consists of"""
        if v is None:
            return []
        if sym(v, "it"):
            return [(v[2], v[3] if top else "ok" if v[3] == "raw" else v[3], v[4])]
        if sym(v, "tit"):
            return [("c2", "ok", "full")]
        if sym(v, "errit"):
            return [("err", "ok", "*")]
        if v[0] == "a":
            r = []
            for _n, x in v[2]:
                r += self.parts(x, False)
            return r
        return []

    def range_new(self):
        """constructors of the module that take a reference to the table and two bounds"""
        r = {}
        for b in self.bodies.values():
            if b.kind == "method" and b.argc >= 3 and b.ltys[1].is_adt("Bound") and b.ltys[2].is_adt("Bound") and any(b.ltys[i].peel().is_adt("Table") for i in range(1, b.argc + 1)):
                def h(client, ip, ast, args):
                    lay = [x for x in args if find_layer(x) == "c2"]
                    return [(ast, ("x", "it", "c2" if lay else "?", "ok", client.boundinfo(ast, args[0], args[1])))]
                r[b.id] = h
        return r

    def whole(self, name):
        b = self.methods[name]
        want = "full" if name == "iter" else "range"
        for cfg, present, s in self.selfs():
            cl = Whole(self.prog, self.bodies, dict(self.stop(), **self.range_new()))
            outs = self.run(cl, b, (s, ("x", "range")) if name == "range" else (s,))
            prob = list(cl.bad)
            if not outs:
                prob.append("has no outcome")
            for ast, val, _m in outs:
                self.n += 1
                if variant(val) == "Err" and F.get(ast, "err"):
                    continue
                it = fget(val, "0") if variant(val) == "Ok" else val
                ps = self.parts(it)
                if any(p[0] == "err" for p in ps) and F.get(ast, "err"):
                    continue
                have = {p[0] for p in ps}
                for l in present:
                    if F.get(ast, "e" + l) is True:
                        continue
                    if l not in have:
                        prob.append("does not iterate over %s" % NAMES[l])
                for l, st, info in ps:
                    if l == "none":
                        continue
                    if st != "ok":
                        prob.append("reports deleted entries of %s or drops others" % NAMES[l])
                    if info not in (want, "*"):
                        prob.append("iterates over another range of %s" % NAMES.get(l, l))
            self.report("layers.iterate", b, cfg, prob)

    def is_empty(self):
        b = self.methods["is_empty"]

        class E(Whole):
            def it(self2, ip, body, ast, m, args):
                if args[0][2] == "all" and m in ("next", "last"):
                    k = F.get(ast, "any")
                    r = []
                    if k in (None, True):
                        r.append((F.set(ast, "any", True), SOME(OK())))
                        r.append((F.set(ast, "err", True), SOME(ERR())))
                    if k in (None, False):
                        r.append((F.set(ast, "any", False), NONE))
                    return r
                return super().it(ip, body, ast, m, args)

        def it_iter(client, ip, ast, args):
            return [(ast, OK(("x", "it", "all", "ok", "full"))), (F.set(ast, "err", True), ERR())]

        def it_range(client, ip, ast, args):
            return [(ast, ("x", "it", "all", "ok", client.rangeinfo(ast, args[1])))]
        op = dict(self.stop())
        op[self.methods["iter"].id] = it_iter
        op[self.methods["range"].id] = it_range
        for cfg, present, s in self.selfs():
            cl = E(self.prog, self.bodies, op)
            outs = self.run(cl, b, (s,))
            prob = list(cl.bad)
            if not outs:
                prob.append("has no outcome")
            for ast, val, _m in outs:
                self.n += 1
                if variant(val) == "Err" and F.get(ast, "err"):
                    continue
                v = fget(val, "0") if variant(val) == "Ok" else val
                if v == TRUE:
                    if F.get(ast, "any") is not False and any(F.get(ast, "e" + l) is not True for l in present):
                        prob.append("calls the map empty without looking at all layers")
                elif v == FALSE:
                    if F.get(ast, "any") is not True:
                        prob.append("calls the map non-empty although all entries may be deleted")
                else:
                    prob.append("returns an answer that does not follow from the layers")
            self.report("layers.iterate", b, cfg, prob)

    def clear(self):
        b = self.methods["clear"]
        for cfg, present, s in self.selfs():
            cl = Point(self.prog, self.bodies, self.stop())
            outs = self.run(cl, b, (s,))
            prob = list(cl.bad)
            if not outs:
                prob.append("has no outcome")
            for ast, val, muts in outs:
                self.n += 1
                m = muts[0] if muts else None
                for l in ("c1", "c2"):
                    if variant(fget(m, self.f[l])) != "None":
                        prob.append("keeps %s" % NAMES[l])
                if fget(m, self.f["c0"]) != ("x", "empty"):
                    prob.append("keeps %s" % NAMES["c0"])
            self.report("layers.remove", b, cfg, prob)

    def create(self):
        b = self.methods["new"]

        class N(Whole):
            def call(self2, ip, body, bb, t, f, ast, args):
                if f is not None:
                    n = short(f["n"])
                    if n in ("Path::is_file", "Path::exists", "Path::try_exists") and sym(args[0], "file"):
                        r = [(F.set(ast, "isfile", x), TRUE if x else FALSE) for x in (True, False)]
                        return r if n != "Path::try_exists" else [(a, OK(v)) for a, v in r]
                    if n == "Table::new_from_file":
                        a = ast if any(sym(x, "file") for x in args) else self2.alarm(ast, "opens another file")
                        return [(a, OK(("x", "layer", "c2"))), (F.set(ast, "err", True), ERR())]
                return super().call(ip, body, bb, t, f, ast, args)
        for given in (True, False):
            cl = N(self.prog, self.bodies, {})
            outs = self.run(cl, b, (SOME(("x", "file")) if given else NONE,))
            prob = list(cl.bad)
            if not outs:
                prob.append("has no outcome")
            for ast, val, _m in outs:
                self.n += 1
                if variant(val) == "Err":
                    if not F.get(ast, "err"):
                        prob.append("fails without an error")
                    continue
                m = fget(val, "0")
                c2 = fget(m, self.f["c2"])
                if given and F.get(ast, "isfile") is not False and c2 != SOME(("x", "layer", "c2")):
                    prob.append("ignores an existing table on disk")
            self.report("layers.iterate", b, "file given" if given else "no file", prob)

    # --- moving entries
    def compact(self):
        b = self.methods["compact"]
        K, V = ("x", "key", "e"), ("x", "opt", "e")

        class C(Layers):
            def step(self2, ast, owned):
                if F.get(ast, "pending"):
                    ast = self2.alarm(ast, "loses an entry of the memory")
                r = []
                if not F.get(ast, "done"):
                    r.append((F.set(F.set(ast, "pending", owned), "some", True), True))
                r.append((F.set(ast, "done", True), False))
                return r

            def call(self2, ip, body, bb, t, f, ast, args):
                if f is not None:
                    n = short(f["n"])
                    own, _, m = n.rpartition("::")
                    a0 = args[0] if args else None
                    if layer_of(a0) == "c0" or sym(a0, "cit"):
                        if (m in ("into_iter", "iter", "drain", "by_ref", "iter_mut", "into_iter_sorted") or m in ("filter", "take", "skip", "take_while", "filter_map", "step_by")):
                            if m in ("filter", "take", "skip", "take_while", "filter_map", "step_by"):
                                ast = self2.alarm(ast, "moves only some entries of the memory")
                            return [(ast, ("x", "cit"))]
                        if sym(a0, "cit") and m == "next":
                            return [(a, SOME(struct((("0", K), ("1", V)))) if y else NONE) for a, y in self2.step(ast, "item")]
                        if m in ("pop_first", "pop_last"):
                            return [(a, SOME(struct((("0", K), ("1", V)))) if y else NONE) for a, y in self2.step(ast, "popped")]
                        if m in ("first_entry", "last_entry"):
                            return [(a, SOME(("x", "occ")) if y else NONE) for a, y in self2.step(ast, "entry")]
                        if m in ("first_key_value", "last_key_value"):
                            return [(a, SOME(struct((("0", K), ("1", V)))) if y else NONE) for a, y in self2.step(ast, "item")]
                        if m == "clear":
                            return [(F.set(ast, "emptied", True), UNIT, {0: ("x", "empty")})]
                        if m == "is_empty":
                            if F.get(ast, "done"):
                                return [(ast, TRUE)]
                            return [(ast, FALSE)] + ([] if F.get(ast, "pending") else [(F.set(ast, "done", True), TRUE)])
                        if m == "remove" and len(args) > 1:
                            return [(ast, None)]
                    if sym(a0, "occ"):
                        if m == "key":
                            return [(ast, K)]
                        if m in ("get", "get_mut"):
                            return [(ast, V)]
                        if m in ("remove", "remove_entry"):
                            if F.get(ast, "pending"):
                                ast = F.set(ast, "pending", "popped")
                            return [(ast, V if m == "remove" else struct((("0", K), ("1", V))))]
                    if layer_of(a0) == "c1" and m == "insert":
                        if args[1] != K or args[2] != V:
                            ast = self2.alarm(ast, "stores something else than the entry of the memory")
                        # a failing insertion leaves the entry in the memory unless it has already been taken out
                        return [(F.set(ast, "pending", None), OK()), (F.set(ast, "err", True), ERR())]
                    if own == "BtreeIndex" and m in ("with_capacity", "new"):
                        return [(ast, OK(("x", "layer", "c1", "new"))), (F.set(ast, "err", True), ERR())]
                return super().call(ip, body, bb, t, f, ast, args)
        for cfg, present, s in self.selfs():
            cl = C(self.prog, self.bodies, {})
            outs = self.run(cl, b, (s,))
            prob = list(cl.bad)
            if not outs:
                prob.append("has no outcome")
            for ast, val, muts in outs:
                self.n += 1
                m = muts[0] if muts else None
                c0 = fget(m, self.f["c0"])
                if variant(val) == "Err":
                    if not F.get(ast, "err"):
                        prob.append("fails without an error")
                    if c0 != ("x", "layer", "c0") or F.get(ast, "pending") == "popped":
                        prob.append("loses entries of the memory when writing them fails")
                    continue
                if F.get(ast, "pending"):
                    prob.append("loses an entry of the memory")
                elif not F.get(ast, "done"):
                    prob.append("does not move all entries of the memory")
                if variant(fget(m, self.f["c1"])) != "Some" and F.get(ast, "some"):
                    prob.append("does not keep the index on disk")
                if "c1" in present and fget(m, self.f["c1"]) != SOME(("x", "layer", "c1")):
                    prob.append("forgets the existing index on disk")
                if "c2" in present and variant(fget(m, self.f["c2"])) != "Some":
                    prob.append("forgets the table on disk")
            self.report("layers.write", b, cfg, prob)

    def write(self):
        b = self.methods["write_to"]
        K, V = ("x", "key", "e"), ("x", "val", "e")

        class W(Layers):
            def call(self2, ip, body, bb, t, f, ast, args):
                if f is not None:
                    n = short(f["n"])
                    own, _, m = n.rpartition("::")
                    a0 = args[0] if args else None
                    if sym(a0, "it") and m == "next" and a0[2] == "all":
                        if F.get(ast, "pending") or a0[4] != "full":
                            ast = self2.alarm(ast, "does not write every entry")
                        r = [(F.set(ast, "done", True), NONE)]
                        if not F.get(ast, "done"):
                            r += [(F.set(ast, "pending", True), SOME(OK(struct((("0", K), ("1", V)))))), (F.set(ast, "err", True), SOME(ERR()))]
                        return r
                    if n == "Options::serialize":
                        return [(ast, OK(("x", "ser", args[1]))), (F.set(ast, "err", True), ERR())]
                    if own == "TableBuilder" and m == "add":
                        if args[1] != ("x", "kb", "e"):
                            ast = self2.alarm(ast, "writes another key")
                        v = args[2]
                        if sym(v, "ser") and v[2] != SOME(V):
                            ast = self2.alarm(ast, "writes the value in another form than it is read")
                        return [(F.set(ast, "pending", None), OK(UNIT)), (F.set(ast, "err", True), ERR())]
                    if own == "TableBuilder" and m == "finish":
                        if F.get(ast, "pending") or not F.get(ast, "done"):
                            ast = self2.alarm(ast, "finishes the table before all entries are written")
                        return [(F.set(ast, "finished", True), OK()), (F.set(ast, "err", True), ERR())]
                return super().call(ip, body, bb, t, f, ast, args)

        def it_iter(client, ip, ast, args):
            return [(ast, OK(("x", "it", "all", "ok", "full"))), (F.set(ast, "err", True), ERR())]

        def it_range(client, ip, ast, args):
            i = client.rangeinfo(ast, args[1])
            if i != "full":
                ast = client.alarm(ast, "does not write every entry")
            return [(ast, ("x", "it", "all", "ok", i))]
        op = {self.methods["iter"].id: it_iter, self.methods["range"].id: it_range}
        cl = W(self.prog, self.bodies, op)
        s = list(self.selfs())[-1][2]
        outs = self.run(cl, b, (s, ("x", "file")))
        prob = list(cl.bad)
        if not outs:
            prob.append("has no outcome")
        for ast, val, _m in outs:
            self.n += 1
            if variant(val) == "Err":
                continue
            if not F.get(ast, "finished"):
                prob.append("does not finish the written table")
        self.report("layers.write", b, "all", prob)

    # --- the iterators of the module
    def iterators(self):
        nexts = [b for b in self.bodies.values() if b.kind == "method" and b.method == "next" and b.selfty is not None]
        k = {"merge": 0, "range": 0, "table": 0}
        for b in nexts:
            a = self.prog.adts.get(b.selfty.d)
            if a is None or len(a["variants"]) != 1:
                continue
            fs = a["variants"][0]["f"]
            if sum(1 for _n, t, _p in fs if t.is_adt("Peekable")) >= 2:
                k["merge"] += 1
                self.merge(b, fs)
            elif sum(1 for _n, t, _p in fs if t.is_adt("Bound")) == 2:
                k["range"] += 1
                self.range_next(b, fs)
                for c in self.bodies.values():
                    if c.kind == "method" and c.selfty is not None and c.selfty.is_adt(b.selfty.d) and c.argc >= 3 and c.ltys[1].is_adt("Bound") and c.ltys[2].is_adt("Bound"):
                        self.range_start(c, fs)
            elif any(t.is_adt("TableIterator") for _n, t, _p in fs):
                k["table"] += 1
                self.table_next(b, fs)
        self.rep.floor("layers.merge", "merging iterator", k["merge"], 1)
        self.rep.floor("layers.table", "iterators over the table", k["range"] + k["table"], 2)

    def merge(self, b, fs):
        # which field holds which layer: by the constructor
        ctor = [c for c in self.bodies.values() if c.kind == "method" and c.selfty is not None and c.selfty.is_adt(b.selfty.d) and c.method != "next"]
        fields = {}
        for c in ctor:
            cl = Whole(self.prog, self.bodies, self.range_new())
            args = []
            for i in range(1, c.argc + 1):
                t = c.ltys[i].peel()
                o = t.is_adt("core::option::Option")
                u = t.a[0].peel() if o else t
                v = None
                for l, nm in (("c0", "BTreeMap"), ("c1", "BtreeIndex"), ("c2", "Table")):
                    if u.k == "adt" and u.d.rsplit("::", 1)[1] == nm:
                        v = SOME(("x", "layer", l)) if o else ("x", "layer", l)
                if v is None and t.k == "param":
                    v = ("x", "range")
                args.append(v)
            for ast, val, _m in self.run(cl, c, args):
                m = fget(val, "0") if variant(val) == "Ok" else val
                if variant(val) == "Err" or m is None or m[0] != "a":
                    continue
                for n, v in m[2]:
                    if sym(v, "it") and v[2] in NAMES:
                        fields[n] = v[2]
        if len(fields) != 3:
            self.report("layers.merge", b, "fields", ["does not hold an iterator for each layer"])
            return
        M = merge_client(self)
        s = struct([(n, ("x", "pit", l)) for n, l in fields.items()])
        cl = M(self.prog, self.bodies, {})
        outs = self.run(cl, b, (s,))
        prob = list(cl.bad)
        if not outs:
            prob.append("has no outcome")
        for ast, val, _m in outs:
            self.n += 1
            if F.get(ast, "bad"):
                continue
            v = variant(val)
            if v == "None":
                for l in NAMES:
                    if F.get(ast, "h" + l) != "end":
                        prob.append("ends although %s may have more entries" % NAMES[l])
            elif v == "Some" and variant(fget(val, "0")) == "Err":
                if not F.get(ast, "err"):
                    prob.append("fails without an error")
            elif v == "Some":
                p = cl.round(ast, fget(val, "0"))
                if p:
                    prob.append(p)
            else:
                prob.append("returns something that does not follow from the layers")
        self.report("layers.merge", b, "all", prob)

    def range_self(self, fs, lo, hi, ex):
        bs = [n for n, t, _p in fs if t.is_adt("Bound")]
        start = [n for n in bs if "start" in n or "min" in n or "low" in n]
        start = start[0] if start else bs[0]
        end = [n for n in bs if n != start][0]
        it = [n for n, t, _p in fs if t.is_adt("TableIterator")]
        flag = [n for n, t, _p in fs if t.s == "bool"]
        r = [(start, lo), (end, hi)] + [(n, ("x", "tit")) for n in it] + [(n, ex) for n in flag]
        return struct(r), start, end, flag

    def bounds(self):
        for a, c in itertools.product(("Included", "Excluded", "Unbounded"), repeat=2):
            lo = A(a, ("x", "sk")) if a != "Unbounded" else A(a)
            hi = A(c, ("x", "ek")) if c != "Unbounded" else A(c)
            yield a, c, lo, hi

    def range_start(self, b, fs):
        for a, c, lo, hi in self.bounds():
            cl = Range(self.prog, self.bodies, {}, a, c)
            _s, start, end, flag = self.range_self(fs, lo, hi, FALSE)
            args = []
            for i in range(1, b.argc + 1):
                t = b.ltys[i].peel()
                args.append(lo if i == 1 else hi if i == 2 else ("x", "layer", "c2") if t.is_adt("Table") else None)
            outs = self.run(cl, b, args)
            prob = list(cl.bad)
            if not outs:
                prob.append("has no outcome")
            for ast, val, _m in outs:
                self.n += 1
                if fget(val, start) != lo or fget(val, end) != hi:
                    prob.append("mixes up the bounds of the range")
                ex = [fget(val, n) for n in flag]
                pos = F.get(ast, "pos")
                if pos is None:
                    prob.append("does not position the iterator")
                    continue
                if pos == "end":
                    continue
                inside = (pos in ("eq", "gt") if a == "Included" else pos == "gt" if a == "Excluded" else True)
                rel = F.get(ast, "rel_e")
                out_e = c != "Unbounded" and (rel == "gt" or (c == "Excluded" and rel == "eq"))
                if a == "Excluded" and pos == "eq":
                    prob.append("stays at the excluded entry before the range")
                if TRUE in ex and inside and not out_e:
                    prob.append("drops a range that has entries")
                if TRUE not in ex and not inside and not out_e:
                    prob.append("starts at an entry before the range")
            self.report("layers.table", b, "%s..%s" % (a, c), prob)

    def range_next(self, b, fs):
        for a, c, lo, hi in self.bounds():
            for ex in (FALSE, TRUE):
                cl = Range(self.prog, self.bodies, {}, a, c)
                s, start, end, flag = self.range_self(fs, lo, hi, ex)
                outs = self.run(cl, b, (s,), frozenset([("pos", "here"), ("ex", ex == TRUE)]))
                self.table_result(b, cl, outs, "%s..%s%s" % (a, c, " exhausted" if ex == TRUE else ""))

    def table_next(self, b, fs):
        cl = Range(self.prog, self.bodies, {}, "Unbounded", "Unbounded")
        it = [n for n, t, _p in fs if t.is_adt("TableIterator")]
        outs = self.run(cl, b, (struct([(n, ("x", "tit")) for n in it]),), frozenset([("pos", "here"), ("ex", False)]))
        self.table_result(b, cl, outs, "whole table")

    def table_result(self, b, cl, outs, cfg):
        prob = list(cl.bad)
        if not outs:
            prob.append("has no outcome")
        for ast, val, _m in outs:
            self.n += 1
            if F.get(ast, "bad"):
                continue
            v = variant(val)
            if v == "None":
                if F.get(ast, "pos") != "end" and not F.get(ast, "ex") and not cl.outside(ast):
                    prob.append("ends although the table has more entries in the range")
                if F.get(ast, "have") and F.get(ast, "buf") != "tomb" and cl.inside(ast):
                    prob.append("loses an entry")
            elif v == "Some" and variant(fget(val, "0")) == "Err":
                if not F.get(ast, "err"):
                    prob.append("fails without an error")
            elif v == "Some":
                item = fget(fget(val, "0"), "0")
                if F.get(ast, "ex"):
                    prob.append("reports entries after the end of the range")
                if not F.get(ast, "have"):
                    prob.append("reports an entry twice")
                if not cl.inside(ast):
                    prob.append("reports an entry that may be outside of the range")
                if F.get(ast, "buf") != "val":
                    prob.append("reports a deleted entry")
                if not F.get(ast, "adv"):
                    prob.append("reports an entry again and again")
                if fget(item, "0") not in (None, ("x", "parsed")) or fget(item, "1") not in (None, ("x", "val", "c2")):
                    prob.append("reports another key or value")
            else:
                prob.append("returns something that does not follow from the table")
        self.report("layers.table", b, cfg, prob)


class Range(Layers):
    """an iterator positioned in the table, relative to two bounds"""

    def __init__(self, prog, mod, opaque, lo, hi):
        super().__init__(prog, mod, opaque)
        self.lo, self.hi = lo, hi

    def inside(self, ast):
        s = F.get(ast, "rel_s")
        e = F.get(ast, "rel_e")
        if self.lo == "Included" and s == "lt" or self.lo == "Excluded" and s in ("lt", "eq"):
            return False
        if self.hi == "Unbounded":
            return True
        return e == "lt" or (self.hi == "Included" and e == "eq")

    def outside(self, ast):
        e = F.get(ast, "rel_e")
        return self.hi != "Unbounded" and (e == "gt" or (self.hi == "Excluded" and e == "eq"))

    def cmp(self, ast, a, b):
        flip = {"lt": "gt", "gt": "lt", "eq": "eq"}
        if sym(b, "cur") and not sym(a, "cur"):
            r = self.cmp(ast, b, a)
            return None if r is None else [(x, flip[o]) for x, o in r]
        if not sym(a, "cur") or b not in (("x", "sk"), ("x", "ek")):
            return None
        k = "rel_s" if b == ("x", "sk") else "rel_e"
        cur = F.get(ast, k)
        if cur is not None:
            return [(ast, cur)]
        if k == "rel_s":
            opts = ("eq", "gt") if self.lo == "Included" else ("gt",)
        else:
            opts = ("lt", "eq", "gt")
        return [(F.set(ast, k, o), o) for o in opts]

    def table_it(self, ip, ast, m, args):
        if not sym(args[0], "tit"):
            return None
        keep = {0: args[0]}
        pos = F.get(ast, "pos")
        if m in ("seek", "seek_to_first"):
            if m == "seek" and args[1] != ("x", "sk"):
                ast = self.alarm(ast, "searches for something else than the start of the range")
            if m == "seek_to_first" and self.lo != "Unbounded":
                ast = self.alarm(ast, "starts before the range")
            ast = F.set(F.set(ast, "rel_e", None), "rel_s", None)
            return [(F.set(ast, "pos", p), UNIT, keep) for p in (("end", "gt", "eq") if m == "seek" else ("end", "gt"))]
        if m == "reset":
            return [(F.set(ast, "pos", "reset"), UNIT, keep)]
        if m == "valid":
            if pos == "here":
                return [(F.set(ast, "pos", "on"), TRUE), (F.set(ast, "pos", "end"), FALSE)]
            return [(ast, FALSE if pos == "end" else TRUE)]
        if m in ("current", "current_key"):
            r = []
            if pos in ("here", "end"):
                e = F.set(ast, "pos", "end")
                r.append((e, FALSE, dict(keep)) if m == "current" else (e, NONE))
            if pos != "end":
                a = ast
                if F.get(a, "have") and pos in ("on", "here", None):
                    if F.get(a, "buf") == "val" and self.inside(a) and F.get(a, "adv"):
                        a = self.alarm(a, "loses an entry")
                    if not F.get(a, "adv"):
                        a = self.alarm(a, "does not advance")
                a = F.set(F.set(F.set(F.set(a, "have", True), "adv", None), "buf", None), "rel_e", None)
                a = F.set(a, "rel_s", pos if pos in ("eq", "gt") else None)
                if pos == "here":
                    a = F.set(a, "pos", "on")
                r.append((a, TRUE, {0: args[0], 1: ("x", "cur"), 2: ("x", "raw", "t")}) if m == "current" else (a, SOME(("x", "cur"))))
            return r
        if m == "advance":
            if pos == "gt" and self.inside(F.set(ast, "rel_s", "gt")) is not False and not self.outside(ast):
                ast = self.alarm(ast, "skips an entry of the range")
            if pos == "eq" and self.lo == "Included":
                ast = self.alarm(ast, "skips an entry of the range")
            if F.get(ast, "adv"):
                ast = self.alarm(ast, "skips an entry of the range")
            if pos in ("on", "here"):
                a = F.set(ast, "adv", True)
                return [(F.set(a, "pos", "here"), TRUE, keep)]
            a = F.set(F.set(ast, "rel_e", None), "rel_s", None)
            return [(F.set(a, "pos", "gt"), TRUE, keep), (F.set(a, "pos", "end"), FALSE, keep)]
        if m == "next":
            if F.get(ast, "have") and F.get(ast, "buf") != "tomb":
                ast = self.alarm(ast, "loses an entry")
            r = [(F.set(ast, "pos", "end"), NONE)]
            a = F.set(F.set(F.set(F.set(ast, "have", True), "adv", True), "buf", None), "rel_e", None)
            if pos != "end":
                r.append((a, SOME(struct((("0", ("x", "cur")), ("1", ("x", "raw", "t")))))))
            return r
        return None


def merge_client(chk):
    class M(Layers):
        def heads(self, ast, l):
            k = "h" + l
            h = F.get(ast, k)
            if h is None:
                return [(F.set(ast, k, s), s) for s in (("end", "item") if l == "c0" else ("end", "item", "err"))]
            return [(ast, h)]

        def item(self, ast, l):
            """value of the head of a layer and the state of its value"""
            v = F.get(ast, "v" + l)
            if l == "c2":
                x = ("x", "val", l)
            else:
                x = NONE if v == "tomb" else SOME(("x", "val", l)) if v == "val" else ("x", "opt", l)
            it = struct((("0", ("x", "key", l)), ("1", x)))
            return it if l == "c0" else OK(it)

        def branch(self, ip, body, bb, ast, sym_, taken):
            if sym_[1] == "opt" and taken in ("Some", "None"):
                k = "v" + sym_[2]
                w = "val" if taken == "Some" else "tomb"
                if F.get(ast, k) not in (None, w):
                    return None
                return F.set(ast, k, w)
            return ast

        def field(self, ip, body, base, name, owner):
            if sym(base, "opt") and (name == "@Some" or name == "0"):
                return ("x", "val", base[2]) if name == "0" else SOME(("x", "val", base[2]))
            return super().field(ip, body, base, name, owner)

        def round(self, ast, out):
            """problem of a completed round; out: reported item (inside of Some) or None"""
            present = [l for l in NAMES if F.get(ast, "h" + l) == "item"]
            unk = [l for l in NAMES if F.get(ast, "h" + l) is None]
            if unk:
                return "does not look at %s" % NAMES[unk[0]]
            ms = {l: F.get(ast, "m" + l) for l in present}
            if all(m is False for m in ms.values()):
                return None
            for l in present:
                if ms[l] is None:
                    return "does not compare the key of %s" % NAMES[l]
                if ms[l] and not F.get(ast, "a" + l):
                    return "does not advance %s: a key is reported again with an older value" % NAMES[l]
                if not ms[l] and F.get(ast, "a" + l):
                    return "skips an entry of %s" % NAMES[l]
            top = next(l for l in NAMES if ms.get(l))
            v = F.get(ast, "v" + top) if top != "c2" else "val"
            if out is None:
                return None if v == "tomb" else "drops an entry of %s" % NAMES[top]
            if v != "val":
                return "reports an entry that is deleted in %s" % NAMES[top]
            it = fget(out, "0")
            val = strip(fget(it, "1"), ("Some",))
            key = fget(it, "0")
            if sym(val, "val") and val[2] != top:
                return "reports the value of %s instead of the newer one of %s" % (NAMES[val[2]], NAMES[top])
            if sym(val, "opt") and val[2] != top:
                return "reports the value of %s instead of the newer one of %s" % (NAMES[val[2]], NAMES[top])
            if sym(key, "key") and not ms.get(key[2]):
                return "reports another key"
            return None

        def new_round(self, ast):
            p = self.round(ast, None)
            if p:
                ast = self.alarm(ast, p)
            for l in NAMES:
                if F.get(ast, "a" + l):
                    ast = F.set(F.set(ast, "h" + l, None), "v" + l, None)
                ast = F.set(F.set(ast, "a" + l, None), "m" + l, None)
            return ast

        def consume(self, ast, l):
            if F.get(ast, "a" + l):
                ast = self.new_round(ast)
            r = []
            for a, h in self.heads(ast, l):
                if h == "end":
                    r.append((a, NONE))
                elif h == "err":
                    r.append((F.set(F.set(a, "err", True), "h" + l, None), SOME(ERR())))
                else:
                    r.append((F.set(a, "a" + l, True), SOME(self.item(a, l))))
            return r

        def cmp(self, ast, a, b):
            if variant(a) == "None" or variant(b) == "None":
                return [(ast, "ne")] if variant(a) != variant(b) else [(ast, "eq")]
            a, b = strip(a, ("Some",)), strip(b, ("Some",))
            if sym(b, "key") and sym(a, "min"):
                a, b = b, a
            if sym(a, "key") and len(a) > 2 and sym(b, "min"):
                k = "m" + a[2]
                m = F.get(ast, k)
                if m is not None:
                    return [(ast, "eq" if m else "ne")]
                return [(F.set(ast, k, True), "eq"), (F.set(ast, k, False), "ne")]
            return None

        def call(self, ip, body, bb, t, f, ast, args):
            if f is not None:
                n = short(f["n"])
                own, _, m = n.rpartition("::")
                a0 = args[0] if args else None
                if sym(a0, "pit"):
                    l = a0[2]
                    if m == "peek":
                        if F.get(ast, "a" + l):
                            ast = self.new_round(ast)
                        return [(a, NONE if h == "end" else SOME(self.item(a, l)) if h == "item" else SOME(ERR())) for a, h in self.heads(ast, l)]
                    if m == "next":
                        return self.consume(ast, l)
                    if m in ("next_if", "next_if_eq"):
                        if F.get(ast, "a" + l):
                            ast = self.new_round(ast)
                        r = []
                        for a, h in self.heads(ast, l):
                            if h == "end":
                                r.append((a, NONE))
                                continue
                            x = self.item(a, l) if h == "item" else ERR()
                            for a2, y in ip.run_closure(args[1], [x], a):
                                if y != FALSE:
                                    r += [(a3, v) for a3, v in self.consume(a2, l)]
                                if y != TRUE:
                                    r.append((a2, NONE))
                        return r
                if n in ("Iterator::min", "Iterator::min_by", "Itertools::min_set", "Ord::min", "cmp::min"):
                    present = [l for l in NAMES if F.get(ast, "h" + l) == "item"]
                    have = set()

                    def walk(v):
                        if sym(v, "key") and len(v) > 2:
                            have.add(v[2])
                        elif v is not None and v[0] == "a":
                            for _n, x in v[2]:
                                walk(x)
                    for v in args:
                        walk(v)
                    if have and any(l not in have for l in present):
                        ast = self.alarm(ast, "does not compare the key of %s" % NAMES[[l for l in present if l not in have][0]])
                    return [(ast, SOME(SOME(("x", "min"))))]
                if m in ("flatten", "box_assume_init_into_vec_unsafe", "into_vec", "iter") and a0 is not None and a0[0] == "a":
                    return [(ast, a0)]
            return super().call(ip, body, bb, t, f, ast, args)
    return M


def check(pid, prog, rep):
    Check(pid, prog, rep)
