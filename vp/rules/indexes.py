"""C05 / C06: the parts of a storage that describe the same thing change together.

Every mutating method is interpreted abstractly (all paths, helper methods at their call sites).  The abstract value
of a part of the storage is the name of the part and where the keys on the access path came from; writing to a part
is counted (+1 / -1).  At every successful exit and between the elements of a loop the counts of all parts must agree.
Looking up something that was just taken out of the main part can be assumed to succeed (the parts agreed before)."""
from ..facts import callee, short, plain
from ..interp import Client, Interp, A, OK, ERR, SOME, NONE, UNIT, TRUE, FALSE, fget, variant
from ..report import loc

CORE = "graphannis_core"
COLL = ("HashMap", "BTreeMap", "BTreeSet", "HashSet", "Vec", "VecDeque", "LinkedList", "DiskMap", "IndexMap", "SymbolTable", "BtreeIndex")
ADD = {"insert", "push", "push_back", "push_front", "add", "insert_shared"}
DEL = {"remove", "swap_remove", "pop", "pop_first", "pop_last", "remove_entry", "shift_remove", "remove_item", "remove_annotation_for_item", "take", "split_off"}
NOOP = {"shrink_to_fit", "reserve", "sort", "sort_unstable", "dedup", "sort_by", "sort_unstable_by", "compact"}
VIEW = {"entry", "or_default", "or_insert_with", "or_insert", "get_mut", "get", "iter", "iter_mut", "range", "range_mut", "values", "values_mut", "keys", "index", "index_mut", "deref", "deref_mut",
        "binary_search", "binary_search_by_key", "binary_search_by", "contains", "contains_key", "is_empty", "as_ref", "as_mut", "first", "last", "into_iter", "get_symbol", "get_value", "get_value_ref",
        "get_or_insert_with", "drain", "cloned", "copied", "as_slice", "as_mut_slice", "clone", "borrow", "borrow_mut", "unwrap", "expect", "into_mut", "get_key_value", "last_mut", "first_mut", "next", "get_node_id_from_name",
        "get_annotations_for_item", "take_while", "try_iter", "to_owned", "into_owned", "to_string", "by_ref", "peekable", "unwrap_or_default"}


def coll(t):
    """short name of a collection type, or None"""
    t = t.peel()
    if t.k == "adt":
        n = t.d.rsplit("::", 1)[-1]
        return n if n in COLL else None
    if t.k in ("slice", "array"):
        return "Vec"
    return None


def leaf(t):
    """does the container hold the described things themselves (and not further containers)?"""
    t = t.peel()
    if t.k in ("slice", "array"):
        return coll(t.a[0]) is None
    args = [x for x in t.a]
    n = coll(t)
    if n in ("HashMap", "BTreeMap", "DiskMap", "IndexMap"):
        return len(args) < 2 or coll(args[1]) is None
    return not args or coll(args[0]) is None


def tags(v):
    """where a value came from"""
    if v is None:
        return frozenset()
    if v[0] == "x":
        if v[1] in ("v", "ix"):
            return v[-1]
        if v[1] == "edge":
            return frozenset(["src", "dst"])
        return frozenset()
    if v[0] == "a":
        r = frozenset()
        for _n, x in v[2]:
            r |= tags(x)
        return r
    if v[0] == "not":
        return tags(v[1])
    return frozenset()


def V(ts):
    return ("x", "v", frozenset(ts))


def IX(role, ts=()):
    return ("x", "ix", role, frozenset(ts))


def tget(ast, kind, role, dflt=None):
    for f in ast:
        if isinstance(f, tuple) and f[0] == kind and f[1] == role:
            return f[2]
    return dflt


def tset(ast, kind, role, val):
    ast = frozenset(f for f in ast if not (isinstance(f, tuple) and f[0] == kind and f[1] == role))
    return ast | {(kind, role, val)} if val is not None else ast


class Sync(Client):
    def __init__(self, prog, spec):
        """spec: adt, fields {field: role}, main, mode"""
        self.prog = prog
        self.spec = spec
        self.fields = spec["fields"]
        self.main = spec["main"]
        self.mode = spec["mode"]
        self.bodies = spec["bodies"]
        self.bad = {}
        self.count = {}
        self.cur = None

    def interesting(self, bid):
        return bid in self.bodies and (self.mode != "edges" or self.prog.bodies[bid].kind in ("closure", "promoted") or self.prog.bodies[bid].method not in self.spec.get("events", ()))

    def report(self, key, where, msg):
        self.bad.setdefault(key, (where, msg))

    def field(self, ip, body, base, name, owner):
        if owner == "const":
            return None
        if base == ("x", "self") and name in self.fields:
            return IX(self.fields[name])
        if base is None:
            return None
        if base[0] == "x":
            k = base[1]
            if k == "self":
                return None
            if k == "edge":
                o = {"source": "src", "target": "dst"}.get(name)
                if o is None:
                    return None
                if base[2] == "inv":
                    o = "dst" if o == "src" else "src"
                return V([o])
            if k == "v":
                return V(base[2])
            if k == "num":
                return base if name == "0" else None
            if k == "ix" and name.startswith("@"):
                return None
            if k == "ix":
                return V(base[3] | {"old"} if base[2] == self.main else base[3])
        return None

    # --- counting
    def write(self, ast, role, n):
        d = max(-2, min(2, tget(ast, "d", role, 0) + n))
        ast = frozenset(f for f in ast if f not in (("lost", role), ("have", role)))
        if n == 0 and role == self.main:
            ast = ast | {"replaced"}
        if n:
            ast = ast | {("+" if n > 0 else "-", role)}
        ast = frozenset(f for f in ast if f != "fresh-stats")
        return tset(ast, "d", role, d if d else None) | {("w", role)}

    def lost(self, ast, role):
        return ast | {("lost", role)} if role != self.main or self.mode == "edges" else ast

    def balanced(self, ast):
        m = tget(ast, "d", self.main, 0)
        out = []
        for r in self.spec["sync"]:
            d = tget(ast, "d", r, 0)
            if d == m:
                continue
            # nothing to take away / already there
            if ("lost", r) in ast and d > m or ("have", r) in ast and d < m:
                continue
            if self.mode == "edges" and (("lost", self.main) in ast and m > d or ("have", self.main) in ast and m < d):
                continue
            out.append(r)
        return out

    def binop(self, ip, body, op, a, b):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        for x, y in ((a, b), (b, a)):
            if x is not None and x[0] == "x" and x[1] == "ix" and y is not None and y[0] == "i":
                if base in ("Add", "Sub"):
                    return ("x", "num", x[2], 1 if base == "Add" else -1, y[1])
                if base in ("Eq", "Le", "Lt", "Ne", "Gt", "Ge"):
                    pos = {"Eq": ("eq", y[1]), "Le": ("eq", y[1]), "Lt": ("eq", y[1] - 1), "Ne": ("ne", y[1]), "Gt": ("ne", y[1]), "Ge": ("ne", y[1] - 1)}[base]
                    return ("x", "cmpn", x[2]) + pos
            if x is not None and x[0] == "x" and x[1] == "num" and y is not None and y[0] == "i" and base in ("Eq", "Ne"):
                return ("x", "cmpn", x[2], "eq" if base == "Eq" else "ne", y[1])
        ta, tb = tags(a), tags(b)
        if base in ("Eq", "Ne") and (("old" in ta and "new" in tb) or ("new" in ta and "old" in tb)):
            return ("x", "same", 1 if base == "Eq" else 0)
        return None

    def branch(self, ip, body, bb, ast, sym, taken):
        k = sym[1]
        if k == "cmpn":
            t = taken in (1, True)
            if sym[3] == "ne":
                t = not t
            return ast | {("is", sym[2], sym[4])} if t else ast
        if k == "same":
            t = taken in (1, True)
            return ast | {"same"} if t == (sym[2] == 1) else ast
        if k == "ix" and self.spec.get("table") and sym[2] == self.main and taken == "None":
            return ast | {"void"}
        if k == "empty" and taken == 1:
            return self.emptied(ast, sym[2])
        return ast

    def emptied(self, ast, role):
        if role == self.main:
            ast = ast - {"taken"}
        return ast | {("is", role, 0)}

    def assign(self, ip, body, bb, stmt, ast, env):
        p = stmt["p"]
        if len(p) < 2:
            return ast
        last = p[-1]
        # *number_of_something = ...
        if last == "*":
            base = ip.snapshot(env, ip.readp(env, ip.resolve(env, p[:-1])))
            if base is not None and base[0] == "x" and base[1] == "ix":
                v = ip.snapshot(env, ip.rvalue(env, body, stmt["r"]))
                return self.store(ip, body, bb, stmt, ast, base, v, body.ltys[p[0]].peel_refs())
            return ast
        if isinstance(last, list) and last[0] == "[]":
            base = ip.snapshot(env, ip.readp(env, ip.resolve(env, p[:-1])))
            if base is not None and base[0] == "x" and base[1] == "ix":
                v = ip.snapshot(env, ip.rvalue(env, body, stmt["r"]))
                return self.store(ip, body, bb, stmt, ast, base, v, None)
            return ast
        if isinstance(last, list) and last[0] == "." and last[1] in self.fields and last[2].endswith(self.spec["adt"]):
            base = ip.snapshot(env, ip.readp(env, ip.resolve(env, p[:-1])))
            if base != ("x", "self"):
                return ast
            role = self.fields[last[1]]
            v = ip.snapshot(env, ip.rvalue(env, body, stmt["r"]))
            if role == "stats":
                return self.stats(ast, v)
            if v is not None and v[0] == "x" and v[1] == "num" and v[2] == role:
                return self.write(ast, role, v[3])
            if v == ("i", 0) or variant(v) == "None" or (v is not None and v[0] == "x" and v[1] == "new"):
                return self.cleared(ast, role)
            if role in self.spec["sync"] or role == self.main:
                return ast | {("w", role), ("set", role)}
            return ast | {("w", role)}
        return ast

    def stats(self, ast, v):
        return ast | {"fresh-stats", ("w", "stats")}

    def cleared(self, ast, role):
        ast = frozenset(f for f in ast if f not in (("lost", role), ("have", role)))
        return tset(ast, "d", role, None) | {("clr", role), ("w", role)}

    def store(self, ip, body, bb, stmt, ast, base, v, ty):
        role = base[2]
        if v is not None and v[0] == "x" and v[1] == "num":
            return self.write(ast, role, v[3]) if v[4] == 1 else ast | {("w", role)}
        if v is not None and v[0] == "i" and self.spec["kinds"].get(role) == "count":
            return self.write(ast, role, 1) if v[1] == 1 else ast
        if variant(v) == "Some":
            self.orient(body, stmt.get("l"), ast, role, base[3], tags(v))
            return self.write(ast, role, 1)
        if variant(v) == "None":
            return self.write(ast, role, -1)
        if role == self.main and self.mode == "annos":
            # an element is replaced
            if "new" not in tags(v):
                self.report("%s: replaced by something else" % role, loc(body, stmt.get("l")), "an entry is replaced by something that is not the given annotation")
            return self.write(ast, role, 0)
        return self.write(ast, role, 0)

    def orient(self, body, line, ast, role, outer, inner):
        """the outgoing edges are found by source, the ingoing ones by target"""
        if self.mode != "edges" or role not in ("fwd", "inv"):
            return
        o, i = outer & {"src", "dst"}, inner & {"src", "dst"}
        want = ("src", "dst") if role == "fwd" else ("dst", "src")
        self.count["oriented"] = self.count.get("oriented", 0) + 1
        if (o and o != {want[0]}) or (i and i != {want[1]}):
            self.report("%s: wrong direction" % role, loc(body, line), "an edge is stored in the wrong direction")

    @staticmethod
    def shape(ty, good, bad=None, found=None):
        """outcomes (value, found) for a lookup with result type ty"""
        if ty.is_adt("core::result::Result"):
            if found == "search":
                return [(OK(good), True), (ERR(V(["pos"])), False)]
            inner = Sync.shape(ty.a[0], good)
            return [(OK(v), f) for v, f in inner] + [(ERR(), None)]
        if ty.is_adt("core::option::Option"):
            return [(SOME(good), True), (NONE, False)]
        if ty.s == "bool":
            return [(TRUE, True), (FALSE, False)]
        if ty.s == "()":
            return [(UNIT, True)]
        return [(good, True)]

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return None
        sh = short(f["n"])
        m = sh.rsplit("::", 1)[-1]
        a0 = args[0] if args else None
        dty = body.ltys[t["d"][0]] if len(t["d"]) == 1 else None
        if dty is None:
            return None
        line = t.get("l")
        if a0 is not None and a0[0] == "a" and variant(a0) is None and self.mode == "edges":
            a0 = self.edge_value(a0) or a0
        if m == "inverse" and a0 is not None and a0[0] == "x" and a0[1] == "edge":
            return [(ast, ("x", "edge", "fwd" if a0[2] == "inv" else "inv"))]
        if m in ("saturating_sub", "wrapping_sub", "saturating_add", "wrapping_add", "checked_sub", "checked_add") and a0 is not None and a0[0] == "x" and a0[1] == "ix":
            n = args[1][1] if len(args) > 1 and args[1] is not None and args[1][0] == "i" else None
            v = ("x", "num", a0[2], -1 if "sub" in m else 1, n)
            return [(ast, v)] if not m.startswith("checked") else [(ast, SOME(v)), (ast, NONE)]
        if m in ("new", "default", "with_capacity", "new_temporary") and coll(dty) and not args:
            return [(ast, ("x", "new"))]
        if sh == "mem::replace" and a0 is not None and a0[0] == "x" and a0[1] == "ix" and len(args) > 1:
            self.orient(body, line, ast, a0[2], a0[3], tags(args[1]))
            return [(self.store(ip, body, bb, t, ast, a0, args[1], None), V(a0[3] | {"old"}))]
        if sh == "mem::take" and a0 is not None and a0[0] == "x" and a0[1] == "ix":
            return [(self.cleared(ast, a0[2]), V(a0[3] | {"old"}))]
        if self.mode == "edges" and a0 == ("x", "self"):
            r = self.edge_self(ip, body, bb, t, f, ast, args, m, dty)
            if r is not None:
                return r
        if self.mode == "edges":
            r = self.edge_orig(ip, body, bb, t, f, ast, args, m, dty)
            if r is not None:
                return r
        if m in ("eq", "ne") and len(args) == 2:
            ta, tb = tags(args[0]), tags(args[1])
            if ("old" in ta and "new" in tb) or ("new" in ta and "old" in tb):
                return [(ast | {"same"}, TRUE if m == "eq" else FALSE), (ast, FALSE if m == "eq" else TRUE)]
        tg = ip.prog.targets(body, f)
        inside = [x for x in tg if self.interesting(x) and ip.prog.bodies[x].kind not in ("closure", "coroutine", "promoted")]
        if inside:
            tb = ip.prog.bodies[inside[0]]
            if tb.selfty is not None and tb.selfty.peel_refs().is_adt(self.spec["adt"]) and a0 == ("x", "self"):
                return None
            for i, a in enumerate(args[: tb.argc]):
                if a is not None and a[0] == "x" and a[1] in ("ix", "self") and (tb.ltys[i + 1].k == "ref" and (tb.ltys[i + 1].mut or coll(tb.ltys[i + 1])) or a[1] == "self"):
                    return None
        if a0 is None or a0[0] != "x" or a0[1] != "ix":
            # workspace helpers that compute keys
            if m == "parse_key" or (tg and all(ip.prog.bodies[x].kind not in ("closure", "coroutine") for x in tg)):
                ts = frozenset()
                for a in args:
                    ts |= tags(self.edge_value(a) if self.mode == "edges" and a is not None and a[0] == "a" else a)
                if ts:
                    return [(ast, v) for v, _f in self.shape(dty, V(ts))] if dty.is_adt("core::result::Result") else [(ast, V(ts))]
            return None
        role, ts = a0[2], a0[3]
        if m == "and_modify":
            n = self.closure_num(args[1] if len(args) > 1 else None)
            return [(ast, a0), (ast, IX(role, ts | {"modified"}))] if not n else [(ast, IX(role, ts)), (self.write(ast, role, n), IX(role, ts | {"modified"}))]
        inner = frozenset()
        for a in args[1:]:
            inner |= tags(self.edge_value(a) if a is not None and a[0] == "a" and self.edge_value(a) else a)
        rty = body.ltys[t["args"][0]["p"][0]].peel_refs() if "p" in t["args"][0] else None
        if m in ("or_insert", "or_insert_with") and self.spec["kinds"].get(role) == "count":
            v = args[1] if len(args) > 1 else None
            if v is not None and v[0] == "i" and v[1] == 1 and "modified" not in ts:
                return [(self.write(ast, role, 1), IX(role, ts))]
            return [(ast, IX(role, ts))]
        isleaf = rty is None or leaf(rty)
        if m == "clear":
            if self.level(rty, role):
                return [(self.cleared(ast, role), v) for v, _ in self.shape(dty, UNIT)]
            return [(self.write(ast, role, -1), UNIT)]
        if m in ADD:
            return self.add(ip, body, bb, t, ast, role, ts, inner, args, isleaf, dty, line, m, rty)
        if m in DEL and not (m == "take" and coll(dty) is None and not dty.is_adt("core::option::Option")):
            return self.remove(ip, body, bb, t, ast, role, ts, inner, args, isleaf, dty, line, m)
        if m == "retain":
            return [(self.write(ast, role, -1), UNIT), (ast, UNIT)]
        if m == "partition_point":
            return [(ast, V(["pos"]))]
        if m.startswith("sort"):
            return [(ast - {("unsorted", role)}, v) for v, _f in self.shape(dty, V(()))]
        if m in NOOP:
            return [(ast, v) for v, _f in self.shape(dty, V(()))]
        if m == "resize" or m == "extend" or m == "append":
            return [(ast | {("w", role)}, UNIT)]
        if m == "is_empty":
            if dty.s == "bool":
                return [(ast, ("x", "empty", role))]
            return [(ast, OK(("x", "empty", role))), (ast, ERR())]
        if m == "next" and role == self.main and "taken" in ast and self.mode == "annos":
            a = ast
            if not self.balanced(a):
                a = self.settle(a)
            return [(self.write(a, role, -1), SOME(IX(role, ts | {"old"}))), (a - {"taken"}, NONE)]
        if m == "next":
            return [(ast, SOME(IX(role, ts | {"elem"}))), (ast, NONE)]
        if m in VIEW or True:
            nts = ts | inner
            if role == self.main and self.mode == "annos":
                good = IX(role, nts | {"old"})
            else:
                good = IX(role, nts)
            if m.startswith("binary_search"):
                good = V(((inner - {"old"}) if self.mode == "edges" else nts) | {"at"})
                ast = ast | {("sorted", role)}
            if m.startswith("sort"):
                ast = ast - {("unsorted", role)}
            res = []
            for v, found in self.shape(dty, good, found="search" if m.startswith("binary_search") else None):
                a = ast
                if found is False:
                    if "old" in nts and role != self.main:
                        # it was found in the main part before
                        continue
                    a = self.lost(a, role)
                    a = a | {("no", role)}
                elif found and (m.startswith("binary_search") or m.startswith("contains")) and isleaf:
                    if role != self.main or self.mode == "edges":
                        a = a | {("have", role)}
                    a = a | {("yes", role)}
                elif found and (dty.s == "bool" or dty.is_adt("core::option::Option", "core::result::Result")):
                    a = a | {("yes", role)}
                res.append((a, v))
            return res

    def level(self, rty, role):
        return rty is None or not self.spec["types"].get(role) or coll(rty) is None or plain_ty(rty) == plain_ty(self.spec["types"][role])

    def edge_value(self, a):
        """struct literals Edge { source, target }"""
        if a is None or a[0] != "a":
            return None
        s, d = fget(a, "source"), fget(a, "target")
        if s is None or d is None:
            return None
        if "src" in tags(s) and "dst" in tags(d):
            return ("x", "edge", "fwd")
        if "dst" in tags(s) and "src" in tags(d):
            return ("x", "edge", "inv")
        return None

    def closure_num(self, v):
        if v is None or not (variant(v) or "").startswith("fn:"):
            return 0
        b = self.prog.bodies.get(variant(v)[3:])
        if b is None:
            return 0
        for bb in b.bbs:
            for s in bb["s"]:
                if s["k"] == "=" and s["r"]["k"] == "bin":
                    if s["r"]["b"].startswith("Add"):
                        return 1
                    if s["r"]["b"].startswith("Sub"):
                        return -1
        return 0

    def settle(self, ast):
        return frozenset(f for f in ast if not (isinstance(f, tuple) and f[0] in ("d", "lost", "have", "is", "yes", "no", "+", "-")) and f not in ("same", "replaced"))

    def edge_args(self, args):
        """(outer, inner) orientation of keys given as whole edges"""
        for a in args:
            e = a if a is not None and a[0] == "x" and a[1] == "edge" else self.edge_value(a)
            if e is not None:
                return e[2]
        return None

    def add(self, ip, body, bb, t, ast, role, ts, inner, args, isleaf, dty, line, m="", rty=None):
        sync = role in self.spec["sync"] or role == self.main
        if isleaf and rty is not None and coll(rty) == "Vec" and role in self.spec.get("searched", ()):
            if m.startswith("push") or m == "insert" and not (len(args) > 1 and tags(args[1]) & {"pos", "at"}):
                ast = ast | {("unsorted", role)}
        if not sync:
            # symbol tables and the like
            if role == "annos" and self.mode == "edges":
                self.count["labels"] = self.count.get("labels", 0) + 1
                ast = ast | {("w", "annos")}
                if self.cur == "add_edge_annotation" and ("yes", "fwd") not in ast:
                    self.report("annos: label without edge", loc(body, line), "a label is added to an edge that does not exist")
            return [(ast, v) for v, _f in self.shape(dty, V(ts | inner))]
        if not isleaf:
            if role == self.main and "taken" in ast and any(a is not None and a[0] == "x" and a[1] == "ix" and a[2] == role for a in args[1:]):
                return [(ast - {"taken"}, v) for v, _f in self.shape(dty, V(()))]
            return [(self.write(ast, role, 0), v) for v, _f in self.shape(dty, V(()))]
        if self.mode == "annos":
            if "new" not in (ts | inner) and ("old" in (ts | inner) or role == self.main):
                self.report("%s: adds something else" % role, loc(body, line), "the part of the storage does not get the annotation that was given")
        else:
            o = self.edge_args(args[1:])
            if o is not None:
                self.orient(body, line, ast, role, frozenset(["src" if o == "fwd" else "dst"]), frozenset(["dst" if o == "fwd" else "src"]))
            else:
                self.orient(body, line, ast, role, ts, inner)
        res = []
        key = coll(body.ltys[t["args"][0]["p"][0]].peel_refs()) if "p" in t["args"][0] else None
        ismap = key in ("HashMap", "BTreeMap", "DiskMap", "IndexMap")
        over = self.mode == "annos" and role == self.main and ismap
        if over and ("yes", role) in ast:
            a = self.write(ast, role, 0)
        else:
            a = self.write(ast, role, 1)
        for v, found in self.shape(dty, V(ts | {"old"})):
            if found is None:
                res.append((ast, v))
            elif over and dty.is_adt("core::option::Option"):
                res.append((self.write(ast, role, 0) if found else self.write(ast, role, 1), v))
            else:
                res.append((a, v))
        return res

    def remove(self, ip, body, bb, t, ast, role, ts, inner, args, isleaf, dty, line, m):
        sync = role in self.spec["sync"] or role == self.main
        if not sync:
            if role == "annos" and self.mode == "edges":
                self.count["labels"] = self.count.get("labels", 0) + 1
                return [(ast | {("w", "annos"), ("labels", m)}, v) if found is not None else (ast, v) for v, found in self.shape(dty, V(()))]
            return [(ast, v) for v, _f in self.shape(dty, V(ts | inner))]
        if not isleaf or self.spec["kinds"].get(role) == "count":
            if role == self.main:
                if ("is", role, 0) in ast:
                    return [(ast, v) for v, _f in self.shape(dty, V(()))]
                return [(a, v) for a, v in [((ast | {"taken", ("yes", role)}) if found else ast | {("no", role)} if found is False else ast, v) for v, found in self.shape(dty, IX(role, ts | {"old"})) if found is not False or ("yes", role) not in ast]]
            if self.spec["kinds"].get(role) == "count" and ("is", role, 1) in ast:
                return [(self.write(ast, role, -1), v) for v, _f in self.shape(dty, V(()))]
            zero = any(isinstance(x, tuple) and x[0] == "is" and x[2] == 0 for x in ast) or any(("lost", r) in ast for r in self.spec["sync"])
            if not zero:
                self.report("%s: removes everything" % role, loc(body, line), "all entries of a key are removed although some might still be needed")
            return [(ast, v) for v, _f in self.shape(dty, V(()))]
        if self.mode == "annos" and role != self.main and "old" not in (ts | inner):
            self.report("%s: removes something else" % role, loc(body, line), "what is removed here is not what was removed from the main part of the storage")
        if self.mode == "edges":
            o = self.edge_args(args[1:])
            if o is not None:
                self.orient(body, line, ast, role, frozenset(["src" if o == "fwd" else "dst"]), frozenset(["dst" if o == "fwd" else "src"]))
            else:
                self.orient(body, line, ast, role, ts, inner)
        res = []
        for v, found in self.shape(dty, V(ts | {"old"} if role == self.main else ts)):
            if found is None:
                res.append((ast, v))
            elif found is False and (dty.is_adt("core::option::Option") or dty.is_adt("core::result::Result") or dty.s == "bool"):
                if self.mode == "edges":
                    # it does not matter for the other part whether something was there
                    res.append((self.write(ast, role, -1), v))
                elif role == self.main:
                    res.append((ast | {("no", role)}, v))
                elif "old" in (ts | inner):
                    continue
                else:
                    res.append((self.lost(ast, role), v))
            else:
                a = ast
                if role == self.main and self.mode == "annos" and not self.balanced(a):
                    a = self.settle(a)
                res.append((self.write(a, role, -1) | {("yes", role)}, v))
        return res

    # --- edge storages
    def edge_self(self, ip, body, bb, t, f, ast, args, m, dty):
        if m in ("get_outgoing_edges", "get_ingoing_edges"):
            return [(ast | {("looked", m)}, ("x", "nb", m))]
        if m in self.spec.get("events", ()) and m != self.cur:
            self.count[m] = self.count.get(m, 0) + 1
            a = ast | {("did", m)}
            if m == "clear":
                for r in set(self.fields.values()):
                    a = self.cleared(a, r)
                a = a | {"fresh-stats"}
            elif m == "add_edge":
                o = self.edge_args(args[1:])
                if o == "inv":
                    self.report("add_edge: wrong direction", loc(body, t.get("l")), "an edge is added in the wrong direction")
                a = frozenset(x for x in a if x != "fresh-stats") | {("w", "fwd"), ("w", "inv")}
            elif m == "delete_edge":
                a = a | {("w", "fwd"), ("w", "inv"), ("labels", "remove_item"), "fresh-stats"}
            elif m == "add_edge_annotation":
                a = a | {("w", "annos")}
            elif m == "calculate_statistics":
                a = a | {"fresh-stats"}
            return [(a, OK(UNIT)), (ast, ERR())]
        return None

    def edge_orig(self, ip, body, bb, t, f, ast, args, m, dty):
        a0 = args[0] if args else None
        if a0 is not None and a0[0] == "x" and a0[1] == "orig":
            if m in ("source_nodes", "root_nodes"):
                return [(ast | {("orig", m)}, ("x", "nodes", "src"))]
            if m in ("get_outgoing_edges", "find_connected"):
                return [(ast | {("orig", m)}, ("x", "nodes", "dst"))]
            if m in ("get_ingoing_edges", "find_connected_inverse"):
                return [(ast | {("orig", m)}, ("x", "nodes", "src"))]
            if m in ("get_anno_storage", "as_edgecontainer"):
                return [(ast, ("x", "orig", m))]
            if m == "get_annotations_for_item":
                return [(ast | {("orig", m)}, OK()), (ast, ERR())]
            if m == "get_statistics":
                return [(ast, ("x", "origstats"))]
        if a0 is not None and a0[0] == "x" and a0[1] in ("nodes", "nb"):
            if m == "next":
                e = V([a0[2]]) if a0[1] == "nodes" else V(["dst" if a0[2] == "get_outgoing_edges" else "src"])
                return [(ast, SOME(OK(e))), (ast, SOME(ERR())), (ast, NONE)]
            if m in ("into_iter", "by_ref", "peekable", "fuse"):
                return [(ast, a0)]
        if a0 is not None and a0[0] == "x" and a0[1] == "v" and m in ("to_usize", "clone", "into", "try_into", "to_owned", "from", "as_"):
            if dty.is_adt("core::option::Option"):
                return [(ast, SOME(a0)), (ast, NONE)]
            if dty.is_adt("core::result::Result"):
                return [(ast, OK(a0)), (ast, ERR())]
            return [(ast, a0)]
        return None


def searched(prog, bodies, fields, adt):
    """roles of the fields in which some method searches by position (which must stay sorted)"""
    out = set()
    for x in bodies:
        b = prog.bodies[x]
        if not any(short((callee(t) or {"n": ""})["n"]).rsplit("::", 1)[-1].startswith("binary_search") for _i, t in b.calls()):
            continue
        for bb in b.bbs:
            for s in bb["s"]:
                if s["k"] == "=" and "p" in s["r"]:
                    for e in s["r"]["p"][1:]:
                        if isinstance(e, list) and e[0] == "." and e[2] == adt and e[1] in fields:
                            out.add(fields[e[1]])
    return out


def plain_ty(t):
    return t.peel().s.replace("&mut ", "").replace("&", "")


def impl_bodies(prog, adt):
    """methods of the type, and the closures in them"""
    ids, files = set(), set()
    for b in prog.bodies.values():
        if b.crate == CORE and b.selfty is not None and b.selfty.peel_refs().k == "adt" and b.selfty.peel_refs().d == adt:
            ids.add(b.id)
            files.add(b.file)
    for b in prog.bodies.values():
        # helper functions beside the type
        if b.crate == CORE and b.file in files and b.selfty is None and b.kind not in ("closure", "coroutine", "promoted"):
            ids.add(b.id)
    for b in prog.bodies.values():
        if b.kind in ("closure",) and prog.root_fn(b.id).id in ids:
            ids.add(b.id)
    return ids


def run_method(prog, cl, b, rep, init=frozenset()):
    ip = Interp(prog, cl, max_env=96)
    args = [("x", "self")]
    for i in range(2, b.argc + 1):
        t = b.ltys[i].peel_refs()
        n = b.method
        if cl.mode == "annos":
            if t.is_adt("Annotation"):
                args.append(V(["new"]))
            elif t.is_adt("AnnoKey"):
                args.append(V(["key"]))
            elif t.k == "param" and n.startswith("insert") and cl.spec.get("table"):
                args.append(V(["new"]))
            elif t.is_adt("Arc") and cl.spec.get("table"):
                args.append(V(["new"]))
            else:
                args.append(V(["item"]))
        else:
            if t.is_adt("Edge"):
                args.append(("x", "edge", "fwd"))
            elif t.k == "dyn" and "GraphStorage" in t.s:
                args.append(("x", "orig", ""))
            elif t.is_adt("Annotation"):
                args.append(V(["new"]))
            elif t.s == "u64":
                args.append(V(["node"]))
            else:
                args.append(None)
    cl.cur = b.method
    outs = ip.run(b.id, tuple(args), init)
    rep.fns(ip.stats["functions"])
    rep.extra["abstract_states"] = rep.extra.get("abstract_states", 0) + ip.stats["states"]
    return [(a, v) for a, v, _m in (outs or ())]


def roles_annos(adt):
    fields, kinds, types = {}, {}, {}
    for name, ty, _p in adt["variants"][0]["f"]:
        s = coll(ty)
        a = ty.a
        role = None
        if s == "DiskMap" and len(a) > 1:
            role = "by item" if "String" in a[1].s else "by annotation" if a[1].s == "bool" else None
        elif s == "HashMap" and len(a) > 1 and coll(a[1]) == "Vec":
            role = "by item"
        elif s == "HashMap" and len(a) > 1 and coll(a[1]) == "HashMap":
            role = "by annotation"
        elif s == "BTreeMap" and len(a) > 1 and a[0].is_adt("AnnoKey") and a[1].s == "usize":
            role = "key sizes"
            kinds[role] = "count"
        elif s == "BTreeMap" and len(a) > 1 and coll(a[1]) == "Vec":
            role = "histograms"
        elif s == "SymbolTable":
            role = "symbols " + name
        elif ty.s == "usize":
            role = "total"
            kinds[role] = "count"
        elif ty.is_adt("core::option::Option") and ty.a[0].k == "param":
            role = "largest item"
        if role:
            fields[name] = role
            types[role] = ty
    return fields, kinds, types


def c05(prog, rep):
    rep.rule("parts-change-together", "on every successful path of a method that changes an annotation storage, each of its parts gets exactly the entries that the main part gets and loses exactly those it loses")
    rep.rule("clear-is-complete", "clearing an annotation storage clears all of its parts")
    rep.rule("symbols-change-together", "both directions of a symbol table are changed together")
    n = 0
    muts = 0
    trait = [t for t in prog.traits if t.endswith("::AnnotationStorage")]
    impls = [im for tr in trait for im in prog.impls_by_trait.get(tr, []) if im["selfty"].k == "adt" and im["crate"] == CORE]
    for im in impls:
        adt = prog.adts.get(im["selfty"].d)
        if adt is None:
            continue
        n += 1
        fields, kinds, types = roles_annos(adt)
        name = adt["id"].split("::", 1)[1] if "::" in adt["id"] else adt["id"]
        have = set(fields.values())
        rep.floor("anchors", "parts of %s" % name, len({"by item", "by annotation", "key sizes"} & have), 3)
        spec = {"adt": adt["id"].rsplit("::", 1)[-1], "fields": fields, "main": "by item", "sync": [r for r in ("by annotation", "key sizes", "total") if r in have],
                "mode": "annos", "kinds": kinds, "types": types, "bodies": impl_bodies(prog, adt["id"])}
        spec["searched"] = searched(prog, spec["bodies"], fields, adt["id"])
        for b in sorted(prog.bodies.values(), key=lambda x: x.id):
            if b.kind != "method" or b.selfty is None or b.selfty.peel_refs().k != "adt" or b.selfty.peel_refs().d != adt["id"] or b.impl != im["id"]:
                continue
            if b.argc < 1 or b.ltys[1].k != "ref" or not b.ltys[1].mut or b.method in ("load_annotations_from", "calculate_statistics"):
                continue
            muts += 1
            cl = Sync(prog, spec)
            outs = run_method(prog, cl, b, rep)
            bad = {}
            oks = [a for a, v in outs if variant(v) != "Err"]
            for a in oks:
                for r in spec["searched"]:
                    if ("unsorted", r) in a:
                        bad["%s: not sorted" % r] = "entries that are found by a binary search are not kept in order"
                if b.method == "clear":
                    for r in sorted(have):
                        if not r.startswith("symbols") and ("clr", r) not in a:
                            bad["%s is not cleared" % r] = "a part of the storage keeps its content when the storage is cleared"
                    continue
                if "taken" in a:
                    bad["entries of an item are dropped"] = "the annotations of an item are removed from the main part, but not from the other parts"
                if "same" in a and ("w", "by item") not in a:
                    continue
                for r in cl.balanced(a):
                    if "same" in a and r == "by annotation":
                        continue
                    bad["%s: %+d, but %+d by item" % (r, tget(a, "d", r, 0), tget(a, "d", "by item", 0))] = "the part '%s' is not changed in the same way as the main part" % r
                if "replaced" in a and "same" not in a and "by annotation" in spec["sync"] and ("lost", "by annotation") not in a and not {("+", "by annotation"), ("-", "by annotation")} <= a:
                    bad["overwritten: by annotation"] = "an annotation is overwritten by item, but the old one is not removed or the new one not added by annotation"
                if b.method == "insert" and ("w", "by item") not in a:
                    bad["nothing inserted"] = "an annotation is not stored, but the operation reports success"
                if b.method == "insert" and tget(a, "d", "by item", 0) > 0 and "largest item" in have and ("seen", "largest item") not in a and ("w", "largest item") not in a and ("yes", "largest item") not in a:
                    pass
            for k, (w, msg) in cl.bad.items():
                bad[k] = msg
            rule = "clear-is-complete" if b.method == "clear" else "parts-change-together"
            if not oks:
                rep.bad(rule, "%s::%s: no successful path" % (name, b.method), loc(b), "the method could not be analysed")
            elif bad:
                for k in sorted(bad):
                    rep.bad(rule, "%s::%s: %s" % (name, b.method, k), loc(b), bad[k])
            else:
                rep.ok(rule, "%s::%s: %d successful abstract outcomes" % (name, b.method, len(oks)))
    rep.floor("anchors", "annotation storages", n, 2)
    rep.floor("anchors", "methods that change annotation storages", muts, 8)
    # symbol tables
    tabs = [a for a in prog.adts.values() if a["crate"] == CORE and a["id"].endswith("::SymbolTable")]
    k = 0
    for adt in tabs:
        fields = {}
        types = {}
        for name, ty, _p in adt["variants"][0]["f"]:
            r = {"Vec": "by id", "HashMap": "by value"}.get(coll(ty))
            if r == "by id" and not any(x.is_adt("core::option::Option") for x in ty.walk()):
                r = "free"
            if r:
                fields[name] = r
                types[r] = ty
        if not {"by id", "by value"} <= set(fields.values()):
            rep.bad("symbols-change-together", "parts of the symbol table", "-", "the two directions of a symbol table were not found")
            continue
        spec = {"adt": "SymbolTable", "fields": fields, "main": "by id", "sync": ["by value"], "mode": "annos", "kinds": {}, "types": types, "bodies": impl_bodies(prog, adt["id"]), "table": True}
        for b in sorted(prog.bodies.values(), key=lambda x: x.id):
            if b.kind != "method" or b.selfty is None or b.selfty.peel_refs().k != "adt" or b.selfty.peel_refs().d != adt["id"]:
                continue
            if b.argc < 1 or b.ltys[1].k != "ref" or not b.ltys[1].mut or b.method == "after_deserialization":
                continue
            k += 1
            cl = Sync(prog, spec)
            outs = [a for a, v in run_method(prog, cl, b, rep) if variant(v) != "Err"]
            bad = {}
            for a in outs:
                if b.method == "clear":
                    for r in set(fields.values()):
                        if ("clr", r) not in a:
                            bad["%s is not cleared" % r] = "a part of the symbol table keeps its content when it is cleared"
                    continue
                for r in cl.balanced(a):
                    if ("void" in a or ("no", "by id") in a) and tget(a, "d", r, 0) == 0:
                        # there was nothing to take out
                        continue
                    bad["%s: %+d, but %+d by id" % (r, tget(a, "d", r, 0), tget(a, "d", "by id", 0))] = "the two directions of the symbol table are not changed together"
            if bad:
                for x in sorted(bad):
                    rep.bad("symbols-change-together", "%s: %s" % (b.method, x), loc(b), bad[x])
            else:
                rep.ok("symbols-change-together", "%s: %d outcomes" % (b.method, len(outs)))
    rep.floor("anchors", "methods that change symbol tables", k, 3)


def check(pid, prog, rep):
    {"C05": c05}[pid](prog, rep)
