"""C27: numbers given by a caller are only used in bounded ways.

A whole-program flow analysis. Sources are the integer parameters of the public functions of the corpus
storage, of the exported C functions, and the integer fields of request parameters of the web service. The
values are followed through locals, references, tuples, options, struct fields, closures and their
captures, calls of workspace functions and value preserving library functions. Bounding operations (min,
saturating_*, checked_*, comparisons, remainder) end the flow.

A tainted value must not be
 - an operand of an overflowing addition, multiplication or subtraction
 - the amount of memory to reserve or of items to create
 - an index or the border of a slice
 - the number of rounds of a loop that cannot end earlier, or the start of a countdown
unless the place is only reached through a comparison that bounds this very value.
"""
import collections
from ..facts import callee, short
from ..report import loc

INTS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}
WIDE = {"u128", "i128", "f64", "f32"}
BOUND = {"min", "clamp", "cmp", "partial_cmp", "lt", "le", "gt", "ge", "eq", "ne", "max_by", "min_by", "min_by_key", "rem_euclid", "div_euclid", "div_ceil",
         "leading_zeros", "trailing_zeros", "count_ones", "ilog2", "len", "is_empty", "is_some", "is_none", "hash", "fmt", "to_string",
         # the iterator decides how many items there really are
         "take", "skip", "nth", "step_by", "chunks", "chunks_exact", "windows", "advance_by", "next", "next_back", "position", "count", "truncate", "contains", "get", "get_mut", "get_unchecked"}
BOUNDP = ("saturating_", "checked_", "wrapping_", "overflowing_")
MAPS = {"map", "and_then", "map_or", "map_or_else", "fold", "try_fold", "filter_map", "flat_map", "then", "map_err", "is_some_and", "for_each", "into_iter_map", "inspect"}
RESERVE = {"with_capacity", "reserve", "reserve_exact", "try_with_capacity", "with_capacity_and_hasher", "resize", "resize_with", "from_elem", "repeat", "repeat_n", "with_block_size", "set_len", "new_uninit_slice"}
CUT = {"index", "index_mut", "split_at", "split_at_mut", "split_off", "drain", "remove", "swap_remove", "swap", "insert", "range", "copy_within", "rotate_left", "rotate_right", "select_nth_unstable", "select_nth_unstable_by", "select_nth_unstable_by_key"}
CHECKED_UNWRAP = {"unwrap", "expect"}
EXTRA = ("RangeSpec", "SearchQuery", "CacheStrategy")
ARITH = {"add": "Add", "sub": "Sub", "mul": "Mul", "shl": "Shl", "add_assign": "Add", "sub_assign": "Sub", "mul_assign": "Mul", "pow": "Mul", "next_power_of_two": "Mul", "next_multiple_of": "Mul"}
OPNAME = {"Add": "addition", "Mul": "multiplication", "Sub": "subtraction", "Shl": "shift"}
SUMS = {"sum", "product"}


def has_int(ty, lib=()):
    """an integer is part of this type, not counting the content of workspace structs (their fields are followed on their own)"""
    seen, st = set(), [ty]
    while st:
        t = st.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        if t.k == "prim" and t.s in INTS:
            return True
        if t.is_adt("core::time::Duration"):
            return True
        if t.k == "adt" and t.d in lib:
            continue
        if t.k in ("closure", "coroutine", "dyn", "fndef", "fnptr", "fn"):
            continue
        if t.k in ("param", "alias"):
            return True
        st.extend(t.a)
    return False


def int_like(ty):
    """an amount: a size, an optional size or a duration (identifiers of nodes have other types)"""
    t = ty.peel()
    if t.k == "prim":
        return t.s == "usize"
    if t.k == "adt" and t.is_adt("core::option::Option"):
        return int_like(t.a[0])
    return t.is_adt("core::time::Duration")


class Flow:
    def __init__(self, prog):
        self.prog = prog
        self.lib = set(prog.adts)
        self.edges = collections.defaultdict(set)
        self.why = {}
        self.cond = collections.defaultdict(list)
        self.calls = 0
        for b in prog.bodies.values():
            self.body(b)
        self.copies = collections.defaultdict(list)
        for n, d in self.cond:
            self.copies[n].append(d)

    # --- places
    def node(self, b, p):
        """the abstract location of a place: a struct field, a captured variable or a local"""
        base = p[0]
        last = None
        if any(e != "*" and e[0] == "@" and e[1] == "Excluded" for e in p[1:]) and b.ltys[base].has_adt("core::ops::range::Bound"):
            # content of an excluding border, wherever it has been created
            return ("excluded",)
        if b.kind in ("closure", "coroutine") and base == 1:
            f = next((e for e in p[1:] if e != "*" and e[0] == "."), None)
            if f is not None:
                last = ("cap", b.id, str(f[1]))
        for e in p[1:]:
            if e != "*" and e[0] == "." and len(e) > 2 and e[2] in self.lib:
                last = ("f", e[2], e[1])
        return last or ("l", b.id, base)

    def add(self, a, c):
        if a != c:
            self.edges[a].add(c)

    def opn(self, b, o):
        return self.node(b, o["p"]) if o.get("p") else None

    def closure_args(self, b, t):
        """(closure body, aggregate) of closures given to a call"""
        out = []
        for o in t["args"]:
            if o.get("p"):
                ty = b.ltys[o["p"][0]].peel()
                if ty.k in ("closure", "coroutine") and ty.d in self.prog.bodies:
                    out.append(self.prog.bodies[ty.d])
            if "fn" in o:
                for x in self.prog.targets(b, o["fn"]):
                    out.append(self.prog.bodies[x])
        return out

    def body(self, b):
        lib = self.lib
        for i, bb in enumerate(b.bbs):
            for s in bb["s"]:
                if s["k"] != "=":
                    continue
                r, d = s["r"], self.node(b, s["p"])
                k = r["k"]
                if k in ("use", "cast"):
                    for o in r["o"]:
                        n = self.opn(b, o)
                        if n and n != d:
                            # a copy made where the number is known to be bounded is bounded
                            self.cond[(n, d)].append((b, i, o))
                elif k == "ref":
                    n = self.node(b, r["p"])
                    self.add(n, d)
                    if r.get("mut"):
                        self.add(d, n)
                elif k == "bin":
                    os = r["o"]
                    op = r["b"]
                    if op.startswith(("Add", "Mul", "BitOr", "BitXor", "Shl")):
                        ns = os
                    elif op.startswith("Sub"):
                        ns = os[:1]
                    else:
                        ns = []
                    for o in ns:
                        n = self.opn(b, o)
                        if n:
                            self.add(n, d)
                elif k == "un":
                    if r.get("b") in ("Not", "Neg"):
                        for o in r["o"]:
                            n = self.opn(b, o)
                            if n:
                                self.add(n, d)
                elif k == "agg":
                    for i, o in enumerate(r["o"]):
                        n = self.opn(b, o)
                        if not n:
                            continue
                        if r["g"] in ("closure", "coroutine"):
                            self.add(n, ("cap", r["d"], str(i)))
                            self.add(("cap", r["d"], str(i)), n)
                        elif r["g"] == "adt" and r["d"] in lib:
                            fs = r.get("f") or []
                            if i < len(fs):
                                self.add(n, ("f", r["d"], fs[i]))
                        elif r.get("v") == "Excluded" and r["d"] == "core::ops::range::Bound":
                            self.add(n, ("excluded",))
                        else:
                            self.add(n, d)
                elif "p" in r and k not in ("disc", "len"):
                    self.add(self.node(b, r["p"]), d)
            t = bb["t"]
            if t["k"] == "call":
                self.call(b, t)

    def call(self, b, t):
        self.calls += 1
        prog = self.prog
        f = callee(t)
        d = self.node(b, t["d"])
        args = [(self.opn(b, o), b.ltys[o["p"][0]] if o.get("p") else None) for o in t["args"]]
        tg = prog.targets(b, f) if f else []
        if f and tg:
            fn_trait = f.get("tr", "").startswith("core::ops::function::Fn")
            for x in tg:
                tb = prog.bodies[x]
                if tb.kind in ("closure", "coroutine") and fn_trait:
                    # (closure, (a, b, ..))
                    if len(args) > 1 and args[1][0]:
                        for i in range(2, tb.argc + 1):
                            self.add(args[1][0], ("l", x, i))
                else:
                    for i, (n, _ty) in enumerate(args):
                        if n and i < tb.argc:
                            self.add(n, ("l", x, i + 1))
                            if _ty is not None and _ty.k == "ref" and _ty.mut and tb.ltys[i + 1].k == "ref" and not (_ty.peel().k == "adt" and _ty.peel().d in self.lib):
                                self.add(("l", x, i + 1), n)
                self.add(("l", x, 0), d)
            return
        name = short(f["n"]).rpartition("::")[2] if f else ""
        if name in BOUND or name.startswith(BOUNDP):
            return
        cl = self.closure_args(b, t)
        for c in cl:
            off = 1 if c.kind in ("closure", "coroutine") else 0
            for n, ty in args:
                if n is None or ty is None or ty.peel().k in ("closure", "coroutine"):
                    continue
                for i in range(1 + off, c.argc + 1):
                    if has_int(c.ltys[i], self.lib):
                        self.add(n, ("l", c.id, i))
            if has_int(c.ltys[0], self.lib):
                self.add(("l", c.id, 0), d)
        dty = b.ltys[t["d"][0]]
        for i, (n, ty) in enumerate(args):
            if n is None or (ty is not None and ty.peel().k in ("closure", "coroutine")):
                continue
            if not (cl and name in MAPS) and has_int(dty, self.lib):
                self.add(n, d)
            # written into another argument
            for j, (m, mty) in enumerate(args):
                if i != j and m and mty is not None and mty.k == "ref" and mty.mut and has_int(mty, self.lib):
                    self.add(n, m)

    def run(self, sources):
        # a copy bounded only by another number of the caller is not bounded: the second pass knows all of them
        self.known = set()
        for _ in range(2):
            self.spread(sources)
            self.known = set(self.why)

    def spread(self, sources):
        st = list(sources)
        self.why = {s: (s, None) for s in sources}
        while st:
            x = st.pop()
            ys = set(self.edges.get(x, ()))
            for y in self.copies.get(x, ()):
                if y not in self.why and y not in ys and self.keeps(y) and any(not guarded(b, i, o, "index", lambda q, b=b: bool(q.get("p")) and (self.node(b, q["p"]) in self.why or self.node(b, q["p"]) in self.known)) for b, i, o in self.cond[(x, y)]):
                    ys.add(y)
            for y in sorted(ys, key=str):
                if y in self.why or not self.keeps(y):
                    continue
                self.why[y] = (self.why[x][0], x)
                st.append(y)

    def keeps(self, n):
        """can this location hold a number at all?"""
        if n[0] == "l":
            b = self.prog.bodies[n[1]]
            t = b.ltys[n[2]]
            if t.peel().k == "adt" and t.peel().d in self.lib:
                return False
            return has_int(t, self.lib)
        return True


def sources(prog):
    out = {}
    for b in prog.bodies.values():
        take = b.nomangle or (b.kind == "method" and b.pub and b.selfty is not None and b.selfty.peel().is_adt("CorpusStorage"))
        if not take or b.argc == 0:
            continue
        for i in range(1, b.argc + 1):
            if int_like(b.ltys[i]) and (not b.nomangle or b.ltys[i].k != "ptr" or b.ltys[i].peel().s == "usize"):
                out[("l", b.id, i)] = "%s(%s)" % (b.name.rpartition("::")[2], b.lnames[i] or i)
    for a in prog.adts.values():
        if a["id"].rpartition("::")[2] in EXTRA:
            for v in a["variants"]:
                for n, ty, _p in v["f"]:
                    if int_like(ty):
                        out[("f", a["id"], n)] = "%s.%s" % (a["id"].rpartition("::")[2], n)
        if not a["crate"].endswith("webservice") or "::api::" not in a["id"] and "api" not in a["id"].split("::"):
            continue
        for v in a["variants"]:
            for n, ty, _p in v["f"]:
                if int_like(ty):
                    out[("f", a["id"], n)] = "%s.%s" % (a["id"].rpartition("::")[2], n)
    return out


# --- guards
def origin(b, o, depth=0):
    """where the value of an operand comes from: ('place', ...) after following plain copies, dereferences included"""
    if not o.get("p"):
        return None
    p = tuple(map(lambda e: tuple(e) if isinstance(e, list) else e, o["p"]))
    return origin_p(b, p, depth)


def origin_p(b, p, depth=0):
    if depth > 12:
        return p
    ds = b.defs.get(p[0], [])
    if len(ds) == 1 and p[0] > b.argc and ds[0][0] == "=":
        r = ds[0][3]["r"]
        q = None
        if r["k"] in ("use", "cast") and r["o"][0].get("p"):
            q = r["o"][0]["p"]
            rest = p[1:]
        elif r["k"] == "ref":
            q = r["p"]
            rest = p[2:] if len(p) > 1 and p[1] == "*" else p[1:]
        elif r["k"] == "agg" and r["g"] == "tuple" and len(p) > 1 and p[1] != "*" and p[1][0] == ".":
            i = int(p[1][1])
            if i < len(r["o"]) and r["o"][i].get("p"):
                q = r["o"][i]["p"]
                rest = p[2:]
        if q is not None:
            return origin_p(b, tuple(tuple(e) if isinstance(e, list) else e for e in q) + tuple(rest), depth + 1)
    return strip(p)


def strip(p):
    return (p[0],) + tuple(e for e in p[1:] if e != "*")


def edge_dominates(b, bb, target, edge_from):
    """every path to bb goes through the edge edge_from -> target"""
    seen, st = set(), [0]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for s in b.succ(x):
            if x == edge_from and s == target:
                continue
            st.append(s)
    return bb not in seen


def guarded(b, bb, o, kind, tainted, depth=0):
    """is the operand bounded by a comparison on every path to this block?"""
    og = origin(b, o)
    if og is None:
        return True
    for g, blk in enumerate(b.bbs):
        t = blk["t"]
        if t["k"] == "assert":
            continue
        if t["k"] != "switch" or not t["o"].get("p"):
            continue
        sp = t["o"]["p"]
        # direct switch on the number
        if kind == "sub" and origin(b, t["o"]) == og:
            for i, x in enumerate(t["to"]):
                if (i >= len(t["v"]) or t["v"][i] != "0") and t["to"].count(x) == 1 and edge_dominates(b, bb, x, g):
                    return True
            continue
        if len(sp) != 1:
            continue
        zero = [x for k, x in enumerate(t["to"]) if k < len(t["v"]) and t["v"][k] == "0"]
        rest = [x for k, x in enumerate(t["to"]) if k >= len(t["v"]) or t["v"][k] != "0"]
        for truth, tos in ((False, zero), (True, rest)):
            for x in set(tos):
                if x in zero and x in rest:
                    continue
                if bounds_when(b, sp[0], truth, og, o, kind, tainted, depth) and edge_dominates(b, bb, x, g):
                    return True
    return False


def bounds_when(b, local, truth, og, o, kind, tainted, depth=0):
    """does this truth value of a condition imply that the number is bounded?"""
    if depth > 3 or b.ltys[local].k != "prim" or b.ltys[local].s != "bool":
        return False
    ds = b.defs.get(local, [])
    some = False
    for d in ds:
        if d[0] != "=":
            return False
        r = d[3]["r"]
        if r["k"] == "use" and not r["o"][0].get("p"):
            if r["o"][0].get("i") not in ("0", "1"):
                return False
            if (r["o"][0]["i"] == "1") != truth:
                # the condition does not have this value here
                continue
            if not guarded(b, d[1], o, kind, tainted, depth + 1):
                return False
            some = True
            continue
        if r["k"] == "use" and len(r["o"][0]["p"]) == 1:
            ok = bounds_when(b, r["o"][0]["p"][0], truth, og, o, kind, tainted, depth + 1)
        elif r["k"] == "un" and r.get("b") == "Not" and r["o"][0].get("p") and len(r["o"][0]["p"]) == 1:
            ok = bounds_when(b, r["o"][0]["p"][0], not truth, og, o, kind, tainted, depth + 1)
        elif r["k"] == "bin":
            ok = compare_bounds(b, r, truth, og, kind, tainted)
        else:
            ok = False
        if not ok and not (len(ds) > 1 and guarded(b, d[1], o, kind, tainted, depth + 1)):
            return False
        some = True
    return some


def compare_bounds(b, r, truth, og, kind, tainted):
    op = r["b"]
    if op not in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
        return False
    sides = [origin(b, x) for x in r["o"]]
    if og not in sides:
        return False
    left = sides[0] == og
    other = r["o"][1 if left else 0]
    if op in ("Eq", "Ne"):
        if kind == "sub":
            return True
        return truth == (op == "Eq")
    # the number is the smaller one
    upper = truth == ((op in ("Lt", "Le")) == left)
    if kind == "sub":
        return not upper
    if not upper:
        return False
    if kind == "sub-right":
        return True
    if kind == "index" and op in (("Le", "Gt") if left else ("Ge", "Lt")) and is_len(b, other):
        # one too many
        return False
    if other.get("p") and tainted(other) and op in ("Le", "Ge"):
        # bounded only by another number of the caller
        return False
    return True


def is_len(b, o):
    """is the operand the length of a collection?"""
    og = origin(b, o)
    if og is None or len(og) != 1:
        return False
    for d in b.defs.get(og[0], []):
        if d[0] == "call" and callee(d[-1]) and short(callee(d[-1])["n"]).rpartition("::")[2] == "len":
            return True
        if d[0] == "=" and d[3]["r"]["k"] == "un" and d[3]["r"].get("b") == "PtrMetadata":
            return True
    return False


def below(b, bb, o, tainted):
    """the subtrahend has been compared with a number of the caller and is not larger"""
    return guarded(b, bb, o, "sub-right", lambda x: False) if o.get("p") and not tainted(o) else False


def checked_source(b, o):
    """is the operand the result of a checked operation? (unwrapping it panics on overflow)"""
    og = o.get("p")
    if not og or len(og) != 1:
        return None
    ds = b.defs.get(og[0], [])
    if len(ds) == 1 and ds[0][0] == "call":
        f = callee(ds[0][-1])
        if f and short(f["n"]).rpartition("::")[2].startswith("checked_"):
            return ds[0][-1]
    if len(ds) == 1 and ds[0][0] == "=" and ds[0][3]["r"]["k"] == "use":
        return checked_source(b, ds[0][3]["r"]["o"][0])
    return None


def check(pid, prog, rep):
    rep.rule("no-overflow", "a number given by a caller is not an operand of an unchecked addition, multiplication or subtraction, unless a comparison bounds it on every path to this place")
    rep.rule("no-reservation", "a number given by a caller is not the amount of memory to reserve or of items to create, unless it has been bounded before")
    rep.rule("no-rounds", "the number of rounds of a loop is not determined by a number of the caller alone: no countdown starts at an unbounded number of the caller, and a loop up to it can end earlier")
    rep.rule("no-position", "a number given by a caller is not used as index or border of a slice, unless a comparison bounds it on every path to this place")
    src = sources(prog)
    fl = Flow(prog)
    fl.run(set(src))
    for s, n in sorted(src.items(), key=lambda x: x[1]):
        rep.rule("no-overflow")["sites"].append("source " + n)
    rep.floor("no-overflow", "numbers given by callers", len(src), 10)
    byf = collections.defaultdict(set)
    for n in fl.why:
        if n[0] == "l":
            byf[n[1]].add(n[2])
    # storage, search and the request handlers must be reached by the flow
    for name in ("find_in_single_corpus", "create_find_iterator_for_query"):
        ok = any(prog.root_fn(x).name.endswith(name) for x in byf)
        if not ok and prog.find(name):
            rep.bad("no-overflow", "anchor-missing:%s is not reached" % name, "-", "the numbers given by callers no longer reach this function: the flow is not followed completely")
    rep.floor("no-overflow", "functions that handle numbers given by callers", len({prog.root_fn(x).id for x in byf}), 12)

    def why(b, n):
        s = fl.why[n][0]
        path, x = [], n
        while x is not None and len(path) < 40:
            path.append(x)
            x = fl.why[x][1]
        fns = []
        for x in reversed(path):
            w = prog.root_fn(x[1]).name.rpartition("::")[2] if x[0] == "l" else ("%s.%s" % (x[1].rpartition("::")[2], x[2]) if x[0] == "f" else None)
            if w and (not fns or fns[-1] != w):
                fns.append(w)
        return "%s given by the caller flows through %s" % (src[s], " -> ".join(fns))

    def key(b, what, n):
        return "%s: %s of %s" % (prog.root_fn(b.id).name, what, src[fl.why[n][0]])

    for b in sorted(prog.bodies.values(), key=lambda x: x.id):
        live = None

        def t_of(o):
            if not o.get("p"):
                return None
            n = fl.node(b, o["p"])
            return n if n in fl.why else None

        for i, bb in enumerate(b.bbs):
            for s in bb["s"]:
                if s["k"] != "=" or s["r"]["k"] != "bin":
                    continue
                r = s["r"]
                op = r["b"]
                kind = next((k for k in ("Add", "Mul", "Sub", "Shl") if op.startswith(k)), None)
                if kind is None:
                    continue
                hit = [(j, o, t_of(o)) for j, o in enumerate(r["o"]) if t_of(o)]
                if not hit:
                    continue
                o0 = hit[0][1]
                ty = b.ltys[s["p"][0]]
                if any(x.k == "prim" and x.s in WIDE for x in ty.walk()):
                    rep.ok("no-overflow", "%s in wide arithmetic at %s" % (kind, loc(b, s.get("l"))))
                    continue
                if live is None:
                    live = b.live_blocks()
                if i not in live:
                    continue
                bad = None
                for j, o, n in hit:
                    if kind == "Sub":
                        k = "sub" if j == 0 else "sub-right"
                    else:
                        k = "add"
                    if not guarded(b, i, o, k, t_of) and not (kind == "Sub" and j == 0 and below(b, i, r["o"][1], t_of)):
                        bad = n
                if bad:
                    rep.bad("no-overflow", key(b, OPNAME[kind], bad), loc(b, s.get("l")), "%s; the result can leave the range of the type" % why(b, bad))
                else:
                    rep.ok("no-overflow", "%s at %s is bounded by a comparison" % (kind, loc(b, s.get("l"))))
            t = bb["t"]
            if t["k"] == "assert" and t["m"] == "bounds":
                # index of an array or slice: operand is the comparison idx < len
                sp = t["o"].get("p")
                ds = b.defs.get(sp[0], []) if sp else []
                if len(ds) == 1 and ds[0][0] == "=" and ds[0][3]["r"]["k"] == "bin":
                    o = ds[0][3]["r"]["o"][0]
                    n = t_of(o)
                    if n:
                        if guarded(b, i, o, "index", t_of):
                            rep.ok("no-position", "index at %s is bounded" % loc(b, t.get("l")))
                        else:
                            rep.bad("no-position", key(b, "index", n), loc(b, t.get("l")), "%s; an index that is too large panics" % why(b, n))
                continue
            if t["k"] != "call":
                continue
            f = callee(t)
            if f is None or prog.targets(b, f):
                continue
            name = short(f["n"]).rpartition("::")[2]
            if name in CHECKED_UNWRAP and t["args"]:
                ct = checked_source(b, t["args"][0])
                if ct is not None:
                    for o in ct["args"]:
                        n = t_of(o)
                        if n:
                            rep.bad("no-overflow", key(b, "unwrapped checked operation", n), loc(b, t.get("l")), "%s; the checked operation fails for large numbers and its result is unwrapped" % why(b, n))
                            break
                continue
            if name in ARITH and ("core::ops::arith" in f["n"] or "core::ops::bit" in f["n"] or ARITH[name] == "Mul" and name not in ("mul", "mul_assign")):
                # arithmetic on references to numbers and on durations
                kind = ARITH[name]
                bad = None
                for j, o in enumerate(t["args"]):
                    n = t_of(o)
                    if not n or has_wide(b, t):
                        continue
                    k = ("sub" if j == 0 else "sub-right") if kind == "Sub" else "add"
                    if not guarded(b, i, o, k, t_of) and not (kind == "Sub" and j == 0 and len(t["args"]) > 1 and below(b, i, t["args"][1], t_of)):
                        bad = n
                if bad:
                    rep.bad("no-overflow", key(b, OPNAME[kind], bad), loc(b, t.get("l")), "%s; the result can leave the range of the type" % why(b, bad))
                else:
                    rep.ok("no-overflow")
                continue
            if name in SUMS and t["args"]:
                n = t_of(t["args"][0])
                if n:
                    rep.bad("no-overflow", key(b, name, n), loc(b, t.get("l")), "%s; the %s can leave the range of the type" % (why(b, n), name))
                continue
            if name in RESERVE:
                for o in t["args"]:
                    n = t_of(o)
                    ty = b.ltys[o["p"][0]].peel() if o.get("p") else None
                    if n and ty.k == "prim" and ty.s in INTS:
                        if guarded(b, i, o, "add", t_of):
                            rep.ok("no-reservation", "%s at %s is bounded" % (name, loc(b, t.get("l"))))
                        else:
                            rep.bad("no-reservation", key(b, name, n), loc(b, t.get("l")), "%s; memory for this number of items is requested at once" % why(b, n))
                            break
                else:
                    rep.ok("no-reservation")
                continue
            if name in CUT:
                rt = b.ltys[t["args"][0]["p"][0]].peel() if t["args"] and t["args"][0].get("p") else None
                if rt is None or not (rt.k in ("slice", "array") or rt.is_adt("alloc::vec::Vec", "VecDeque", "String", "SmallVec") or rt.s == "str"):
                    continue
                for o in t["args"][1:2]:
                    n = t_of(o)
                    if n:
                        ok = guarded(b, i, o, "index" if name in ("index", "index_mut", "remove", "swap_remove", "swap") else "add", t_of) or range_guarded(b, i, o, t_of)
                        if ok:
                            rep.ok("no-position", "%s at %s is bounded" % (name, loc(b, t.get("l"))))
                        else:
                            rep.bad("no-position", key(b, name, n), loc(b, t.get("l")), "%s; a position that is too large panics" % why(b, n))
        rounds(b, fl, t_of, rep, key, why)
    rep.fns(prog.root_fn(x).name for x in byf)
    rep.extra["flow edges"] = sum(len(v) for v in fl.edges.values()) + len(fl.cond)
    rep.extra["places that hold numbers given by callers"] = len(fl.why)
    rep.extra["calls followed"] = fl.calls


def has_wide(b, t):
    return any(x.k == "prim" and x.s in WIDE for x in b.ltys[t["d"][0]].walk())


CONSUME = {"for_each", "try_for_each", "collect", "fold", "try_fold", "count", "last", "sum", "product", "max", "min", "max_by", "min_by", "max_by_key", "min_by_key", "extend", "partition", "unzip"}


def range_of(b, o, depth=0):
    """(end operand, block) of the range an iterator is made of, following adaptors backwards"""
    p = o.get("p")
    if not p or depth > 12:
        return None
    ds = b.defs.get(p[0], [])
    for d in ds:
        if d[0] == "=":
            r = d[3]["r"]
            if r["k"] == "agg" and r["g"] == "adt" and r["d"].startswith("core::ops::range::Range") and len(r["o"]) > 1:
                return r["o"][1], d[1]
            if r["k"] == "use" and r["o"][0].get("p"):
                return range_of(b, r["o"][0], depth + 1)
            if r["k"] == "ref":
                return range_of(b, {"p": r["p"]}, depth + 1)
        elif d[0] == "call":
            t = d[-1]
            f = callee(t)
            if f is None or not t["args"]:
                continue
            n = short(f["n"])
            if n.rpartition("::")[2] == "new" and "RangeInclusive" in f["n"] and len(t["args"]) > 1:
                return t["args"][1], d[1]
            if n.rpartition("::")[2] in ("take", "take_while", "map_while", "zip", "scan"):
                # ends earlier
                return None
            if b.ltys[t["d"][0]].has_adt("core::ops::range::Range", "core::ops::range::RangeInclusive"):
                return range_of(b, t["args"][0], depth + 1)
    return None


def rounds(b, fl, t_of, rep, key, why):
    """loops over a range whose end is given by the caller"""
    for i, t in b.calls():
        f = callee(t)
        if f is None or not t["args"] or not t["args"][0].get("p"):
            continue
        name = short(f["n"]).rpartition("::")[2]
        if name not in CONSUME and name not in ("rev", "next"):
            continue
        if name == "next" and i not in fl_loops(b):
            continue
        if not b.ltys[t["args"][0]["p"][0]].has_adt("core::ops::range::Range", "core::ops::range::RangeInclusive"):
            continue
        e = range_of(b, t["args"][0])
        if e is None or not t_of(e[0]):
            continue
        if guarded(b, e[1], e[0], "add", t_of):
            rep.ok("no-rounds", "range at %s is bounded" % loc(b, t.get("l")))
            continue
        n = t_of(e[0])
        if name == "next":
            if other_exit(b, i):
                rep.ok("no-rounds", "the loop at %s can end before the number is reached" % loc(b, t.get("l")))
                continue
            msg = "and is the number of rounds of a loop which can only end when this number has been reached"
        elif name == "rev":
            msg = "and is the start of a countdown: the number of rounds does not depend on the size of the data"
        else:
            msg = "and is the number of rounds of %s" % name
        rep.bad("no-rounds", key(b, "rounds of a loop", n), loc(b, t.get("l")), "%s %s" % (why(b, n), msg))


def fl_loops(b):
    r = set()
    for blocks in b.loops().values():
        r |= blocks
    return r


def other_exit(b, i):
    """does the innermost loop around the call of next in block i have an exit besides the end of the iterator?"""
    inner = min((bl for bl in b.loops().values() if i in bl), key=len)
    # the switch on the result of next
    sw, x = None, i
    for _ in range(6):
        ss = [s for s in b.succ(x) if s in inner]
        if b.bbs[x]["t"]["k"] == "switch" and x != i:
            sw = x
            break
        if len(ss) != 1:
            break
        x = ss[0]
    live = b.live_blocks()
    for x in inner:
        if x not in live or x == sw or b.bbs[x]["t"]["k"] in ("assert",):
            continue
        for s in b.succ(x):
            if s not in inner and b.bbs[s]["t"]["k"] not in ("unreachable", "cleanup"):
                return True
    return False


def range_guarded(b, bb, o, t_of):
    """the borders of a range: each tainted one is bounded"""
    p = o.get("p")
    if not p or len(p) != 1:
        return False
    ds = b.defs.get(p[0], [])
    if len(ds) != 1 or ds[0][0] != "=" or ds[0][3]["r"]["k"] != "agg":
        return False
    os = [x for x in ds[0][3]["r"]["o"] if t_of(x)]
    return bool(os) and all(guarded(b, bb, x, "add", t_of) for x in os)
