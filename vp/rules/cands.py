"""C31: every candidate node is searched completely, once and with all of its conditions.

* The search created for each kind of node specification is interpreted abstractly: the lazy iterator it builds is kept as a
  chain of adaptors, whose closures are run on an abstract item, and the description it stores (annotation name, filters,
  constant output) is compared with the search: same annotation, filters that accept exactly the values that are searched,
  leaf check on both sides or on none, same output annotation, one result per node for a constant output annotation.
* The search over all nodes of components is run on abstract items in the same way.
* A search is only replaced by the search over components on paths where the operator needs an outgoing edge and the node is
  its left operand; only operators with a minimal distance of at least one need an outgoing edge."""
from ..facts import callee, short
from ..interp import Client, Interp, OK, ERR, SOME, NONE, UNIT, TRUE, FALSE, fget, variant
from ..report import loc
from .layers import F, struct, sym, strip
from .joins import adt_name

CRATE = "graphannis"
NODE, KEY = ("x", "node"), ("x", "key")
SELF = ("x", "g", (("own", NODE, KEY),))
LAZY = ("map", "filter", "filter_map", "flat_map", "map_ok", "filter_ok", "filter_map_ok", "unique_by", "flatten_ok", "flatten", "map_err")
SAME = ("fuse", "into_iter", "by_ref", "iter", "collect", "cloned", "copied", "peekable", "as_slice", "deref")
LOSSY = ("take", "skip", "step_by", "take_while", "skip_while", "dedup", "dedup_by", "unique", "nth", "last", "flat_map_ok", "while_some", "map_while", "scan")


def item():
    return struct([("node", NODE), ("anno_key", KEY)])


class Cands(Client):
    def __init__(self, prog, mod):
        self.prog, self.mod = prog, mod
        self.bad = []

    def interesting(self, bid):
        return bid in self.mod

    def alarm(self, ast, what):
        self.bad.append(what)
        return ast

    def fork(self, ast, key, neg=False):
        old = F.get(ast, key)
        return [(F.set(ast, key, b), TRUE if b != neg else FALSE) for b in ((True, False) if old is None else (old,))]

    def pipe(self, v):
        return sym(v) and v[1] in ("pipe", "search", "comps", "compset", "nodes", "keys", "fs", "conds")

    # --- single matches
    def group(self, v):
        """normal form of a match: (node, annotation)"""
        if sym(v, "m0"):
            return (NODE, KEY)
        if v is None or v[0] != "a":
            return None
        n, k = fget(v, "node"), fget(v, "anno_key")
        if n is None and k is None:
            n, k = fget(v, "0"), fget(v, "1")
        return (n, k)

    def field(self, ip, body, base, name, owner):
        if base is None:
            return None
        if sym(base, "keyof"):
            return ("x", "kf", base[2], name) if name in ("ns", "name") else None
        if sym(base, "desc"):
            return {"const_output": ("x", "const"), "cond": ("x", "conds"), "qname": ("x", "qname")}.get(name)
        if sym(base, "qname") and len(base) == 2:
            return ("x", "qname", name)
        if sym(base, "const") and name == "0":
            return ("x", "constanno")
        if sym(base, "entry"):
            return ("x", "op") if name == "op" else ("x", "args") if name == "args" else None
        if sym(base, "args"):
            return ("x", "arg", name) if name in ("left", "right") else None
        if sym(base, "ed") and name in ("component_nr",):
            return ("x", name)
        if base[0] == "x" and base[1] in ("arg", "component_nr") and name == "0":
            return base
        return None

    def branch(self, ip, body, bb, ast, s, taken):
        if s[1] == "const" and taken in ("Some", "None"):
            t = taken == "Some"
            old = F.get(ast, "const")
            return None if old not in (None, t) else F.set(ast, "const", t)
        if s[1] == "few":
            return F.set(ast, "unique", True) if taken else ast
        if s[1] in ("isleft", "isnotleft"):
            t = bool(taken) == (s[1] == "isleft")
            return F.set(ast, "left", t)
        if s[1] == "need":
            return F.set(ast, ("need", s[2]), bool(taken))
        return ast

    def binop(self, ip, body, op, a, b):
        if sym(b, "inl") and op == "Le":
            return TRUE
        if sym(a, "qlen") and b is not None and b[0] == "i":
            if (op == "Le" and b[1] <= 1) or (op == "Lt" and b[1] <= 2) or (op == "Eq" and b[1] <= 1):
                return ("x", "few", a[2])
            if (op == "Gt" and b[1] == 1) or (op == "Ge" and b[1] == 2):
                return ("not", ("x", "few", a[2]))
        if op.startswith("Sub") and sym(a, "arg"):
            return a
        if op.startswith("Add") and sym(a, "component_nr"):
            return a
        if op in ("Eq", "Ne") and {x[1:] for x in (a, b) if sym(x)} in ({("arg", "left"), ("component_nr",)},):
            return ("x", "isleft" if op == "Eq" else "isnotleft")
        return None

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return None
        n = short(f["n"])
        own, _, m = n.rpartition("::")
        a0 = args[0] if args else None
        a1 = args[1] if len(args) > 1 else None
        if n == "Deref::deref" and "p" in t["args"][0]:
            ty = body.ltys[t["args"][0]["p"][0]].peel_refs()
            if ty.k == "adt" and ty.d.rsplit("::", 1)[1].isupper():
                return [(ast, ("x", "keyof", ty.d.rsplit("::", 1)[1]))]
        dty = body.ltys[t["d"][0]] if len(t["d"]) == 1 or not t["d"][1] else None
        if m == "into" and dty is not None and adt_name(dty) == "ValueSearch":
            v = variant(a0)
            if v == "None":
                return [(ast, ("a", "Any", ()))]
            return [(ast, a0)]
        if own == "ValueSearch" and m in ("as_ref", "map", "clone"):
            return [(ast, a0)]
        if own == "Option" and m == "map" and a1 is not None and a1[0] == "fn" and a1[1].rsplit("::", 1)[1] in ("as_str", "as_ref", "deref", "clone", "to_string"):
            return [(ast, a0)]
        if n == "Clone::clone" and a0 is not None and a0[0] in ("a", "x", "c") and not self.pipe(a0):
            return [(ast, a0)]
        if own == "Option" and m in ("as_deref", "as_ref", "cloned") and a0 is not None and a0[0] == "a":
            return [(ast, a0)]
        if own == "SmallVec" and m == "inline_size":
            return [(ast, ("x", "inl"))]
        if own in ("SmallVec", "Vec", "HashSet") and m in ("new", "with_capacity", "default") or n == "Default::default":
            nm = adt_name(dty) if dty is not None else None
            if nm == "HashSet":
                return [(ast, ("x", "set", body.id, bb))]
            if nm == "SmallVec":
                return [(ast, ("x", "g", ()))]
            if nm == "Vec" and any(x.k == "dyn" and "Fn" in x.s for x in dty.walk()):
                return [(ast, ("x", "fs", ()))]
            return None
        if sym(a0, "g") and m == "push":
            k = self.group(a1)
            return [(ast, UNIT, {0: ("x", "g", a0[2] + (("own",) + k if k else ("?",),))})]
        if m == "box_assume_init_into_vec_unsafe" and a0 is not None and a0[0] == "a":
            a0 = strip(fget(a0, "value") or a0, ("value",))
        if m in ("into_vec", "into_boxed_slice", "box_assume_init_into_vec_unsafe") and (variant(a0) == "[]" or sym(a0, "fs")):
            if sym(a0, "fs"):
                return [(ast, a0)]
            ln = fget(a0, "#")
            return [(ast, ("x", "fs", tuple(fget(a0, str(i)) for i in range(ln[1] if ln else 0))))]
        if sym(a0, "fs"):
            if m == "push":
                return [(ast, UNIT, {0: ("x", "fs", a0[2] + (a1,))})]
            if m in ("extend", "append") and sym(a1, "fs"):
                return [(ast, UNIT, {0: ("x", "fs", a0[2] + a1[2])})]
            if m == "clear":
                return [(ast, UNIT, {0: ("x", "fs", ())})]
        if sym(a0, "set") and m == "contains":
            if a1 != NODE:
                return [(ast, FALSE), (F.set(ast, "lost", True), TRUE)]
            dup = [(F.set(ast, "dup", True), TRUE)]
            return dup if F.get(ast, ("ins", a0)) else [(F.set(ast, ("new", a0), True), FALSE)] + dup
        if sym(a0, "set") and m == "insert":
            if a1 != NODE:
                return [(ast, TRUE, "keep"), (F.set(ast, "lost", True), FALSE, "keep")]
            seen = F.get(ast, ("ins", a0))
            again = [] if F.get(ast, ("new", a0)) and not seen else [(F.set(ast, "dup", True), FALSE, "keep")]
            return again if seen else [(F.set(F.set(ast, "unique", True), ("ins", a0), True), TRUE, "keep")] + again
        # searches
        if m in ("exact_anno_search", "regex_anno_search"):
            if m == "exact_anno_search":
                kind, val = variant(args[3]), strip(fget(args[3], "0"), ("Some",)) if args[3] is not None else None
            else:
                kind = {TRUE: "NotRe", FALSE: "Re"}.get(args[4])
                val = args[3]
            return [(ast, ("x", "search", args[1], args[2], kind, val))]
        if m == "exact_value_for_regex":
            return [(ast, SOME(("x", "exact", a0))), (ast, NONE)]
        if m == "regex_full_match":
            return [(ast, ("x", "full", a0))]
        if n == "Regex::new":
            return [(ast, OK(("x", "re", a0))), (ast, ERR())]
        if sym(a0, "re") and m == "is_match":
            if a1 != ("x", "value"):
                ast = self.alarm(ast, "does not check the value of the match")
            return self.fork(ast, ("re", a0[2]))
        if m in ("eq", "ne") and len(args) == 2 and ("x", "value") in args:
            o = a1 if a0 == ("x", "value") else a0
            return self.fork(ast, ("eq", o), neg=m == "ne")
        if m == "get_value_for_item":
            if args[1:3] != [NODE, KEY]:
                ast = self.alarm(ast, "checks the value of another annotation than the matching one")
            return [(F.set(ast, "absent", False), OK(SOME(("x", "value")))), (F.set(ast, "absent", True), OK(NONE)), (F.set(ast, "err", True), ERR())]
        if m == "get_qnames":
            return [(ast, OK(("x", "qnames", a1))), (ast, ERR())]
        if sym(a0, "qnames") and m == "len":
            return [(ast, ("x", "qlen", a0[2]))]
        if m == "get_all_components":
            return [(ast, ("x", "comps", variant(strip(a1, ("Some",))), a1 is not None and variant(a1)))]
        if m in ("get_graphstorage", "get_graphstorage_as_ref"):
            o = a1[2] if sym(a1, "comp") else None
            return [(ast, SOME(("x", "gs", o))), (F.set(ast, "nogs", True), NONE)]
        if sym(a0, "gs"):
            if m == "get_outgoing_edges":
                return [(ast, ("x", "out", a0[2], a1))]
            if m == "source_nodes":
                return [(ast, ("x", "nodes"))]
            if m == "get_anno_storage":
                return [(ast, ("x", "annos"))]
        if sym(a0, "out") and m == "next":
            if a0[2] != "Coverage" or a0[3] != NODE:
                ast = self.alarm(ast, "checks other edges than the coverage edges of the node")
            return [(F.set(ast, "cov", True), SOME(OK())), (F.set(ast, "err", True), SOME(ERR())), (ast, NONE)]
        if m == "get_all_keys_for_item":
            if list(args[1:4]) != [NODE, ("x", "qname", "0"), ("x", "qname", "1")]:
                ast = self.alarm(ast, "does not search the annotation of the replaced search")
            return [(ast, OK(("x", "keys"))), (F.set(ast, "err", True), ERR())]
        if sym(a0, "qname") and m in ("as_deref", "as_ref", "as_str"):
            return [(ast, a0)]
        if sym(a0, "conds") and m in ("iter", "into_iter", "as_slice", "deref"):
            return [(ast, a0)]
        if sym(a0, "conds") and m == "len":
            return [(ast, ("x", "condlen"))]
        if m in ("into_iter", "next") and fget(a0, "end") == ("x", "condlen") and fget(a0, "start") == ("i", 0):
            if m == "into_iter":
                return [(ast, ("x", "conds"))]
            a0 = ("x", "conds")
        if sym(a0, "conds") and m in ("index", "get", "get_unchecked") and sym(a1, "condfn"):
            return [(ast, SOME(a1) if m == "get" else a1)]
        if sym(a0, "conds") and m == "next":
            if F.get(ast, "condpend"):
                ast = self.alarm(ast, "does not check every condition of the replaced search")
            r = [(F.set(ast, "condall", True), NONE)]
            if not F.get(ast, "condall"):
                r.append((F.set(ast, "condpend", True), SOME(("x", "condfn"))))
            return r
        if sym(a0, "condfn") and m in ("call", "call_mut", "call_once"):
            if self.group(fget(a1, "0")) != (NODE, KEY):
                ast = self.alarm(ast, "checks the conditions of the replaced search on another match")
            ast = F.set(ast, "condpend", None)
            return [(ast, OK(TRUE)), (F.set(ast, "condfail", True), OK(FALSE)), (F.set(ast, "err", True), ERR())]
        if sym(a0, "const") and m in ("is_some", "is_none"):
            r = self.fork(ast, "const")
            return r if m == "is_some" else [(a, FALSE if v == TRUE else TRUE) for a, v in r]
        if sym(a0, "comps") and m == "next" or (sym(a0, "pipe") and m == "next"):
            els = [(a, el) for a, k, el in self.elements(ip, a0, ast) if k == "kept"]
            return [(a, SOME(el)) for a, el in dict.fromkeys(els)] + [(ast, NONE)]
        # lazy iterators
        if self.pipe(a0) and not sym(a0, "fs"):
            if m in LAZY:
                return [(ast, ("x", "pipe", m, a0, a1))]
            if m in SAME:
                return [(ast, a0)]
            if m in LOSSY:
                return [(self.alarm(ast, "leaves out candidates without checking them"), a0)]
        if own in ("iter", "empty") and m == "empty":
            return [(ast, ("x", "pipe", "empty", None, None))]
        return self.more(ip, body, bb, t, f, ast, args, n, own, m)

    def more(self, ip, body, bb, t, f, ast, args, n, own, m):
        return None

    def elements(self, ip, pv, ast):
        """(state, "kept"/"dropped", item) of the items of a lazy iterator"""
        if not sym(pv):
            return [(self.alarm(ast, "uses candidates of unknown origin"), "dropped", None)]
        k = pv[1]
        if k == "search":
            ast = F.set(ast, "searched", pv[2:])
            return [(ast, "kept", OK(item())), (F.set(ast, "err", True), "kept", ERR())]
        if k == "comps":
            return [(ast, "kept", ("x", "comp", pv[2]))]
        if k == "compset":
            return [(ast, "kept", ("x", "comp", "?"))]
        if k == "nodes":
            return [(F.set(ast, "searched", ("nodes",)), "kept", OK(NODE)), (F.set(ast, "err", True), "kept", ERR())]
        if k == "keys":
            # further annotations of the same node
            return [(F.set(F.set(ast, "nodeunique", F.get(ast, "unique")), "unique", None), "kept", KEY)]
        if k == "fs":
            return [(ast, "kept", x) for x in pv[2]]
        if k != "pipe":
            return [(self.alarm(ast, "uses candidates of unknown origin"), "dropped", None)]
        m, base, cl = pv[2:]
        if m == "empty":
            return []
        out = []
        for a, kept, el in self.elements(ip, base, ast):
            if kept == "dropped":
                out.append((a, kept, el))
                continue
            v, p = variant(el), fget(el, "0") if el is not None and el[0] == "a" else None
            if m == "map":
                out += [(a2, "kept", r) for a2, r in ip.run_closure(cl, [el], a)]
            elif m in ("filter", "filter_ok"):
                if m == "filter_ok" and v == "Err":
                    out.append((a, "kept", el))
                    continue
                for a2, r in ip.run_closure(cl, [p if m == "filter_ok" else el], a):
                    y, no = ip.truth(None, 0, a2, r)
                    if y is not None:
                        out.append((y, "kept", el))
                    if no is not None:
                        out.append((no, "dropped", el))
            elif m == "filter_map":
                for a2, r in ip.run_closure(cl, [el], a):
                    if variant(r) != "None":
                        out.append((a2, "kept", strip(r, ("Some",))))
                    if variant(r) != "Some":
                        out.append((a2, "dropped", el))
            elif m in ("flat_map", "flatten", "flatten_ok"):
                inner = [(a, el)]
                if m == "flat_map":
                    inner = ip.run_closure(cl, [el], a)
                elif m == "flatten_ok":
                    if v == "Err":
                        out.append((a, "kept", el))
                        continue
                    inner = [(a, p)]
                for a2, pv2 in inner:
                    for a3, k3, e3 in self.elements(ip, pv2, a2):
                        out.append((a3, k3, OK(e3) if m == "flatten_ok" and k3 == "kept" else e3))
            elif m == "map_ok":
                out += [(a2, "kept", OK(r)) for a2, r in ip.run_closure(cl, [p], a)] if v == "Ok" else [(a, "kept", el)]
            elif m == "map_err":
                out.append((a, "kept", el))
            elif m == "filter_map_ok":
                if v == "Err":
                    out.append((a, "kept", el))
                    continue
                for a2, r in ip.run_closure(cl, [p], a):
                    if variant(r) != "None":
                        out.append((a2, "kept", OK(strip(r, ("Some",)))))
                    if variant(r) != "Some":
                        out.append((a2, "dropped", el))
            elif m == "unique_by":
                for a2, r in ip.run_closure(cl, [el], a):
                    s = str(r)
                    if v == "Ok" and r in (NODE, SOME(NODE), OK(NODE)):
                        out += [(F.set(a2, "unique", True), "kept", el), (F.set(a2, "dup", True), "dropped", el)]
                    elif v == "Err":
                        out.append((a2, "kept", el))
                    else:
                        out += [(a2, "kept", el), (F.set(a2, "lost", True) if str(NODE) not in s else a2, "dropped", el)]
            else:
                out.append((self.alarm(a, "uses candidates of unknown origin"), "dropped", el))
        return list(dict.fromkeys(out))


class Check:
    def __init__(self, pid, prog, rep):
        self.prog, self.rep = prog, rep
        rep.rule("cands.same", "a node search finds the nodes its description accepts: same annotation, values, leaf check and output annotation")
        rep.rule("cands.once", "a search with a constant output annotation and the search over components yield each node once")
        rep.rule("cands.replace", "a search is only replaced by the search over components for the left operand of an operator which needs an outgoing edge")
        self.desc = [i for i in prog.adts if i.endswith("::NodeSearchDesc")]
        self.from_spec()
        self.components()
        self.replace()

    def report(self, rule, b, cfg, prob, n=1):
        if prob:
            for p in sorted(set(prob)):
                self.rep.bad(rule, "%s|%s|%s" % (b.name, cfg, p), loc(b), "%s (%s)" % (p, cfg))
        else:
            for _ in range(max(1, n)):
                self.rep.ok(rule, "%s %s" % (b.name, cfg))

    def methods(self, name):
        return [b for b in self.prog.bodies.values() if b.crate == CRATE and b.kind == "method" and b.selfty is not None and adt_name(b.selfty) == name]

    def mod(self, b):
        return {x.id for x in self.prog.bodies.values() if x.file == b.file and x.crate == CRATE and x.kind != "promoted"}

    def filters(self, ip, cl, fs, want, prob):
        """evaluates the filters: accepted iff the value fits (and the node is a leaf)"""
        leaf = False
        value = False
        outs = []
        for fn in fs:
            res = ip.run_closure(fn, [item(), None], frozenset())
            outs.append(res)
        states = [(frozenset(), True)]
        for res in outs:
            # combine: all filters need to accept
            new = []
            for st, acc in states:
                for a, v in res:
                    new.append((st | a, acc and v == OK(TRUE), variant(v) == "Err", v))
            states = [(a, acc) for a, acc, e, v in new if not e]
        for a, acc in set(states):
            d = {}
            clash = False
            for f in a:
                if d.setdefault(f[0], f[1]) != f[1]:
                    clash = True
            if clash:
                continue
            exp = True
            if want["kind"] != "Any":
                keys = [x for x in d if isinstance(x, tuple)]
                known = [d[x] for x in keys if x in want["tests"]]
                if d.get("absent"):
                    exp = False
                elif not known:
                    exp = None
                else:
                    exp = known[0] != want["neg"]
            if d.get("cov"):
                exp = False if want["leaf"] else None
                leaf = True
            if acc and exp is not True and not (exp is False and False):
                prob.append("the description accepts nodes the search does not find")
            if not acc and exp is True:
                prob.append("the description rejects nodes the search finds")
            if d.get("cov") and not want["leaf"]:
                prob.append("the description rejects nodes the search finds")
        if want["leaf"] and not leaf:
            prob.append("the description does not check that the node is a leaf")
        if not fs and want["kind"] != "Any":
            prob.append("the description does not check the value")

    def from_spec(self):
        prog = self.prog
        spec = [i for i in prog.adts if i.endswith("::NodeSearchSpec")]
        bs = [b for b in self.methods("NodeSearch") if spec and any(b.ltys[i].is_adt(spec[0]) for i in range(1, b.argc + 1)) and any(x.is_adt(b.selfty.d) for x in b.ltys[0].walk())]
        if not self.rep.floor("cands.same", "functions creating a node search from its specification", len(bs), 1) and not bs:
            return
        n = 0
        self.desc_n = 0
        for b in bs:
            self.rep.fns(x for x in self.mod(b))
            for v in prog.adts[spec[0]]["variants"]:
                opts = [()]
                for fn, ty, _pub in v["f"]:
                    s = ("x", "sp", fn)
                    if ty.k == "adt" and ty.d.endswith("option::Option"):
                        ch = [NONE, SOME(s)]
                    elif ty.s == "bool":
                        ch = [TRUE, FALSE]
                    else:
                        ch = [s]
                    opts = [o + ((fn, c),) for o in opts for c in ch]
                for o in opts:
                    cfg = v["n"] if "n" in v else v.get("name", "?")
                    n += self.spec(b, cfg, o)
        self.rep.floor("cands.same", "kinds of node searches", n, 12)
        self.rep.floor("cands.same", "descriptions of node searches", self.desc_n, 24)

    def spec(self, b, name, fields):
        prog = self.prog
        sv = ("a", name, tuple(sorted(fields)))
        fd = dict(fields)
        cl = Cands(prog, self.mod(b))
        ip = Interp(prog, cl)
        args = tuple(sv if b.ltys[i].peel_refs().k == "adt" and b.ltys[i].peel_refs().d.endswith("::NodeSearchSpec") else None for i in range(1, b.argc + 1))
        outs = ip.run(b.id, args, frozenset()) or []
        cfg = name + ("" if not fd else " " + " ".join("%s=%s" % (k, "yes" if v == TRUE else "no" if v == FALSE else "none" if v == NONE else "given") for k, v in sorted(fd.items()) if v[0] != "x"))
        prob, seen = list(cl.bad), 0
        for ast, val, _m in set(outs):
            if variant(val) != "Ok":
                continue
            s = fget(val, "0")
            d = fget(s, "node_search_desc")
            it = fget(s, "it")
            seen += 1
            if d is None or d[0] != "a":
                prob.append("has no known description")
                continue
            qn, cond, const = fget(d, "qname"), fget(d, "cond"), fget(d, "const_output")
            if not sym(cond, "fs"):
                prob.append("has unknown filters")
                continue
            cst = fget(const, "0") if variant(const) == "Some" else None
            ca = Cands(prog, self.mod(b))
            ip2 = Interp(prog, ca)
            want = {"kind": "Any", "neg": False, "tests": (), "leaf": False}
            if it is None or not sym(it):
                # a search implemented by another type: all tokens
                want["leaf"] = not fd
                if qn is None:
                    prob.append("describes another annotation than the searched one")
                self.filters(ip2, ca, cond[2], want, prob)
                prob += ca.bad
                self.described(sv, cfg, want, qn)
                continue
            leafs, uniq, once, search = False, True, False, None
            for a, kept, el in ca.elements(ip2, it, frozenset(f for f in ast if f[0] == "unique")):
                se = F.get(a, "searched")
                if se is not None:
                    search = se
                if F.get(a, "err"):
                    if kept == "dropped" or variant(el) != "Err":
                        prob.append("drops errors of the search")
                    continue
                if kept == "dropped":
                    if F.get(a, "cov"):
                        leafs = True
                    elif F.get(a, "dup"):
                        once = True
                    else:
                        prob.append("leaves out found nodes without a reason")
                    continue
                g = strip(el, ("Ok",))
                k = g[2][0][1:] if sym(g, "g") and len(g[2]) == 1 and len(g[2][0]) == 3 else None
                if k is None or k[0] != NODE:
                    prob.append("reports something else than the found node")
                    continue
                if F.get(a, "cov"):
                    prob.append("reports nodes that are not leafs only sometimes")
                if not F.get(a, "unique"):
                    uniq = False
                ko = k[1]
                if cst is None and ko != KEY:
                    prob.append("reports another annotation than described")
                if cst is not None and ko != cst:
                    if not (ko == KEY and search and search[0] == SOME(("x", "kf", cst[2], "ns")) and search[1] == ("x", "kf", cst[2], "name")):
                        prob.append("reports another annotation than described")
            prob += ca.bad
            if search is None or len(search) != 4:
                prob.append("does not search for annotations")
                continue
            ns, nm, kind, sval = search
            if qn != ("a", None, (("0", ns), ("1", SOME(nm)))):
                prob.append("describes another annotation than the searched one")
            if kind is None:
                prob.append("searches for unknown values")
            if cst is not None and variant(ns) != "Some" and not uniq:
                prob.append("yields a node once per annotation with this name")
            if "ns" in fd and (ns != fd["ns"] or nm != fd.get("name")):
                prob.append("searches another annotation than specified")
            # what the specification asks for
            ex = strip(fd["val"], ("Some",)) if "val" in fd and fd["val"] != NONE else None
            spec_re = sym(sval, "exact") or kind in ("Re", "NotRe")
            raw = sval[2] if sym(sval, "exact") else sval
            if "val" in fd and kind != "Any" and raw != ex:
                prob.append("searches another value than specified")
            if "val" in fd and (kind == "Any") != (fd["val"] == NONE):
                prob.append("does not search for the specified value")
            want["kind"] = kind
            want["neg"] = kind in ("NotSome", "NotRe")
            want["tests"] = (("re", ("x", "full", raw)),) if spec_re else (("eq", sval),)
            if name.startswith("Not") != want["neg"] and "val" in fd:
                prob.append("searches for the opposite of what is specified")
            if ("Regex" in name) != spec_re and "val" in fd:
                prob.append("searches literally for a pattern or vice versa")
            want["leaf"] = leafs
            if "leafs_only" in fd and (fd["leafs_only"] == TRUE) != leafs:
                prob.append("does not respect that only leafs are searched")
            cf = Cands(prog, self.mod(b))
            self.filters(Interp(prog, cf), cf, cond[2], want, prob)
            prob += cf.bad
            self.described(sv, cfg, want, qn)
            if cst is not None:
                self.rep.ok("cands.once", "%s %s" % (b.name, cfg))
        if not seen:
            prob.append("has no outcome")
        self.report("cands.same", b, cfg, prob, seen)
        return 1

    def described(self, sv, cfg, want, qn):
        """the annotation name and the conditions a specification describes are the ones of its search"""
        prog = self.prog
        for b in self.methods("NodeSearchSpec"):
            if b.argc < 1 or not b.ltys[1].peel_refs().k == "adt":
                continue
            names = b.ltys[0].k == "tuple" and b.ltys[0].s.count("Option<") == 2 and b.argc == 1
            funs = any(x.k == "dyn" and "Fn" in x.s for x in b.ltys[0].walk())
            if not (names or funs):
                continue
            prob, n = [], 0
            cl = Cands(prog, self.mod(b))
            for _ast, val, _m in set(Interp(prog, cl).run(b.id, (sv,) + (None,) * (b.argc - 1), frozenset()) or []):
                if names:
                    n += 1
                    if val != qn:
                        prob.append("describes another annotation than the searched one")
                    continue
                if b.ltys[0].is_adt("core::result::Result") and variant(val) != "Ok":
                    continue
                fs = strip(val, ("Ok",))
                if not sym(fs, "fs"):
                    prob.append("has unknown filters")
                    continue
                n += 1
                cf = Cands(prog, self.mod(b))
                self.filters(Interp(prog, cf), cf, fs[2], want, prob)
                prob += cf.bad
            if not n:
                prob.append("has no outcome")
            self.report("cands.same", b, cfg, prob + cl.bad, n)
            self.desc_n += 1

    def components(self):
        """the search over all nodes of components"""
        prog = self.prog
        bs = []
        for b in self.methods("NodeSearch"):
            tys = [b.ltys[i] for i in range(1, b.argc + 1)]
            if any(any(x.is_adt("NodeSearchDesc") for x in t.walk()) for t in tys) and any(adt_name(t) in ("HashSet", "Vec", "BTreeSet") and any(x.is_adt("Component") or adt_name(x) == "Component" for x in t.walk()) for t in tys):
                bs.append(b)
        self.poc = {b.id for b in bs}
        self.rep.floor("cands.once", "searches over components", len(bs), 1)
        es = [i for i in prog.adts if i.endswith("::EdgeAnnoSearchSpec")]
        for b in bs:
            specs = [("no edge annotation", NONE)]
            for v in prog.adts[es[0]]["variants"] if es else []:
                opts = [()]
                for fn, ty, _pub in v["f"]:
                    s = ("x", "sp", fn)
                    ch = [NONE, SOME(s)] if ty.k == "adt" and ty.d.endswith("option::Option") else [s]
                    opts = [o + ((fn, c),) for o in opts for c in ch]
                nm = v["n"] if "n" in v else v.get("name", "?")
                specs += [(nm + "".join(" %s=%s" % (k, "none" if x == NONE else "given") for k, x in o if x[0] != "x"), SOME(("a", nm, tuple(sorted(o))))) for o in opts]
            for cfg, es_v in specs:
                cl = Cands(prog, self.mod(b))
                ip = Interp(prog, cl)
                args = []
                for i in range(1, b.argc + 1):
                    t = b.ltys[i]
                    v = None
                    if any(x.is_adt("NodeSearchDesc") or adt_name(x) == "NodeSearchDesc" for x in t.walk()):
                        v = ("x", "desc")
                    elif any(adt_name(x) == "Component" for x in t.walk()):
                        v = ("x", "compset")
                    elif any(adt_name(x) == "EdgeAnnoSearchSpec" for x in t.walk()):
                        v = es_v
                    args.append(v)
                prob, n = [], 0
                for ast, val, _m in set(ip.run(b.id, tuple(args), frozenset()) or []):
                    if variant(val) != "Ok":
                        continue
                    s = fget(val, "0")
                    if fget(s, "node_search_desc") != ("x", "desc"):
                        prob.append("does not keep the description of the replaced search")
                    for a, kept, el in cl.elements(ip, fget(s, "it"), frozenset()):
                        n += 1
                        self.poc_item(a, kept, el, es_v, prob)
                prob += cl.bad
                if n < 4:
                    prob.append("has no outcome")
                self.report("cands.once", b, cfg, prob, n)

    def poc_item(self, a, kept, el, es_v, prob):
        if F.get(a, "condpend"):
            prob.append("does not check every condition of the replaced search")
        if F.get(a, "err"):
            if kept == "dropped" or variant(el) != "Err":
                prob.append("drops errors of the search")
            return
        se = F.get(a, "searched")
        if se is not None and se != ("nodes",):
            sp = fget(es_v, "0") if variant(es_v) == "Some" else None
            if sp is None:
                prob.append("searches for edge annotations without need")
            else:
                nm = variant(sp)
                w = fget(sp, "val")
                want = (fget(sp, "ns"), fget(sp, "name"), {"ExactValue": "Any" if w == NONE else "Some", "NotExactValue": "NotSome", "RegexValue": "Re", "NotRegexValue": "NotRe"}.get(nm), None if w == NONE else strip(w, ("Some",)))
                if tuple(se) != want:
                    prob.append("searches for other edge annotations than specified")
        if kept == "dropped":
            if not (F.get(a, "dup") or F.get(a, "condfail") or F.get(a, "nogs")):
                prob.append("leaves out nodes without a reason")
            if F.get(a, "dup") and F.get(a, "lost"):
                prob.append("leaves out nodes without a reason")
            return
        g = strip(el, ("Ok",))
        k = g[2][0][1:] if sym(g, "g") and len(g[2]) == 1 and len(g[2][0]) == 3 else None
        if k is None or k[0] != NODE:
            prob.append("reports something else than the found node")
            return
        if F.get(a, "condfail") or not F.get(a, "condall"):
            prob.append("reports nodes that do not satisfy the conditions of the replaced search")
        if not F.get(a, "nodeunique"):
            prob.append("yields a node several times when it is part of several components")
        c = F.get(a, "const")
        if c and not F.get(a, "unique"):
            prob.append("yields a node once per annotation although its annotation is constant")
        if c is None:
            prob.append("ignores the constant output annotation of the replaced search")
        elif c and k[1] != ("x", "constanno"):
            prob.append("does not report the constant output annotation of the replaced search")
        elif not c and k[1] != KEY:
            prob.append("reports another annotation than the replaced search")

    def replace(self):
        prog = self.prog
        tr = [i for i in prog.impls_by_trait if i.endswith("::BinaryOperatorSpec")] if hasattr(prog, "impls_by_trait") else []
        callers = {}
        for b in prog.bodies.values():
            if b.crate != CRATE or b.kind == "promoted":
                continue
            for _i, t in b.calls():
                f = callee(t)
                if f and (f.get("res") or f["id"]) in self.poc:
                    callers[b.id] = b
        self.rep.floor("cands.replace", "functions replacing a search", len(callers), 1)
        used = set()
        for b in callers.values():
            got = []

            class C(Cands):
                def more(self2, ip, body, bb, t, f, ast, args, n, own, m):
                    a0 = args[0] if args else None
                    if (f.get("res") or f["id"]) in self.poc:
                        got.append((ast, tuple(args)))
                        return [(ast, None)]
                    if sym(a0, "ops") and m == "next":
                        keep = frozenset(x for x in ast if not isinstance(x[0], tuple) and x[0] != "left")
                        return [(keep, SOME(("x", "entry"))), (ast, NONE)]
                    if sym(a0, "ops") and m in ("into_iter", "filter", "by_ref", "fuse"):
                        return [(ast, ("x", "pipe", m, a0, args[1]))] if m == "filter" else [(ast, a0)]
                    if sym(a0, "op"):
                        if m in ("clone", "as_ref", "deref"):
                            return [(ast, a0)]
                        if m == "necessary_components":
                            return [(ast, ("x", "compset"))]
                        if m == "get_edge_anno_spec":
                            return [(ast, ("x", "espec"))]
                        ty = body.ltys[t["d"][0]]
                        if ty.s == "bool":
                            used.add(f["id"])
                            return [(ast, ("x", "need", f["id"]))]
                    return None

                def elements(self2, ip, pv, ast):
                    if sym(pv, "ops"):
                        return [(ast, "kept", ("x", "entry"))]
                    return super().elements(ip, pv, ast)

                def branch(self2, ip, body, bb, ast, s, taken):
                    if s[1] == "espec":
                        return ast
                    return super().branch(ip, body, bb, ast, s, taken)
            cl = C(prog, self.mod(b))
            ip = Interp(prog, cl)
            args = []
            for i in range(1, b.argc + 1):
                t = b.ltys[i]
                v = None
                if any(adt_name(x) == "NodeSearchDesc" for x in t.walk()):
                    v = ("x", "desc")
                elif any(adt_name(x) == "ExecutionNodeDesc" for x in t.walk()):
                    v = ("x", "ed") if adt_name(t) == "ExecutionNodeDesc" else SOME(("x", "ed"))
                elif "BinaryOperatorSpecEntry" in t.s:
                    v = ("x", "ops")
                args.append(v)
            ip.run(b.id, tuple(args), frozenset())
            prob = []
            for ast, ar in got:
                if not F.get(ast, "left"):
                    prob.append("replaces the search of another node than the left operand")
                need = [x for x in ast if isinstance(x[0], tuple) and x[0][0] == "need" and x[1]]
                if not need:
                    prob.append("replaces the search for operators that need no outgoing edge")
                if ("x", "desc") not in ar:
                    prob.append("does not hand over the description of the replaced search")
                if ("x", "compset") not in ar:
                    prob.append("searches other components than the ones of the operator")
                if ("x", "espec") not in ar and not any(v == NONE for v in ar):
                    prob.append("searches other edge annotations than the ones of the operator")
            if not got:
                prob.append("never replaces a search")
            self.report("cands.replace", b, "call", prob + cl.bad, len(got))
        # what the operators answer
        n = 0
        for gid in sorted(used):
            mname = gid.rsplit("::", 1)[1]
            impls = [x for x in prog.bodies.values() if x.crate == CRATE and x.method == mname and x.kind == "method" and x.argc == 1 and x.ltys[0].s == "bool"]
            for x in impls:
                n += 1
                self.need(x, mname)
        self.rep.floor("cands.replace", "operators deciding whether they need an outgoing edge", n, 2)

    def need(self, x, mname):
        """a true answer needs a minimal distance of at least one"""
        prog = self.prog

        class N(Client):
            def interesting(self2, bid):
                bb = prog.bodies.get(bid)
                return bb is not None and bb.crate == CRATE and bb.file == x.file and bb.method != "min_dist"

            def call(self2, ip, body, bb, t, f, ast, args):
                if f is not None and short(f["n"]).endswith("::min_dist"):
                    return [(ast, ("x", "min"))]
                if f is not None and short(f["n"]).endswith("::" + mname):
                    st = body.tys[f["self"]].peel_refs() if "self" in f else None
                    return [(ast, ("x", "inner" if st is not None and st.k == "adt" else "dyn"))]
                return None

            def binop(self2, ip, body, op, a, b):
                def atleast(o, s, i):
                    return (o == "Ge" and i >= 1) or (o == "Gt" and i >= 0) or (o == "Ne" and i == 0)
                if sym(a, "min") and b is not None and b[0] == "i":
                    if atleast(op, a, b[1]):
                        return ("x", "ge1", b[1])
                    if (op == "Lt" and b[1] >= 1) or (op == "Le" and b[1] >= 0) or (op == "Eq" and b[1] == 0):
                        return ("not", ("x", "ge1", b[1]))
                if sym(b, "min") and a is not None and a[0] == "i":
                    sw = {"Le": "Ge", "Lt": "Gt", "Ne": "Ne"}.get(op)
                    if sw and atleast(sw, b, a[1]):
                        return ("x", "ge1", a[1])
                return None

            def branch(self2, ip, body, bb, ast, s, taken):
                return F.set(ast, "ge1", bool(taken)) if s[1] == "ge1" else ast
        ip = Interp(prog, N())
        prob = []
        outs = ip.run(x.id, (None,), frozenset()) or []
        for ast, v, _m in outs:
            if v == FALSE or sym(v, "ge1") or sym(v, "inner") or F.get(ast, "ge1"):
                continue
            prob.append("may answer that an outgoing edge is needed for operators that also hold without one")
        if not outs:
            prob.append("has no outcome")
        self.report("cands.replace", x, "answer", prob)


def check(pid, prog, rep):
    Check(pid, prog, rep)
