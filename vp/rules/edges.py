"""C06: the parts of an edge storage (outgoing, ingoing edges, labels, statistics) change together.

Which field holds the outgoing and which the ingoing edges is taken from what get_outgoing_edges and get_ingoing_edges
read.  The mutating methods are then interpreted with the client of `indexes` in its "edges" mode."""
from ..facts import callee, short, plain
from ..interp import OK, ERR, SOME, NONE, UNIT, TRUE, FALSE, fget, variant
from ..report import loc
from .indexes import searched, Sync, V, IX, tags, tget, coll, impl_bodies, run_method, CORE

EVENTS = ("add_edge", "delete_edge", "add_edge_annotation", "delete_edge_annotation", "delete_node", "clear", "calculate_statistics")
PASS = {"into_iter", "by_ref", "peekable", "fuse", "iter", "sorted", "sorted_by", "sorted_by_key", "sorted_unstable", "rev", "collect", "collect_vec", "deref", "as_slice", "try_collect", "copied", "cloned", "unique", "dedup",
        "sorted_unstable_by", "sorted_unstable_by_key", "iter_mut", "as_ref", "clone"}


def nodeness(v):
    """is this value a neighbour found in the outgoing ('dst') or ingoing ('src') edges?"""
    if v is None:
        return frozenset()
    if v[0] == "x" and v[1] == "ix":
        return frozenset({"fwd": ["dst"], "inv": ["src"]}.get(v[2], []))
    return tags(v) & {"src", "dst"}


class Edges(Sync):
    def __init__(self, prog, spec):
        spec["mode"] = "edges"
        Sync.__init__(self, prog, spec)

    def interesting(self, bid):
        return bid in self.bodies and (self.prog.bodies[bid].kind in ("closure", "promoted") or self.prog.bodies[bid].method not in EVENTS or self.prog.bodies[bid].method == self.cur)

    def field(self, ip, body, base, name, owner):
        if base is not None and base[0] == "x" and base[1] == "step":
            return V(["step"]) if name == "node" else None
        return Sync.field(self, ip, body, base, name, owner)

    def binop(self, ip, body, op, a, b):
        ta, tb = tags(a), tags(b)
        if op in ("Eq", "Ne") and (("src" in ta and "dst" in tb) or ("dst" in ta and "src" in tb)):
            return ("x", "loop", 1 if op == "Eq" else 0)
        return Sync.binop(self, ip, body, op, a, b)

    def branch(self, ip, body, bb, ast, sym, taken):
        if sym[1] == "loop":
            t = taken in (1, True)
            return ast | {"loop"} if t == (sym[2] == 1) else ast
        return Sync.branch(self, ip, body, bb, ast, sym, taken)

    def write(self, ast, role, n):
        ast = Sync.write(self, ast, role, n) - {"stats-none"}
        return ast | {"e-seen"} if self.cur == "copy" and n > 0 and role in ("fwd", "inv") else ast

    def stats(self, ast, v):
        ast = ast | {"fresh-stats", ("w", "stats")}
        return ast | {"stats-none"} if variant(v) == "None" else ast - {"stats-none"}

    def cleared(self, ast, role):
        if role == "stats":
            return self.stats(ast, NONE) | {("clr", "stats")}
        if self.cur == "copy" and ("+", role) in ast:
            return ast | {("late", role)}
        return Sync.cleared(self, ast, role)

    def assign(self, ip, body, bb, stmt, ast, env):
        r = stmt["r"]
        p = stmt["p"]
        if r["k"] == "agg" and r.get("g") == "adt" and r.get("v") == "Edge" and self.cur in ("delete_node", "copy"):
            m = dict(zip(r["f"], [ip.snapshot(env, ip.operand(env, o, body)) for o in r["o"]]))
            s, d = nodeness(m.get("source")), nodeness(m.get("target"))
            self.count["edges built"] = self.count.get("edges built", 0) + 1
            if ("dst" in s) != ("src" in d):
                # one end is the node itself
                if ("dst" in s and not d) or ("src" in d and not s):
                    self.report("%s: edge in the wrong direction" % self.cur, loc(body, stmt.get("l")), "an outgoing neighbour is used as source, or an ingoing one as target of an edge")
            if self.cur == "delete_node":
                if "dst" in d:
                    ast = ast | {("built", "fwd")}
                if "src" in s:
                    ast = ast | {("built", "inv")}
        if len(p) >= 2 and isinstance(p[-1], list) and p[-1][0] == "." and p[-1][1] in self.fields and p[-1][2].endswith(self.spec["adt"]):
            base = ip.snapshot(env, ip.readp(env, ip.resolve(env, p[:-1])))
            role = self.fields[p[-1][1]]
            if base == ("x", "self") and role != "stats":
                v = ip.snapshot(env, ip.rvalue(env, body, r))
                if v == ("x", "new"):
                    return self.cleared(ast, role)
                return (ast - {"fresh-stats", "stats-none"}) | {("w", role), ("clr", role), ("+", role)}
        return Sync.assign(self, ip, body, bb, stmt, ast, env)

    def add(self, ip, body, bb, t, ast, role, ts, inner, args, isleaf, dty, line, m="", rty=None):
        if role == "annos":
            if self.cur == "add_edge_annotation" and ("yes", "fwd") not in ast and ("have", "fwd") not in ast:
                self.report("annos: label without edge", loc(body, line), "a label is added to an edge that does not exist")
            return [(ast | {("w", "annos"), ("+", "annos")} if f is not None else ast, v) for v, f in self.shape(dty, V(()))]
        if role.startswith("part "):
            if self.cur == "copy" and role == self.spec.get("perhaps_inv"):
                ast = ast | {"e-seen"}
            return [((ast | {("w", role), ("+", role)}) - {"fresh-stats", "stats-none"}, v) for v, _f in self.shape(dty, V(()))]
        return Sync.add(self, ip, body, bb, t, ast, role, ts, inner, args, isleaf, dty, line, m, rty)

    def remove(self, ip, body, bb, t, ast, role, ts, inner, args, isleaf, dty, line, m):
        if role == "stats":
            return [(self.stats(ast, NONE), v) for v, _f in self.shape(dty, V(()))]
        if role in ("fwd", "inv") and isleaf:
            o = self.edge_args(args[1:])
            if o is not None:
                self.orient(body, line, ast, role, frozenset(["src" if o == "fwd" else "dst"]), frozenset(["dst" if o == "fwd" else "src"]))
            else:
                self.orient(body, line, ast, role, ts, inner)
            res = []
            for v, found in self.shape(dty, V(ts)):
                if found is None:
                    res.append((ast, v))
                elif found is False:
                    res.append((ast | {("lost", role)}, v))
                else:
                    res.append((self.write(ast, role, -1), v))
            return res
        return Sync.remove(self, ip, body, bb, t, ast, role, ts, inner, args, isleaf, dty, line, m)

    def store(self, ip, body, bb, stmt, ast, base, v, ty):
        if base[2].startswith("part "):
            return (ast | {("w", base[2]), ("+", base[2])}) - {"fresh-stats", "stats-none"}
        return Sync.store(self, ip, body, bb, stmt, ast, base, v, ty)

    def owe(self, body, line, ast, what):
        """a node or edge that was visited before is left: were its labels copied?"""
        for o in ("root", "step"):
            if ("owes", o) in ast and (what is None or o in what):
                self.report("copy: labels", loc(body, line), "the labels of a copied edge are not copied")
                ast = ast - {("owes", o)}
        if "e-seen" in ast and "e-lab" not in ast and self.cur == "copy":
            self.report("copy: labels", loc(body, line), "the labels of a copied edge are not copied")
        if ("owes", "delete") in ast:
            self.report("delete_node: edge is not deleted", loc(body, line), "an edge of a deleted node is kept")
        return ast - {"e-seen", "e-lab", ("owes", "delete")}

    def edge_self(self, ip, body, bb, t, f, ast, args, m, dty):
        if m in ("get_outgoing_edges", "get_ingoing_edges"):
            return [(ast | {("looked", "fwd" if m == "get_outgoing_edges" else "inv")}, ("x", "nb", m, 1))]
        if m in EVENTS and m != self.cur:
            self.count[m] = self.count.get(m, 0) + 1
            a = ast | {("did", m)}
            if m == "clear":
                for r in sorted(set(self.fields.values())):
                    a = self.cleared(a, r)
                a = a | {"fresh-stats"}
            elif m == "add_edge":
                if self.edge_args(args[1:]) == "inv":
                    self.report("add_edge: wrong direction", loc(body, t.get("l")), "an edge is added in the wrong direction")
                a = (a - {"fresh-stats", "stats-none"}) | {("w", "fwd"), ("w", "inv"), ("+", "fwd"), ("+", "inv")}
                a = a | {"e-seen"}
            elif m == "delete_edge":
                a = (a - {("owes", "delete")}) | {("w", "fwd"), ("w", "inv"), ("labels", "remove_item"), "fresh-stats"}
            elif m == "add_edge_annotation":
                a = a | {("w", "annos"), ("+", "annos")}
            elif m == "calculate_statistics":
                a = a | {"fresh-stats", ("w", "stats")}
            return [(a, OK(UNIT)), (ast, ERR())]
        return None

    def edge_orig(self, ip, body, bb, t, f, ast, args, m, dty):
        a0 = args[0] if args else None
        line = t.get("l")
        isres = dty.is_adt("core::result::Result")
        if m in ("get_annotations_for_item", "get_all_annotations_for_item") and self.cur == "copy" and a0 is not None and a0 == ("x", "orig", "get_anno_storage"):
            return [(ast | {"e-lab", ("orig", m)}, OK()), (ast, ERR())]
        if a0 is not None and a0[0] == "x" and a0[1] == "orig":
            if m == "source_nodes":
                return [(ast | {("orig", m)}, ("x", "nodes", "src", 1))]
            if m == "root_nodes":
                return [(ast | {("orig", m)}, ("x", "nodes", "root", 1))]
            if m in ("get_outgoing_edges", "find_connected"):
                a = ast
                for x in ("root", "step"):
                    if any(x in tags(y) for y in args[1:]):
                        a = a - {("owes", x)}
                return [(a | {("orig", m)}, ("x", "nodes", "dst", 1))]
            if m in ("get_ingoing_edges", "find_connected_inverse"):
                return [(ast | {("orig", m)}, ("x", "nodes", "src", 1))]
            if m in ("get_anno_storage", "as_edgecontainer"):
                return [(ast, ("x", "orig", m))]
            if m == "get_statistics":
                return [(ast | {("orig", m)}, ("x", "origstats"))]
        if any(a is not None and a[0] == "x" and a[1] == "orig" for a in args) and dty.is_adt("CycleSafeDFS"):
            return [(ast, ("x", "dfs", "rooted" if any("root" in tags(a) for a in args) else "src"))]
        if a0 is not None and a0[0] == "x" and a0[1] == "dfs":
            if m == "next":
                a = self.owe(body, line, ast, ("step",) if a0[2] == "rooted" else ())
                b = a | {("owes", "step")} if a0[2] == "rooted" else a
                return [(b, SOME(OK(("x", "step")))), (a, SOME(ERR())), (a, NONE)]
            if m in PASS:
                return [(ast, a0)]
        if a0 is not None and a0[0] == "x" and a0[1] in ("nodes", "nb"):
            if m == "next":
                what = a0[2] if a0[1] == "nodes" else ("dst" if a0[2] == "get_outgoing_edges" else "src")
                a = self.owe(body, line, ast, ("root", "step") if what == "root" else ())
                b = a | {("owes", "root")} if what == "root" else a | {"e-seen"} if a0[1] == "nodes" and what == "dst" else a
                el = V([what])
                if a0[3]:
                    return [(b, SOME(OK(el))), (a, SOME(ERR())), (a, NONE)]
                return [(b, SOME(el)), (a, NONE)]
            if m in PASS:
                if isres:
                    return [(ast, OK(a0[:3] + (0,))), (ast, ERR())]
                return [(ast, a0)]
        if a0 is not None and (a0 == ("x", "elist") or a0 == ("x", "new") and self.cur == "delete_node"):
            if m == "next":
                a = self.owe(body, line, ast, ())
                return [(a | {("owes", "delete")}, SOME(("x", "etodo"))), (a, NONE)]
            if m in ("pop", "pop_front", "pop_back"):
                a = self.owe(body, line, ast, ())
                return [(a | {("owes", "delete")}, SOME(("x", "etodo"))), (a, NONE)]
            if m in PASS or m in ("drain",):
                return [(ast, a0)]
            if dty.s == "()":
                return [(ast, UNIT)]
        if m in ("collect", "try_collect", "collect_vec", "for_each", "try_for_each") and (variant(a0) or "").startswith("iter:") and m.startswith(("collect", "try_collect")):
            f2 = dict(f, n="core::iter::traits::iterator::Iterator::next")
            seen, work, err = set(), [ast], False
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                work += [y for y, v in ip.step(body, bb, t, f2, x, a0) if y not in seen]
            el = ("x", "elist") if self.cur == "delete_node" and dty.has_adt("Edge") else None
            return [(x, OK(el)) for x in seen] + [(ast, ERR())] if isres else [(x, el) for x in seen]
        if self.cur == "delete_node" and coll(dty) and dty.a and dty.a[0].is_adt("Edge") and m in ("new", "default", "with_capacity"):
            return [(ast, ("x", "elist"))]
        if a0 is not None and a0[0] == "x" and a0[1] == "v" and m in ("to_usize", "clone", "into", "try_into", "to_owned", "from", "to_u64", "try_from"):
            if dty.is_adt("core::option::Option"):
                return [(ast, SOME(a0)), (ast, NONE)]
            if isres:
                return [(ast, OK(a0)), (ast, ERR())]
            return [(ast, a0)]
        if m in ("new", "try_new") and not args and isres and self.field_of(dty.a[0]):
            return [(ast, OK(("x", "new"))), (ast, ERR())]
        return None

    def field_of(self, ty):
        return any(self.spec["types"].get(r) is not None and self.spec["types"][r].s == ty.s for r in set(self.fields.values()))

    def call(self, ip, body, bb, t, f, ast, args):
        if f is not None and len(t["d"]) == 1 and args:
            a0 = args[0]
            m = short(f["n"]).rsplit("::", 1)[-1]
            if a0 is not None and a0[0] == "x" and a0[1] == "ix" and a0[2] in ("fwd", "inv") and m not in ("clear",):
                ast = ast | {("looked", a0[2])}
            if m in ("eq", "ne") and len(args) == 2:
                ta, tb = tags(args[0]), tags(args[1])
                if ("src" in ta and "dst" in tb) or ("dst" in ta and "src" in tb):
                    return [(ast | {"loop"}, TRUE if m == "eq" else FALSE), (ast, FALSE if m == "eq" else TRUE)]
            if a0 is not None and a0[0] == "x" and a0[1] == "ix" and a0[2] in ("fwd", "inv") and m == "retain":
                return [(self.write(ast, a0[2], -1), UNIT), (ast | {("lost", a0[2])}, UNIT)]
            if a0 is not None and a0[0] == "x" and a0[1] == "ix" and a0[2].startswith("part ") and m in ("push", "insert", "resize", "extend", "push_back", "or_default", "or_insert_with", "or_insert", "append", "index_mut"):
                if m in ("resize", "extend", "append"):
                    return [((ast | {("w", a0[2]), ("+", a0[2])}) - {"fresh-stats", "stats-none"}, UNIT)]
        return Sync.call(self, ip, body, bb, t, f, ast, args)


def reads(prog, adt, method, bodies):
    """fields of the type read by a method (helper methods and closures included)"""
    start = [b for b in bodies if prog.bodies[b].method == method]
    seen, st, out = set(), list(start), set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        b = prog.bodies[x]

        def place(p):
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "." and e[2] == adt:
                    out.add(e[1])

        for bb in b.bbs:
            for s in bb["s"]:
                if s["k"] == "=":
                    place(s["p"])
                    if "p" in s["r"]:
                        place(s["r"]["p"])
                    for o in s["r"].get("o", []):
                        if "p" in o:
                            place(o["p"])
            t = bb["t"]
            if t["k"] == "call":
                for o in t["args"]:
                    if "p" in o:
                        place(o["p"])
        for y in prog.edges(x):
            if y in bodies or (prog.bodies[y].kind == "closure"):
                st.append(y)
    return out


def c06(prog, rep):
    rep.rule("edges-change-together", "adding or deleting an edge changes the outgoing edges, the ingoing edges and the labels in the same operation, each in its direction")
    rep.rule("statistics-are-dropped", "after the last change of the edges the statistics are dropped or calculated anew")
    rep.rule("clear-is-complete", "clearing an edge storage clears edges in both directions, labels and statistics")
    rep.rule("copy-is-complete", "copying starts from an empty storage and copies edges in both directions, the labels of each edge and the statistics")
    rep.rule("deleted-nodes-lose-all-edges", "deleting a node deletes its outgoing and its ingoing edges")
    gtrait = [t for t in prog.traits if t.endswith("::GraphStorage")]
    wtrait = [t for t in prog.traits if t.endswith("::WriteableGraphStorage")]
    writeable = {im["selfty"].d for t in wtrait for im in prog.impls_by_trait.get(t, []) if im["selfty"].k == "adt"}
    n = nw = 0
    for im in [im for t in gtrait for im in prog.impls_by_trait.get(t, []) if im["selfty"].k == "adt" and im["crate"] == CORE]:
        adt = prog.adts.get(im["selfty"].d)
        if adt is None:
            continue
        n += 1
        name = adt["id"].rsplit("::", 1)[-1]
        bodies = impl_bodies(prog, adt["id"])
        fw, bw = reads(prog, adt["id"], "get_outgoing_edges", bodies), reads(prog, adt["id"], "get_ingoing_edges", bodies)
        fields, types = {}, {}
        edgef = []
        for fn, ty, _p in adt["variants"][0]["f"]:
            if ty.has_adt("GraphStatistic"):
                r = "stats"
            elif ty.is_adt("AnnoStorageImpl"):
                r = "annos"
            elif ty.is_adt("PhantomData"):
                continue
            else:
                edgef.append((fn, ty))
                continue
            fields[fn] = r
            types[r] = ty
        both = {f for f, _t in edgef if coll(_t)}
        simple = len(fw & both) == 1 and len(bw & both) == 1 and not (fw & bw & both)
        for fn, ty in edgef:
            r = "part " + fn
            if simple and fn in both:
                r = "fwd" if fn in fw else "inv" if fn in bw else r
            elif fn in both and not (fw & bw & both) and fn in bw:
                r = "part " + fn
            fields[fn] = r
            types[r] = ty
        # only the ingoing edges are kept in a collection
        inv = [fn for fn in both if fn in bw and fn not in fw]
        have = set(fields.values())
        for need in ("stats", "annos"):
            rep.floor("anchors", "%s of %s" % (need, name), 1 if need in have else 0, 1)
        spec = {"adt": name, "fields": fields, "main": "fwd", "sync": ["inv"] if simple else [], "kinds": {}, "types": types, "bodies": bodies, "events": EVENTS, "searched": searched(prog, bodies, fields, adt["id"])}
        if adt["id"] in writeable:
            nw += 1
            rep.floor("anchors", "edges in both directions of %s" % name, 1 if simple else 0, 1)
        for b in sorted(prog.bodies.values(), key=lambda x: x.id):
            if b.kind != "method" or b.selfty is None or b.selfty.peel_refs().k != "adt" or b.selfty.peel_refs().d != adt["id"]:
                continue
            if b.method not in EVENTS + ("copy",) or b.argc < 1 or b.ltys[1].k != "ref" or not b.ltys[1].mut:
                continue
            cl = Edges(prog, dict(spec))
            if not simple and len(inv) == 1:
                cl.spec["perhaps_inv"] = "part " + inv[0]
            cl.cur = b.method
            outs = run_method(prog, cl, b, rep)
            oks = [a for a, v in outs if variant(v) != "Err"]
            rule = {"clear": "clear-is-complete", "copy": "copy-is-complete", "delete_node": "deleted-nodes-lose-all-edges", "calculate_statistics": "statistics-are-dropped"}.get(b.method, "edges-change-together")
            bad = {}
            for k, (w, msg) in cl.bad.items():
                bad[k] = msg
            if not oks:
                rep.bad(rule, "%s::%s: no successful path" % (name, b.method), loc(b), "the method could not be analysed")
                continue
            stats = []
            for a in oks:
                for r in spec["searched"]:
                    if ("unsorted", r) in a:
                        bad["%s: not sorted" % r] = "entries that are found by a binary search are not kept in order"
                if b.method == "clear":
                    for r in sorted(have):
                        if ("clr", r) not in a and not (r == "stats" and "fresh-stats" in a):
                            bad["%s is not cleared" % r] = "a part of the storage keeps its content when the storage is cleared"
                    continue
                if b.method == "calculate_statistics":
                    if "fresh-stats" not in a and not ({("is", r, 0) for r in have} & a):
                        bad["no statistics"] = "the statistics are not calculated"
                    continue
                tried = {r: (("+", r) in a or ("-", r) in a or ("lost", r) in a or ("have", r) in a) for r in ("fwd", "inv")}
                if b.method == "add_edge":
                    if "loop" not in a and not (tried["fwd"] and tried["inv"]):
                        bad["edge is not stored"] = "the operation reports success, but the edge is not stored in both directions"
                if b.method == "delete_edge":
                    if not (tried["fwd"] and tried["inv"]):
                        bad["edge is not deleted"] = "the operation reports success, but the edge is not deleted in both directions"
                    if ("labels", "remove_item") not in a:
                        bad["labels are not deleted"] = "the labels of a deleted edge are kept"
                if b.method == "delete_edge_annotation" and not any(isinstance(x, tuple) and x[0] == "labels" for x in a):
                    bad["label is not deleted"] = "the operation reports success, but the label is not deleted"
                if b.method in ("add_edge", "delete_edge", "add_edge_annotation", "delete_edge_annotation"):
                    for r in cl.balanced(a):
                        bad["%s: %+d, but %+d outgoing" % (r, tget(a, "d", r, 0), tget(a, "d", "fwd", 0))] = "the edges are not changed in both directions"
                if b.method in ("add_edge", "delete_edge") and (tget(a, "d", "fwd", 0) or tget(a, "d", "inv", 0)):
                    stats.append("stats-none" in a or (("did", "calculate_statistics") in a and "fresh-stats" in a))
                if b.method == "delete_node":
                    for r, w in (("fwd", "outgoing"), ("inv", "ingoing")):
                        if ("owes", "delete") in a:
                            bad["delete_node: edge is not deleted"] = "an edge of a deleted node is kept"
                        if ("looked", r) not in a:
                            bad["%s edges are not visited" % w] = "the %s edges of a deleted node are kept" % w
                if b.method == "copy":
                    for r in sorted(have):
                        if ("late", r) in a:
                            bad["%s: cleared after writing" % r] = "a part of the storage is cleared after something was copied to it"
                        if r == "stats":
                            continue
                        ty = types[r]
                        if ("clr", r) not in a and (coll(ty) or r == "annos"):
                            bad["%s: not cleared" % r] = "a part of the storage keeps its old content when another storage is copied"
                    if "fresh-stats" not in a:
                        bad["stats: old"] = "the statistics of the old content are kept when another storage is copied"
            if stats:
                if all(stats):
                    rep.ok("statistics-are-dropped", "%s::%s" % (name, b.method))
                else:
                    rep.bad("statistics-are-dropped", "%s::%s" % (name, b.method), loc(b), "the statistics of the old edges are kept after edges were changed")
            if b.method == "delete_node":
                for r, w in (("fwd", "outgoing"), ("inv", "ingoing")):
                    if not any(("built", r) in a and ("did", "delete_edge") in a for a in oks):
                        bad["%s edges are not deleted" % w] = "the %s edges of a deleted node are kept" % w
            if b.method == "copy":
                for r in sorted(have):
                    if not any((("w" if r == "stats" else "+"), r) in a or ("did", "add_edge") in a and r in ("fwd", "inv") for a in oks):
                        bad["%s: not copied" % r] = "a part of the storage is not filled when another storage is copied"
                if not any(("orig", "get_statistics") in a or ("did", "calculate_statistics") in a for a in oks):
                    bad["stats: not copied"] = "the statistics are neither copied nor calculated"
                for a in oks:
                    for o in ("root", "step"):
                        if ("owes", o) in a or ("e-seen" in a and "e-lab" not in a):
                            bad["copy: labels"] = "the labels of a copied edge are not copied"
                if simple and adt["id"] not in writeable:
                    for a in oks:
                        if ("+", "fwd") in a and ("+", "inv") not in a and ("have", "inv") not in a or ("+", "inv") in a and ("+", "fwd") not in a:
                            bad["one direction only"] = "an edge is copied in one direction only"
            if bad:
                for k in sorted(bad):
                    rep.bad(rule, "%s::%s: %s" % (name, b.method, k), loc(b), bad[k])
            else:
                rep.ok(rule, "%s::%s: %d successful abstract outcomes, %s" % (name, b.method, len(oks), ", ".join("%s=%d" % x for x in sorted(cl.count.items()))))
    rep.floor("anchors", "edge storages", n, 6)
    rep.floor("anchors", "edge storages that can be changed", nw, 2)


def check(pid, prog, rep):
    {"C06": c06}[pid](prog, rep)
