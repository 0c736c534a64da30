"""C25: every kind of update event has its whole effect, and later look-ups by node name see it.

One event of each kind with symbolic fields is sent through the loop that applies events.  The effects on the
annotation storage and the edge storages, the operations on caches from names to IDs and the calls of the
component-type hooks are recorded on every path and compared with the meaning of the event."""
from ..facts import short, plain
from ..interp import Client, Interp, OK, ERR, SOME, NONE, TRUE, FALSE, UNIT, A, fget, variant, reach_back
from ..report import loc

EV = "UpdateEvent"
EFFECTS = {"insert": 3, "remove_item": 2, "remove_annotation_for_item": 3, "add_edge": 2, "delete_edge": 2, "add_edge_annotation": 3, "delete_edge_annotation": 3, "delete_node": 2}
HOOKS = ("before_update_event", "after_update_event", "init_update_graph_index", "apply_update_graph_index")
PASS = {"iter", "into_iter", "cloned", "copied", "collect", "clone", "deref", "by_ref", "fuse", "enumerate_", "as_edgecontainer", "as_ref", "from_iter", "into_boxed_slice", "to_vec", "as_slice", "into_vec", "values", "keys"}
FIVE = ("Coverage", "Dominance", "Ordering", "LeftToken", "RightToken")


def sym(*a):
    return ("x",) + a


def uncow(v):
    while v is not None and v[0] == "a" and (v[1] in ("Borrowed", "Owned") or v[1] is None and len(v[2]) == 1 and v[2][0][0] == "0"):
        v = fget(v, "0")
    return v


def text(v):
    v = uncow(v)
    if v is None:
        return "?"
    if v[0] == "c":
        return '"%s"' % v[1]
    if v[0] == "x" and v[1] == "f":
        return v[2]
    return "?"


def ident(v):
    """which node a node ID stands for"""
    v = uncow(v)
    if v is None:
        return "?"
    if v[0] == "x" and v[1] in ("id", "new", "step", "inval", "anynode"):
        return v[1] + (":" + v[2] if len(v) > 2 else "")
    if v[0] == "i":
        return str(v[1])
    return "?"


def edge(v):
    return "(%s,%s)" % (ident(fget(v, "source")), ident(fget(v, "target"))) if v is not None and v[0] == "a" else "?"


def key(v):
    return "%s/%s" % (text(fget(v, "ns")), text(fget(v, "name"))) if v is not None and v[0] == "a" else "?"


def comp(v):
    if v is None:
        return "?"
    if v[0] == "x" and v[1] == "comp":
        return v[2]
    if v[0] == "a" and fget(v, "layer") is not None:
        return "%s|%s|%s" % (ctype(fget(v, "ctype")), text(fget(v, "layer")), text(fget(v, "name")))
    return "?"


def ctype(v):
    if v is None:
        return "?"
    if v[0] == "x" and v[1] == "ct":
        return v[2]
    return variant(v) or "?"


def name_cache(t):
    """type of a map from names to node IDs"""
    t = t.peel()
    if t.k == "adt" and len(t.a) >= 2 and t.a[0].peel().is_adt("String") and not t.d.endswith("Result"):
        v = t.a[1]
        if v.s == "u64" or v.is_adt("core::option::Option") and v.a and v.a[0].s == "u64":
            return t
    return None


def negative(t):
    return t.a[1].is_adt("core::option::Option")


def inner(t, depth=0):
    """the wrappers around a u64: list of adt names, outermost first, or None"""
    out = []
    while True:
        if t.k in ("ref", "ptr"):
            t = t.a[0]
        elif t.is_adt("core::result::Result"):
            out.append("R")
            t = t.a[0]
        elif t.is_adt("core::option::Option"):
            out.append("O")
            t = t.a[0]
        elif t.k == "adt" and t.d.rsplit("::", 1)[-1] in ("Cow", "Box", "Arc"):
            t = t.a[0]
        elif t.s == "u64":
            return out
        else:
            return None


class Ev(Client):
    def __init__(self, prog, hot, event, variant_fields, hooks_opaque=True):
        self.prog = prog
        self.hot = hot
        self.event = event
        self.fields = variant_fields
        self.hooks_opaque = hooks_opaque
        self.caches = {}
        self.statics = {}
        self.flags = {}
        self.ct_variants = None
        self.bad = {}
        self.index_fields = {}
        self.count = 0

    def interesting(self, bid):
        return bid in self.hot

    def value(self, t):
        """a value of the type of an iterator item that holds the event"""
        if t.k == "ref":
            return self.value(t.a[0])
        if t.is_adt(EV):
            return ("a", self.event, tuple(sorted((n, sym("f", n)) for n in self.fields)))
        if not t.has_adt(EV):
            return sym("evid") if t.s == "u64" else None
        if t.is_adt("core::option::Option"):
            return SOME(self.value(t.a[0]))
        if t.is_adt("core::result::Result"):
            return OK(self.value(t.a[0]))
        if t.k == "tuple":
            return ("a", None, tuple((str(i), v) for i, v in enumerate(self.value(x) for x in t.a) if v is not None))
        return None

    def field(self, ip, body, base, name, owner):
        if owner == "const" or base is None or base[0] != "x":
            return None
        if base[1] == "index":
            if name in self.flags:
                return self.flags[name]
            return self.index_fields.get(name)
        if base[1] == "comp":
            return sym("ctof", base[2]) if name == "ctype" else None
        return None

    # --- facts about names
    def name_outcomes(self, ast, f, layers, cached):
        """outcomes of asking for the node ID of the name f"""
        out = []

        def wrap(v, ls):
            for l in reversed(ls):
                v = OK(v) if l == "R" else SOME(v)
            return v
        if not layers or layers[-1] not in ("O", "R"):
            return [(ast, sym("id", f))]
        if ("missing", f) not in ast:
            out.append((ast | {("ex", f)}, wrap(sym("id", f), layers)))
        opts = [i for i, l in enumerate(layers) if l == "O"]
        for n, i in enumerate(reversed(opts)):
            last = n == 0
            v = wrap(NONE, layers[:i])
            miss = cached and (i == opts[0])
            if miss:
                # not in the cache: nothing is known (a cache without negative entries never knows that a node is missing)
                out.append((ast, v))
            elif last and ("ex", f) not in ast:
                out.append((ast | {("missing", f)}, v))
        return out

    def effect(self, ast, e, res):
        d = ast | {("eff",) + e}
        if ("after",) in ast and self.hooks_opaque:
            d |= {("late",)}
        if ("before",) not in ast and self.hooks_opaque:
            d |= {("early",)}
        # which caches are outdated now?
        for c, t in self.caches.items():
            if ("cl", c) in d:
                continue
            if e[0] == "insert" and e[1].startswith(("new", "0")):
                if negative(t) and not any(x[0] == "put" and x[1] == c and x[2] == "node_name" and x[3] != "None" for x in d):
                    d |= {("dirty", c, "node_name")}
            elif e[0] == "remove_item":
                if not any(x[0] == "put" and x[1] == c and x[2] == "node_name" and x[3] in ("None", "-") for x in d):
                    d |= {("dirty", c, "node_name")}
            elif e[0] in ("insert", "remove_annotation_for_item"):
                d |= {("dirty", c, "rename")}
        return [(d, OK() if res else None)]

    def cache_op(self, ast, c, op, k=None, v=None):
        if op == "clear":
            ast = frozenset(x for x in ast if not (x[0] in ("dirty", "put") and x[1] == c))
            return ast | {("cl", c)}
        ast = frozenset(x for x in ast if not (x[0] == "put" and x[1] == c and x[2] == k) and x != ("cl", c))
        good = v == "None" and op == "put" or op == "remove"
        dirty = ("dirty", c, k) in ast
        if dirty:
            eff = {x[1] for x in ast if x[0] == "eff"}
            deleted = "remove_item" in eff
            if deleted and good or not deleted and (op == "remove" or v not in ("None", "?")):
                ast = ast - {("dirty", c, k)}
        return ast | {("put", c, k, v if op == "put" else "-")} if k == "node_name" else ast

    # --- statics (annotation keys)
    def static_of(self, body, o):
        seen = set()
        while True:
            if "static" in o:
                return o["static"]
            if "p" not in o or o["p"][0] in seen:
                return None
            seen.add(o["p"][0])
            ds = [d for d in body.defs.get(o["p"][0], []) if d[0] == "="]
            if len(ds) != 1:
                return None
            r = ds[0][3]["r"]
            if r["k"] == "ref":
                o = {"p": [r["p"][0]]}
            elif r.get("o"):
                o = r["o"][0]
            else:
                return None

    def static(self, ip, bids):
        for x in bids:
            if x not in self.statics:
                self.statics[x] = None
                outs = ip.run(x, (None,) * self.prog.bodies[x].argc, frozenset())
                vals = {v for _a, v, _m in outs or () if v is not None and fget(v, "ns") is not None}
                if len(vals) == 1:
                    self.statics[x] = vals.pop()
            if self.statics[x] is not None:
                return self.statics[x]
        return None

    def binop(self, ip, body, op, a, b):
        if a == sym("largest") and b == ("i", 1) or b == sym("largest") and a == ("i", 1):
            if op == "Add":
                return sym("new")
            if op == "AddWithOverflow":
                return A(None, sym("new"))
        return None

    def assign(self, ip, body, bb, stmt, ast, env):
        p = stmt["p"]
        if len(p) > 1 and isinstance(p[-1], list) and p[-1][0] == "." and p[-1][1] == "current_change_id":
            v = ip.snapshot(env, ip.rvalue(env, body, stmt["r"]))
            if v == sym("evid"):
                return ast | {("chg",)}
            return ast | {("chgbad",)}
        return ast

    def branch(self, ip, body, bb, ast, s, taken):
        if s[1] == "eq":
            if taken in (0, 1):
                pos = (taken == 1) == s[3]
                if not pos:
                    return ast | {("not", s[2])}
                return ast | {("is", s[2])}
        if s[1] == "exists" and taken in (0, 1):
            return ast | {("missing" if taken == 0 else "ex", s[2])} if ("ex" if taken == 0 else "missing", s[2]) not in ast else None
        if s[1] == "conn" and taken in (0, 1):
            return ast | {("conn" if taken else "noedge", s[2])}
        if s[1] == "has" and taken in (0, 1):
            return ast | {("known", s[2])} if taken else ast
        if s[1] == "emptytext" and taken in (0, 1):
            return ast | {("empty" if taken else "nonempty", s[2])}
        return ast

    def compare(self, ast, a, b, neg):
        """comparison of an annotation key, a part of it or a component type"""
        ua, ub = uncow(a), uncow(b)
        if ua is not None and ub is not None and ua[0] == "a" and ub[0] == "a":
            if fget(ua, "ns") is not None and fget(ub, "ns") is not None:
                ka, kb = key(ua), key(ub)
                for x, y in ((ka, kb), (kb, ka)):
                    if x == "anno_ns/anno_name" and y == '"annis"/"node_name"':
                        return sym("eq", "rename", not neg)
                return None
            if variant(ua) and variant(ub) and not ua[2] and not ub[2]:
                return TRUE if (variant(ua) == variant(ub)) != neg else FALSE
        ta, tb = text(a), text(b)
        for x, y in ((ta, tb), (tb, ta)):
            if x == "anno_ns" and y == '"annis"' or x == "anno_name" and y == '"node_name"':
                return sym("eq", "rename", not neg)
            if x == "component_name" and y == '""':
                return sym("emptytext" if not neg else "nonemptytext", x) if not neg else None
        return None

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return None
        n = f.get("n", "")
        m = plain(n).rsplit("::", 1)[-1]
        dty = body.ltys[t["d"][0]]
        a0 = args[0] if args else None
        isres = dty.is_adt("core::result::Result")
        tr = f.get("tr", "")

        def both(v=None, a=None):
            a = ast if a is None else a
            return [(a, OK(v) if isres else v)]
        # --- the event
        if m == "next" and dty.has_adt(EV):
            if ("ev",) in ast:
                return [(ast, NONE, "keep")]
            self.count += 1
            return [(ast | {("ev",)}, self.value(dty), "keep"), (ast, NONE, "keep")]
        if m in ("try_for_each", "for_each") and "terator" in n and len(args) == 2 and ("ev",) not in ast:
            cl = args[1]
            fid = variant(cl)[3:] if variant(cl) and variant(cl).startswith("fn:") else None
            if fid in self.prog.bodies and self.prog.bodies[fid].argc == 2 and self.prog.bodies[fid].ltys[2].has_adt(EV):
                self.count += 1
                out = [(ast, OK(UNIT) if isres else UNIT)]
                for a, v in ip.run_closure(cl, [self.value(self.prog.bodies[fid].ltys[2])], ast | {("ev",)}):
                    out.append((a, v))
                return out
        if m in HOOKS and self.hooks_opaque:
            if m == "before_update_event":
                a = ast | {("before",)} if variant(args[0]) == self.event else ast
                return both(None, a)
            if m == "after_update_event":
                a = ast | {("after",)} if variant(args[0]) == self.event else ast
                return both(None, a)
            if m == "apply_update_graph_index":
                return both(None, ast | {("applied",)})
            return both()
        # --- names and IDs
        if m == "get_node_id_from_name" and len(args) == 2:
            return self.name_outcomes(ast, text(args[1]), inner(dty) or ["R", "O"], False)
        if m == "has_node_name" and len(args) == 2:
            return both(sym("exists", text(args[1])))
        if m == "get_largest_item":
            return [(ast, OK(SOME(sym("largest")))), (ast | {("nonodes",)}, OK(NONE))] if isres else [(ast, SOME(sym("largest"))), (ast | {("nonodes",)}, NONE)]
        if m in ("unwrap_or", "map_or") and variant(a0) == "None" and len(args) > 1:
            return [(ast, args[1])]
        if m == "unwrap_or_default" and variant(a0) == "None" and dty.s == "u64":
            return [(ast, ("i", 0))]
        if t["args"] and "p" in t["args"][0]:
            ct = name_cache(body.ltys[t["args"][0]["p"][0]])
        else:
            ct = None
        if ct is not None and m not in ("clone", "as_ref", "as_mut", "borrow", "borrow_mut", "deref", "deref_mut", "new", "into_iter", "iter", "by_ref"):
            c = ct.d.rsplit("::", 1)[-1]
            self.caches.setdefault(c, ct)
            k = text(args[1]) if len(args) > 1 else None
            if m in ("get", "get_mut", "peek", "remove", "pop", "contains_key", "contains"):
                if m in ("remove", "pop"):
                    a = self.cache_op(ast, c, "remove", k)
                    return [(a, OK() if isres else None)]
                ls = inner(dty)
                if ls is not None:
                    return self.name_outcomes(ast, k, ls, True)
                return None
            if m in ("put", "insert", "push", "put_with_weight") and len(args) == 3:
                v = args[2]
                if variant(uncow(v)) == "None":
                    d = "None"
                else:
                    u = uncow(v)
                    u = fget(u, "0") if variant(u) == "Some" else u
                    d = ident(u)
                a = self.cache_op(ast, c, "put", k, d)
                return [(a, OK() if isres else None)]
            if m in ("clear", "drain", "retain_none"):
                return both(None, self.cache_op(ast, c, "clear"))
        # --- keys and components
        if m in ("deref", "force", "as_ref", "clone") and t["args"] and dty.has_adt("AnnoKey") and uncow(a0) is None:
            s = self.static_of(body, t["args"][0])
            bids = []
            if s is not None:
                bids = sorted(x for x in self.prog.bodies if x.startswith(s + "::") and self.makes(x))
            if not bids and m == "deref" and f.get("res") in self.prog.bodies:
                bids = sorted(x for x in self.prog.closure_of([f["res"]]) if self.makes(x))
            if bids:
                v = self.static(ip, bids)
                if v is not None:
                    return [(ast, v)]
        if m in ("default", "new") and not args and dty.is_adt("String"):
            return [(ast, ("c", ""))]
        if m == "is_empty" and len(args) == 1 and text(args[0]) == "component_name":
            return [(ast, sym("emptytext", "component_name"))]
        if short(n) == "Component::new" and len(args) == 3:
            return [(ast, sym("comp", "%s|%s|%s" % (ctype(args[0]), text(args[1]), text(args[2]))))]
        if m in ("from_str", "parse", "try_from") and text(a0) == "component_type":
            if self.ct_variants:
                known = [x[1] for x in ast if x[0] == "ct"]
                return [(ast | {("ct", v)}, OK(("a", v, ()))) for v in (known or self.ct_variants)] + [(ast | {("badct",)}, ERR())]
            return [(ast, OK(sym("ct", "component_type"))), (ast | {("badct",)}, ERR())]
        if m in ("eq", "ne") and len(args) == 2:
            r = self.compare(ast, args[0], args[1], m == "ne")
            if r is not None:
                return [(ast, r)]
        # --- storages
        if m == "get_all_components":
            if len(args) == 3 and variant(args[1]) == "None" and variant(args[2]) == "None":
                return [(ast, sym("all"))]
            return [(ast, sym("some"))]
        if m == "get_or_create_writable" and len(args) == 2:
            return both(sym("gs", comp(args[1])))
        if m in ("get_graphstorage", "get_graphstorage_as_ref") and len(args) == 2:
            return [(ast, SOME(sym("gs", comp(args[1])))), (ast | {("nogs", comp(args[1]))}, NONE)]
        if m in EFFECTS and len(args) == EFFECTS[m]:
            gs = a0[2] if a0 is not None and a0[0] == "x" and a0[1] == "gs" else None
            res = "Result" if isres else ""
            if m == "delete_node":
                return self.effect(ast, (m, gs or "?", ident(args[1])), res)
            if m in ("add_edge", "delete_edge"):
                return self.gs_effect(body, t, ast, (m, gs or "?", edge(args[1])), res)
            if m in ("add_edge_annotation", "delete_edge_annotation"):
                an = "%s=%s" % (key(fget(args[2], "key")), text(fget(args[2], "val"))) if m.startswith("add") else key(args[2])
                return self.effect(ast, (m, gs or "?", edge(args[1]), an), res)
            if tr.endswith("AnnotationStorage") and gs is None:
                if m == "insert":
                    i = ident(args[1])
                    return self.effect(ast, (m, i if i != "0" or ("nonodes",) not in ast else "new", "%s=%s" % (key(fget(args[2], "key")), text(fget(args[2], "val")))), res)
                if m == "remove_item":
                    return self.effect(ast, (m, ident(args[1])), res)
                return self.effect(ast, (m, ident(args[1]), key(args[2])), res)
        if m == "clear" and a0 is not None and a0[0] == "x" and a0[1] == "gs":
            return both(None, ast | {("wiped", a0[2])})
        if m == "is_connected" and a0 is not None and a0[0] == "x" and a0[1] == "gs" and len(args) >= 3:
            if len(args) == 5 and not (args[3] == ("i", 1) and variant(args[4]) == "Included" and fget(args[4], "0") == ("i", 1)):
                return both(None)
            return both(sym("conn", "%s (%s,%s)" % (a0[2], ident(args[1]), ident(args[2]))))
        return self.extra_call(ip, body, bb, t, f, ast, args, n, m, dty, a0, isres, both)

    def gs_effect(self, body, t, ast, e, res):
        return self.effect(ast, e, res)

    def extra_call(self, ip, body, bb, t, f, ast, args, n, m, dty, a0, isres, both):
        # --- iteration over all components
        if a0 is not None and a0[0] == "x" and a0[1] in ("all", "some"):
            if m == "next":
                el = SOME(sym("comp", "*")) if a0[1] == "all" else SOME(sym("comp", "?"))
                return [(ast | {("some", a0[1])}, el, "keep"), (ast if ("some", a0[1]) in ast else ast | {("vac", a0[1])}, NONE, "keep")]
            if m in ("for_each", "try_for_each") and len(args) == 2:
                out = [(ast | {("vac", a0[1])}, OK(UNIT) if isres else UNIT)]
                for a, v in ip.run_closure(args[1], [sym("comp", "*" if a0[1] == "all" else "?")], ast):
                    out.append((a, v))
                return out
            if m in ("filter", "skip", "take", "filter_map", "take_while", "skip_while", "step_by"):
                return [(ast, sym("some"))]
            if m in PASS:
                return [(ast, a0)]
        return None

    def makes(self, bid):
        b = self.prog.bodies[bid]
        for bb in b.bbs:
            for s in bb["s"]:
                if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("g") == "adt" and b.ltys[s["p"][0]].is_adt("AnnoKey"):
                    return True
        return False


EXPECT = {
    "AddNode": [("insert", "new", '"annis"/"node_name"=node_name'), ("insert", "new", '"annis"/"node_type"=node_type')],
    "DeleteNode": [("remove_item", "id:node_name"), ("delete_node", "*", "id:node_name")],
    "AddNodeLabel": [("insert", "id:node_name", "anno_ns/anno_name=anno_value")],
    "DeleteNodeLabel": [("remove_annotation_for_item", "id:node_name", "anno_ns/anno_name")],
    "AddEdge": [("add_edge", "component_type|layer|component_name", "(id:source_node,id:target_node)")],
    "DeleteEdge": [("delete_edge", "component_type|layer|component_name", "(id:source_node,id:target_node)")],
    "AddEdgeLabel": [("add_edge_annotation", "component_type|layer|component_name", "(id:source_node,id:target_node)", "anno_ns/anno_name=anno_value")],
    "DeleteEdgeLabel": [("delete_edge_annotation", "component_type|layer|component_name", "(id:source_node,id:target_node)", "anno_ns/anno_name")],
}


def excused(ev, ast):
    """a reason for which the event has no effect"""
    miss = {x[1] for x in ast if x[0] == "missing"}
    if ev == "AddNode":
        return ("ex", "node_name") in ast
    if ev in ("DeleteNode", "AddNodeLabel", "DeleteNodeLabel"):
        return "node_name" in miss
    if miss & {"source_node", "target_node"} or ("badct",) in ast:
        return True
    if ev.endswith("EdgeLabel"):
        return ("noedge", "component_type|layer|component_name (id:source_node,id:target_node)") in ast
    return False


def c25(prog, rep):
    bodies = prog.bodies
    rep.rule("whole-effect", "on every path on which the event is applied successfully, exactly the changes the event stands for are made (to the named node, edge, annotation and component), or none if the node, edge or component type does not exist or the node already exists")
    rep.rule("names-are-current", "after each event no cache from node names to IDs holds an entry the event made outdated")
    rep.rule("hooks-around-event", "the hooks of the component model run before and after the changes of each event, and the model index is updated at the end")
    rep.rule("change-id", "the current change ID is the one of the last applied event")
    rep.rule("derived-edges-invalidated", "deleting a node and adding or deleting an edge which has an influence on coverage or token alignment marks the nodes that reach the changed one by coverage for re-indexing")
    rep.rule("derived-edges-rebuilt", "edges that are derived from others are removed for the marked nodes before they are added again")
    ev = prog.adts.get(next((a for a in prog.adts if a.endswith("update::UpdateEvent")), ""))
    if ev is None:
        rep.floor("whole-effect", "event types", 0, 8)
        return
    roots, touch = [], set()
    for b in bodies.values():
        for _i, t in b.calls():
            f = t["f"].get("fn")
            if not f:
                continue
            m = plain(f["n"]).rsplit("::", 1)[-1]
            if m == "init_update_graph_index" and b.crate == "graphannis_core":
                roots.append(b)
            if m in HOOKS or m in EFFECTS or m in ("get_node_id_from_name", "has_node_name", "get_largest_item", "get_or_create_writable", "get_all_components", "get_graphstorage", "get_graphstorage_as_ref") or short(f["n"]) == "Component::new":
                touch.add(b.id)
            if m in ("put", "insert", "get", "remove", "pop", "clear", "push", "peek", "contains_key") and t["args"] and "p" in t["args"][0] and name_cache(b.ltys[t["args"][0]["p"][0]]) is not None:
                touch.add(b.id)
    touch = {x for x in touch if bodies[x].crate in ("graphannis_core", "graphannis")}
    hot = reach_back(prog, touch)
    # the storages and wrappers themselves are the recorded effects
    nev = 0
    for root in roots:
        reached = sorted(x for x in prog.closure_of([root.id]) if bodies[x].crate == "graphannis_core")
        for v in ev["variants"]:
            name = v["n"]
            cl = Ev(prog, hot, name, [n for n, _t, _p in v["f"]])
            # first pass: find the caches
            for x in reached:
                b = bodies[x]
                for l in b.ltys:
                    c = name_cache(l)
                    if c is not None and x in hot:
                        cl.caches.setdefault(c.d.rsplit("::", 1)[-1], c)
            ip = Interp(prog, cl)
            outs = ip.run(root.id, (None,) * root.argc, frozenset())
            rep.fns(ip.stats["functions"])
            who = root.name.rsplit("::", 1)[-1]
            n = 0
            problems = {}
            for a, val, _m in outs or ():
                if variant(val) == "Err":
                    continue
                if ("applied",) not in a:
                    problems.setdefault(("hooks-around-event", "model index"), "the updates are applied successfully without updating the model index")
                if ("ev",) not in a:
                    continue
                n += 1
                eff = {x[1:] for x in a if x[0] == "eff"}
                want = EXPECT.get(name)
                if want is None:
                    problems.setdefault(("whole-effect", "unknown event"), "unknown kind of event")
                    continue
                if excused(name, a):
                    if eff:
                        problems.setdefault(("whole-effect", "not applicable"), "the event is not applicable but %s is done" % sorted(eff)[0][0])
                else:
                    for w in want:
                        if w not in eff and not (w[0] == "delete_node" and ("vac", "all") in a):
                            problems.setdefault(("whole-effect", " ".join(w)), "the event can be applied without %s" % " ".join(w))
                    for e in sorted(eff):
                        if e not in want:
                            problems.setdefault(("whole-effect", "other " + e[0]), "the event also causes %s" % " ".join(e))
                for x in a:
                    if x[0] == "dirty":
                        if x[2] == "rename" and ("not", "rename") in a:
                            continue
                        if x[2] == "rename" and name == "AddNode":
                            continue
                        problems.setdefault(("names-are-current", x[1]), "the cache '%s' may still hold an outdated entry after the event (%s)" % (x[1], "the label might be the node name" if x[2] == "rename" else "for the node itself"))
                if ("late",) in a or ("early",) in a:
                    problems.setdefault(("hooks-around-event", "order"), "a change is made outside of the hooks before_update_event and after_update_event")
                if ("before",) not in a or ("after",) not in a:
                    problems.setdefault(("hooks-around-event", "missing"), "a hook is not called for the event")
                if ("chg",) not in a or ("chgbad",) in a:
                    problems.setdefault(("change-id", "current_change_id"), "the current change ID is not the ID of the applied event")
            nev += 1 if n else 0
            for r in ("whole-effect", "names-are-current", "hooks-around-event", "change-id"):
                ps = {k: p for k, p in problems.items() if k[0] == r}
                for k, p in ps.items():
                    rep.bad(r, "%s: %s" % (name, k[1]), loc(root), "%s: %s" % (name, p))
                if not ps and n:
                    rep.ok(r, "%s in %s: %d outcomes" % (name, who, n))
    rep.floor("whole-effect", "kinds of events sent through the loop", nev, 8)
    # the loop is used by all public ways to apply updates
    pub = [b for b in bodies.values() if b.crate == "graphannis_core" and b.kind == "method" and b.reach and b.argc >= 2 and any(t.has_adt("GraphUpdate") for t in b.ltys[1:b.argc + 1]) and b.selfty is not None and b.selfty.peel().d.endswith("graph::Graph")]
    for b in pub:
        if prog.closure_of([b.id]) & {r.id for r in roots}:
            rep.ok("whole-effect", "%s applies its events" % b.name.rsplit("::", 1)[-1])
        else:
            rep.bad("whole-effect", "%s: no loop" % b.name.rsplit("::", 1)[-1], loc(b), "the updates given to this function are never applied")
    rep.floor("whole-effect", "functions that apply updates", len(pub), 2)
    model(prog, rep, ev, hot)


class Model(Ev):
    """the handlers of the annotation graph model"""

    def effect(self, ast, e, res):
        d = ast
        if e[0] == "delete_node":
            if e[2] == "inval":
                d = ast | {("wiped", e[1])}
        return [(d, OK() if res else None)]

    def gs_effect(self, body, t, ast, e, res):
        if e[0] == "add_edge":
            self.count += 1
            if ("wiped", e[1]) not in ast:
                self.bad.setdefault(e[1], loc(body, t.get("l")))
            self.added.add(e[1])
        return [(ast, OK() if res else None)]

    added = frozenset()

    def interesting(self, bid):
        return bid in self.hot and self.prog.bodies[bid].crate == "graphannis"

    def extra_call(self, ip, body, bb, t, f, ast, args, n, m, dty, a0, isres, both):
        k0 = a0[1] if a0 is not None and a0[0] == "x" else None
        if k0 == "invalid":
            if m in ("insert", "extend", "push") and len(args) >= 2:
                return both(None, ast | {("inv", ident(args[1]))})
            if m in ("contains_key", "contains") and len(args) == 2:
                return both(sym("has", ident(args[1])))
            if m in ("iter", "into_iter", "keys", "try_iter"):
                it = sym("invit", "%s:%d" % (body.id, bb))
                return both(it, ast - {("it", it[2])})
            if m in PASS or m in ("map", "into_inner"):
                return [(ast, a0)]
            if m in ("clear", "remove", "retain"):
                return both(None, frozenset(x for x in ast if x[0] != "inv"))
            if m == "compact":
                return both(None)
        if k0 == "invit":
            if m == "next":
                v = self.shape(dty.a[0] if dty.a else None, sym("inval"))
                # the marked nodes do not change while the derived edges are rebuilt
                out = [(ast | {("someinv",), ("it", a0[2])}, SOME(v), "keep")] if ("noinv",) not in ast else []
                if ("someinv",) not in ast:
                    out.append((ast | {("noinv",)}, NONE, "keep"))
                elif ("it", a0[2]) in ast:
                    out.append((ast, NONE, "keep"))
                return out
            if m in ("try_for_each", "for_each") and len(args) == 2:
                out = [(ast | {("noinv",)}, OK(UNIT) if isres else UNIT)] if ("someinv",) not in ast else []
                cl = args[1]
                fid = variant(cl)[3:] if variant(cl) and variant(cl).startswith("fn:") else None
                if fid in self.prog.bodies and ("noinv",) not in ast:
                    fb = self.prog.bodies[fid]
                    out += ip.run_closure(cl, [self.shape(fb.ltys[fb.argc], sym("inval"))], ast | {("someinv",)})
                return out
            if m in PASS:
                return [(ast, a0)]
        if k0 == "tcc":
            if m in ("insert", "push") and len(args) == 2:
                return both(None, ast | {("tcc", comp(args[1]))})
            if m in PASS or m in ("filter_map", "map", "collect", "as_slice", "chain", "flat_map"):
                return [(ast, a0)]
            if m in ("remove", "clear", "retain"):
                return both(None, ast | {("tccbad",)})
        if m == "new" and "UnionEdgeContainer" in n and k0 == "tcc":
            return [(ast, a0)]
        if plain(n).endswith("CycleSafeDFS::new_inverse") and len(args) == 4:
            mx = args[3]
            if k0 == "tcc" and args[2] == ("i", 0) and (mx is None or mx[0] == "i" and mx[1] >= (1 << 32)):
                return [(ast, sym("dfs", ident(args[1])))]
            return [(ast, sym("dfs", "?"))]
        if k0 == "dfs":
            if m == "next":
                st = ("a", None, (("node", sym("step", a0[2])),))
                v = self.shape(dty.a[0] if dty.a else None, st)
                # the start node is always part of the search
                out = [(ast | {("stepped", a0[2])}, SOME(v), "keep")]
                if ("stepped", a0[2]) in ast:
                    out.append((ast, NONE, "keep"))
                return out
            if m in PASS:
                return [(ast, a0)]
            if m in ("filter", "skip", "take", "take_while", "filter_map"):
                return [(ast, sym("dfs", "?"))]
        if m == "exact_anno_search" and len(args) == 4:
            if text(fget(args[1], "0") if variant(args[1]) == "Some" else None) == '"annis"' and text(args[2]) in ('"node_type"', '"node_name"') and variant(args[3]) == "Any":
                return [(ast, sym("allnodes"))]
            return [(ast, sym("somenodes"))]
        if k0 in ("allnodes", "somenodes"):
            if m == "next":
                v = self.shape(dty.a[0] if dty.a else None, ("a", None, (("node", sym("anynode" if k0 == "allnodes" else "other")),)))
                return [(ast | {("nd",)}, SOME(v), "keep"), (ast if ("nd",) in ast else ast | {("vac", "nodes")}, NONE, "keep")]
            if m in PASS:
                return [(ast, a0)]
            if m in ("filter", "skip", "take", "filter_map", "step_by"):
                return [(ast, sym("somenodes"))]
        if m in ("calculate_component_statistics", "optimize_gs_impl"):
            return both(None)
        return super().extra_call(ip, body, bb, t, f, ast, args, n, m, dty, a0, isres, both)

    def shape(self, t, el):
        if t is None:
            return el
        if t.is_adt("core::result::Result"):
            return OK(self.shape(t.a[0], el))
        if t.k == "tuple":
            return A(None, *([el] + [None] * (len(t.a) - 1)))
        return el


def model(prog, rep, ev, _hot):
    bodies = prog.bodies
    touch = set()
    for b in bodies.values():
        if b.crate != "graphannis":
            continue
        for _i, t in b.calls():
            f = t["f"].get("fn")
            if f and (plain(f["n"]).rsplit("::", 1)[-1] in ("get_or_create_writable", "delete_node", "add_edge", "get_node_id_from_name", "exact_anno_search", "new_inverse")):
                touch.add(b.id)
            elif f and t["args"] and "p" in t["args"][0] and name_cache(b.ltys[t["args"][0]["p"][0]]) is not None:
                touch.add(b.id)
    hot = reach_back(prog, touch)
    hs = {}
    for b in bodies.values():
        if b.crate == "graphannis" and b.kind == "method" and b.method in HOOKS and b.trait and b.trait.endswith("ComponentType"):
            hs[b.method] = b
    if set(hs) != set(HOOKS):
        rep.floor("derived-edges-invalidated", "hooks of the annotation graph model", len(hs), 4)
        return
    ixty = next((x.d for x in hs["before_update_event"].ltys[1:4] for x in [x.peel()] if x.k == "adt" and x.d in prog.adts and x.d.rsplit("::", 1)[-1] not in (EV, "Graph")), None)
    adt = prog.adts.get(ixty)
    if adt is None:
        rep.floor("derived-edges-invalidated", "update index type", 0, 1)
        return
    ixf, flags, caches = {}, [], {}
    for n, t, _p in adt["variants"][0]["f"]:
        pt = t.peel()
        if name_cache(pt) is not None:
            caches[n] = name_cache(pt)
        elif t.s == "bool":
            flags.append(n)
        elif pt.k == "adt" and pt.a and pt.a[0].s == "u64":
            ixf[n] = sym("invalid")
        elif pt.k == "adt" and pt.a and pt.a[0].has_adt("Component"):
            ixf[n] = sym("tcc")
    ctadt = next((a for i, a in prog.adts.items() if i.endswith("AnnotationComponentType")), None)
    cts = [v["n"] for v in ctadt["variants"]] if ctadt else []
    rep.floor("derived-edges-invalidated", "component types", len(cts), 7)

    def runh(hook, name, fields, flag):
        cl = Model(prog, hot, name, fields, False)
        cl.ct_variants = cts
        cl.flags = flag
        cl.index_fields = ixf
        cl.added = set()
        for c in caches.values():
            cl.caches[c.d.rsplit("::", 1)[-1]] = c
        ip = Interp(prog, cl)
        b = hs[hook]
        args = [None] * b.argc
        for i in range(b.argc):
            t = b.ltys[i + 1].peel()
            if t.is_adt(EV):
                args[i] = ("a", name, tuple(sorted((n, sym("f", n)) for n in fields)))
            elif t.k == "adt" and t.d == ixty:
                args[i] = sym("index")
        outs = ip.run(b.id, tuple(args), frozenset())
        rep.fns(ip.stats["functions"])
        return [a for a, v, _m in outs or () if variant(v) != "Err"], cl
    on = {n: FALSE for n in flags}
    n = 0
    for v in ev["variants"]:
        name = v["n"]
        fields = [x for x, _t, _p in v["f"]]
        before, _ = runh("before_update_event", name, fields, on)
        after, _ = runh("after_update_event", name, fields, on)
        n += 1 if before and after else 0
        # caches of the model
        for f, t in caches.items():
            c = t.d.rsplit("::", 1)[-1]

            def current(asts, k):
                bad = []
                for a in asts:
                    if ("cl", c) in a:
                        continue
                    if k == "node" and (("missing", "node_name") in a or any(x[0] == "put" and x[1] == c and x[2] == "node_name" and x[3] in ("-", "None") for x in a)):
                        continue
                    if k == "rename" and ("not", "rename") in a:
                        continue
                    bad.append(a)
                return not bad
            k = {"DeleteNode": "node", "AddNodeLabel": "rename", "DeleteNodeLabel": "rename"}.get(name)
            if name == "AddNode" and negative(t):
                k = "node"
            if k is None:
                continue
            if current(before, k) or current(after, k):
                rep.ok("names-are-current", "%s: %s of the model" % (name, f))
            else:
                rep.bad("names-are-current", "%s: %s of the model" % (name, f), loc(hs["before_update_event"]), "%s: the cache '%s' of the model index may still hold an outdated entry after the event" % (name, f))
        # marked nodes
        def marked(asts, node, need_ct):
            bad = None
            if need_ct and not any(x[0] == "ct" for a in asts for x in a):
                return "-"
            for a in asts:
                ct = [x[1] for x in a if x[0] == "ct"]
                if need_ct and not (set(ct) & set(need_ct)):
                    if not ct and ("badct",) not in a and not (("missing", "source_node") in a or ("missing", "target_node") in a):
                        # the component type was never looked at
                        bad = "-"
                    continue
                if ("missing", node) in a or ("inv", "step:id:" + node) in a or ("known", "id:" + node) in a:
                    continue
                bad = ct[0] if ct else "-"
            return bad
        todo = []
        if name == "DeleteNode":
            todo = [("node_name", None, (before,))]
        elif name in ("AddEdge", "DeleteEdge"):
            todo = [("source_node", FIVE, (before, after) if name == "AddEdge" else (before, after)), ("target_node", ("Ordering",), (before, after))]
        for node, need, phases in todo:
            rs = [marked(p, node, need) for p in phases]
            if any(r is None for r in rs):
                rep.ok("derived-edges-invalidated", "%s: %s" % (name, node))
            else:
                ct = next(r for r in rs if r is not None)
                rep.bad("derived-edges-invalidated", "%s: %s" % (name, node), loc(hs["before_update_event"]), "%s (%s): the nodes that reach the %s by coverage are not marked for re-indexing on some path" % (name, ct, node))
        if name == "AddEdge":
            for ct in ("Coverage", "Dominance"):
                ok = any(all(("tcc", "%s|layer|component_name" % ct) in a or ("nonempty", "component_name") in a for a in p if ("ct", ct) in a) and any(("ct", ct) in a for a in p) for p in (before, after))
                if ok:
                    rep.ok("derived-edges-invalidated", "AddEdge: new %s component takes part in coverage" % ct)
                else:
                    rep.bad("derived-edges-invalidated", "AddEdge: new %s component" % ct, loc(hs["after_update_event"]), "a new unnamed %s component is not used to find the nodes that reach a changed node" % ct)
    rep.floor("derived-edges-invalidated", "kinds of events sent through the handlers", n, 8)
    # the flag that turns the handlers off
    for f in flags:
        outs, cl = runh("apply_update_graph_index", "AddNode", ["node_name", "node_type"], {f: TRUE})
        good = outs and all(("inv", "anynode") in a or ("vac", "nodes") in a for a in outs)
        if good:
            rep.ok("derived-edges-invalidated", "%s: all nodes are re-indexed" % f)
        else:
            rep.bad("derived-edges-invalidated", "%s: not all nodes" % f, loc(hs["apply_update_graph_index"]), "the events are not tracked if '%s' is set, but not all nodes are re-indexed in this case" % f)
        vals = set()
        b = hs["init_update_graph_index"]
        ci = Flag(prog, hot)
        outs = Interp(prog, ci).run(b.id, (None,) * b.argc, frozenset())
        for _a, v, _m in outs or ():
            if variant(v) == "Ok":
                vals.add(fget(fget(v, "0"), f))
        if vals & {TRUE, ("not", sym("nonodes"))} or not vals:
            rep.bad("derived-edges-invalidated", "%s: initial value" % f, loc(b), "'%s' is set although the graph has nodes" % f)
        else:
            rep.ok("derived-edges-invalidated", "%s: initial value" % f)
    # derived edges
    nadd = 0
    for val in (TRUE, FALSE):
        outs, cl = runh("apply_update_graph_index", "AddNode", ["node_name", "node_type"], {f: val for f in flags})
        nadd += cl.count
        for c in sorted(cl.added):
            if c in cl.bad:
                rep.bad("derived-edges-rebuilt", c, cl.bad[c], "edges are added to %s without removing the old ones of the marked nodes first" % c)
            else:
                rep.ok("derived-edges-rebuilt", "%s (%s)" % (c, "all nodes" if val == TRUE else "marked nodes"))
    rep.floor("derived-edges-rebuilt", "places where derived edges are added", nadd, 4)


class Flag(Client):
    def __init__(self, prog, hot):
        self.prog, self.hot = prog, hot

    def interesting(self, bid):
        return False

    def call(self, ip, body, bb, t, f, ast, args):
        if f is not None and plain(f["n"]).endswith("AnnotationStorage::is_empty"):
            return [(ast, OK(sym("nonodes"))), (ast, ERR())]
        return None


def check(pid, prog, rep):
    c25(prog, rep)
