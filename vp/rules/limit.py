"""C09: the time limit of a query is kept, checked regularly and reported.

The limit type (start time plus optional duration) is found by its fields. Checked on the MIR of the library:
where a limit is started and from which value, that it is not restarted, that node searches check it before each step,
that functions that consume the results of a query check it in every loop, and that a failing operand ends a search."""
from ..facts import callee, short, plain
from ..interp import Client, Interp, OK, ERR, SOME, NONE, variant, fget, reach_back
from ..report import loc

CRATE = "graphannis"
MAX_STEP = 100_000
NOEND = ("next", "peek", "peek_mut", "next_if", "size_hint", "by_ref")


def opt_duration(t):
    t = t.peel()
    return t.k == "adt" and t.d == "core::option::Option" and any(x.k == "adt" and x.d == "core::time::Duration" for x in t.a)


def adt_fields(prog, aid):
    a = prog.adts.get(aid)
    return a["variants"][0]["f"] if a and len(a["variants"]) == 1 else []


def source(t):
    """an iterator over the results of a query"""
    for x in t.walk():
        if x.k == "adt" and x.d.endswith("::ExecutionPlan"):
            return True
        if x.k == "dyn" and "Iterator<" in x.s and "Match;" in x.s:
            return True
    return False


def node_source(t):
    return any(x.k == "dyn" and "ExecutionNode<" in x.s for x in t.walk())


class Limits:
    def __init__(self, prog):
        self.prog = prog
        self.types = set()
        for aid, a in prog.adts.items():
            if a["crate"] != CRATE or len(a["variants"]) != 1:
                continue
            f = a["variants"][0]["f"]
            if any(t.is_adt("std::time::Instant") for _n, t, _p in f) and any(opt_duration(t) for _n, t, _p in f):
                self.types.add(aid)
        self.given = {aid for aid, a in prog.adts.items() if a["crate"] == CRATE and len(a["variants"]) == 1 and aid not in self.types
                      and any(opt_duration(t) for _n, t, _p in a["variants"][0]["f"])}
        self.bodies = [b for b in prog.bodies.values() if b.crate == CRATE and b.kind != "promoted"]
        self.check = {b.id for b in self.bodies if self.own(b) and b.argc >= 1 and b.selfty is not None and self.is_limit(b.ltys[1]) and b.ltys[0].is_adt("core::result::Result")}

    def is_limit(self, t):
        t = t.peel()
        return t.k == "adt" and t.d in self.types

    def own(self, b):
        r = self.prog.root_fn(b.id)
        return r.selfty is not None and self.is_limit(r.selfty)

    def has_limit(self, t):
        return any(x.k == "adt" and x.d in self.types for x in t.walk())

    def has_given(self, t):
        t = t.peel()
        return opt_duration(t) or (t.k == "adt" and t.d in self.given)

    def params(self, b):
        return [b.ltys[i] for i in range(1, b.argc + 1)]

    def starts(self, b):
        """blocks/places in which a limit value is created: [(bb, operand of the duration, line)]"""
        r = []
        if self.own(b):
            return r
        for i, t in b.calls():
            f = callee(t)
            gid = f and (f.get("res") or f.get("id"))
            if gid in self.prog.bodies and self.own(self.prog.bodies[gid]) and gid not in self.check and self.has_limit(self.prog.bodies[gid].ltys[0]) and not any(self.is_limit(p) for p in self.params(self.prog.bodies[gid])):
                r.append((i, t["args"][0] if t["args"] else None, t.get("l")))
        for i, bb in enumerate(b.bbs):
            for s in bb["s"]:
                if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("d") in self.types:
                    names = [n for n, t, _p in adt_fields(self.prog, s["r"]["d"]) if opt_duration(t)]
                    idx = [n for n, _t, _p in adt_fields(self.prog, s["r"]["d"])].index(names[0])
                    r.append((i, s["r"]["o"][idx], s.get("l")))
        return r


def origin(prog, b, o, depth=0):
    """where an Option<Duration> comes from: set of 'given', 'none', 'other'"""
    if o is None or depth > 12:
        return {"other"}
    if "p" not in o:
        return {"other"}
    p = o["p"]
    if len(p) > 1 and any(isinstance(e, list) and e[0] == "." for e in p[1:]):
        return {"given"}
    l = p[0]
    if 1 <= l <= b.argc:
        return {"given"}
    r = set()
    for d in b.defs.get(l, ()):
        if d[0] == "=":
            rv = d[3]["r"]
            if rv["k"] == "agg" and rv.get("v") == "None":
                r.add("none")
            elif rv["k"] in ("use", "cast"):
                x = rv["o"][0]
                if "path" in x or ("p" not in x):
                    r.add("other")
                else:
                    r |= origin(prog, b, x, depth + 1)
            elif rv["k"] == "ref":
                r |= origin(prog, b, {"p": rv["p"]}, depth + 1)
            else:
                r.add("other")
        elif d[0] == "call":
            f = callee(d[3])
            n = plain(f["n"]).rsplit("::", 1)[-1] if f else ""
            if n in ("clone", "copied", "cloned", "into", "from") and d[3]["args"]:
                r |= origin(prog, b, d[3]["args"][0], depth + 1)
            elif f and f.get("res") in prog.bodies and opt_duration(prog.bodies[f["res"]].ltys[0]):
                g = prog.bodies[f["res"]]
                r |= origin(prog, g, {"p": [0]}, depth + 1) if not (1 <= 0 <= g.argc) else {"other"}
            else:
                r.add("other")
    return r or {"other"}


def in_cycle(b, blocks, target, without=()):
    """can target reach itself inside of blocks without passing the given blocks?"""
    if target in without:
        return False
    seen, st = set(), [s for s in b.succ(target) if s in blocks and s not in without]
    while st:
        x = st.pop()
        if x == target:
            return True
        if x in seen:
            continue
        seen.add(x)
        st.extend(s for s in b.succ(x) if s in blocks and s not in without)
    return False


def inner_loop(b, bb):
    best = None
    for h, blocks in b.loops().items():
        if bb in blocks and (best is None or len(blocks) < len(best)):
            best = blocks
    return best


def single_def(b, l):
    d = b.defs.get(l, ())
    return d[0] if len(d) == 1 else None


def chase(b, o):
    """follow copies of a local to its defining statement"""
    for _ in range(12):
        if "p" not in o:
            return o, None
        d = single_def(b, o["p"][0])
        if len(o["p"]) > 1 and not (o["p"][1:] == ["*"]) and not (d and d[0] == "=" and d[3]["r"]["k"] == "bin"):
            return o, d
        if d is None or d[0] != "=":
            return o, d
        rv = d[3]["r"]
        if rv["k"] in ("use", "cast") and "p" in rv["o"][0]:
            o = rv["o"][0]
        elif rv["k"] == "ref" and all(e == "*" for e in rv["p"][1:]):
            o = {"p": rv["p"]}
        else:
            return o, d
    return o, None


def modulus(prog, b, o, depth=0):
    """(counter operand or None, why) if a boolean is true for at least every MAX_STEP-th value of a counter; (False, why) otherwise"""
    o, d = chase(b, o)
    if d is None or depth > 4:
        return False, "an unrecognised condition"
    if d[0] == "=" and d[3]["r"]["k"] == "un":
        return modulus(prog, b, d[3]["r"]["o"][0], depth + 1)
    if d[0] == "call":
        f = callee(d[3])
        n = plain(f["n"]).rsplit("::", 1)[-1] if f else ""
        a = d[3]["args"]
        if n == "is_multiple_of" and len(a) == 2:
            return step(a[1], a[0], b)
        g = prog.bodies.get(f and f.get("res"))
        if g is not None and g.ltys[0].s == "bool":
            c, why = modulus(prog, g, {"p": [0]}, depth + 1)
            if c is False:
                return c, why
            c2, _d = chase(g, c) if c else (None, None)
            if c2 and 1 <= c2["p"][0] <= g.argc and c2["p"][0] - 1 < len(a):
                return a[c2["p"][0] - 1], why
            return None, why
        return False, "the condition %s" % n
    if d[0] == "=" and d[3]["r"]["k"] == "bin":
        r = d[3]["r"]
        if r["b"] in ("Eq", "Ne"):
            x, y = r["o"]
            for u, v in ((x, y), (y, x)):
                u, du = chase(b, u)
                if du and du[0] == "=" and du[3]["r"]["k"] == "bin" and du[3]["r"]["b"] == "Rem":
                    return step(du[3]["r"]["o"][1], du[3]["r"]["o"][0], b)
    return False, "an unrecognised condition"


def step(n, counter, b):
    n, _ = chase(b, n) if "p" in n else (n, None)
    if "i" in n:
        v = int(n["i"])
        if v == 0 or v > MAX_STEP:
            return False, "only every %d rounds" % v
        return counter, "every %d rounds" % v
    if "path" in n:
        return counter, "a constant number of rounds"
    return False, "a number of rounds that is not constant"


def increments(b, blocks, l):
    """blocks in which the counter local is increased"""
    r = set()
    for i in blocks:
        for s in b.bbs[i]["s"]:
            if s["k"] == "=" and s["p"] == [l] and s["r"]["k"] in ("use", "bin"):
                o = s["r"]["o"][0]
                if s["r"]["k"] == "bin" and s["r"]["b"].startswith("Add"):
                    r.add(i)
                elif "p" in o:
                    d = single_def(b, o["p"][0])
                    if d and d[0] == "=" and d[3]["r"]["k"] == "bin" and d[3]["r"]["b"].startswith("Add"):
                        r.add(i)
        t = b.bbs[i]["t"]
        if t["k"] == "call" and t["d"] == [l]:
            r.add(i)
    return r


class Pulls(Client):
    """an operand that failed ends the search: no further pull after an error"""

    def __init__(self, prog, hot, lim, rep, limited):
        self.prog, self.hot, self.lim, self.rep, self.limited = prog, hot, lim, rep, limited
        self.npull = set()

    def interesting(self, bid):
        return bid in self.hot

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return None
        n = plain(f["n"])
        last = n.rsplit("::", 1)[-1]
        gid = f.get("res") or f.get("id")
        if gid in self.lim.check:
            return [(ast | {"checked"}, OK()), (ast | {"expired"}, ERR())]
        pull = None
        if last in ("next", "peek", "next_if", "next_back") and "self" in f:
            st = body.tys[f["self"]]
            if self.limited and self.prog.bodies.get(gid) is None:
                pull = True
            elif not self.limited and (node_source(st) or source(st)) and self.prog.bodies.get(gid) is None:
                pull = True
        elif last in ("next", "peek", "next_if") and t["args"] and "p" in t["args"][0] and self.prog.bodies.get(gid) is None:
            st = body.ltys[t["args"][0]["p"][0]]
            pull = node_source(st) or (not self.limited and source(st))
        if pull:
            self.npull.add((body.id, t.get("l")))
            key = "%s" % body.name
            if self.limited:
                if "checked" not in ast:
                    self.rep.append(("unchecked", key, loc(body, t.get("l")), "%s asks for the next candidate without checking the time limit before" % body.name))
                if "expired" in ast:
                    self.rep.append(("after", key, loc(body, t.get("l")), "%s goes on after the time limit was reached" % body.name))
                return [(ast, SOME(("a", "Ok", ()))), (ast, NONE)]
            if ast & {"err", "sent"}:
                self.rep.append(("endless", key, loc(body, t.get("l")), "%s asks an operand for more matches after it failed: an operand whose time is up fails forever" % body.name))
                return []
            if last == "peek":
                return [(ast, SOME(OK())), (ast | {"pk"}, SOME(ERR(("x", "e")))), (ast, NONE)]
            if "pk" in ast:
                return [(ast - {"pk"} | {"err"}, SOME(ERR(("x", "e"))))]
            return [(ast, SOME(OK())), (ast | {"err"}, SOME(ERR(("x", "e")))), (ast, NONE)]
        if not self.limited:
            if last == "send" and "Sender" in n:
                if len(args) > 1 and args[1] is not None and variant(args[1]) == "Err" and "err" in ast:
                    return [(ast - {"err"} | {"sent"}, OK()), (ast - {"err"} | {"sent"}, ERR())]
                return [(ast, OK()), (ast, ERR())]
            if last in ("recv", "try_recv", "recv_timeout") and "Receiver" in n:
                if "sent" in ast:
                    return [(ast | {"got"}, OK())]
                return [(ast, OK()), (ast, ERR())]
            if last in ("as_mut", "as_ref") and "sent" in ast and n.startswith("core::option::Option") and t["args"] and "p" in t["args"][0] and any(x.k == "adt" and x.d.endswith("::Receiver") for x in body.ltys[t["args"][0]["p"][0]].walk()):
                return [(ast, SOME())]
            if last == "push" and "err" in ast:
                # kept in the (bounded) buffer of candidates, together with the matches
                return [(ast - {"err"}, None)]
        return None


class Reported(Client):
    """once the time is up the operation ends with an error"""

    def __init__(self, prog, hot, lim, root):
        self.prog, self.hot, self.lim, self.root = prog, hot, lim, root
        self.sites = set()
        self.more = set()

    def interesting(self, bid):
        return bid in self.hot and self.prog.root_fn(bid).id == self.root

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return None
        gid = f.get("res") or f.get("id")
        if gid in self.lim.check:
            self.sites.add((body.id, t.get("l")))
            return [(ast, OK()), (ast | {"expired"}, ERR(("x", "e")))]
        if plain(f["n"]).rsplit("::", 1)[-1] == "next" and "self" in f and source(body.tys[f["self"]]):
            self.sites.add((body.id, t.get("l")))
            good, bad = OK(), ERR(("x", "e"))
            dt = body.ltys[t["d"][0]]
            if len(t["d"]) == 1 and dt.a and dt.a[0].k == "tuple":
                i = [x.is_adt("core::result::Result") for x in dt.a[0].a]
                good, bad = (("a", None, ((str(i.index(True)), v),)) if True in i else None for v in (good, bad))
            return [(ast, SOME(good)), (ast | {"expired"}, SOME(bad)), (ast, NONE)]
        if plain(f["n"]).rsplit("::", 1)[-1].startswith("try_") and t["args"] and "p" in t["args"][0] and source(body.ltys[t["args"][0]["p"][0]]):
            for a in t["args"][1:]:
                self.more.update(c for c in arg_closures(self.prog, body, a) if c in self.hot)
            return [(ast, OK()), (ast | {"expired"}, ERR(("x", "e")))]
        if gid in self.hot and self.prog.root_fn(gid).id != self.root and self.prog.bodies[gid].ltys[0].is_adt("core::result::Result"):
            self.sites.add((body.id, t.get("l")))
            return [(ast, OK()), (ast | {"expired"}, ERR(("x", "e")))]
        return None


def check(pid, prog, rep):
    lim = Limits(prog)
    rep.floor("limit-type", "types that hold a start time and an optional limit", len(lim.types), 1)
    if not lim.types:
        return
    rep.fns(b.id for b in lim.bodies)

    # --- meaning of the limit type
    R = rep.rule("meaning", "The limit type remembers when it was started and the given limit; its check compares the time since the start with the limit, fails with the timeout error when it is exceeded and succeeds without a limit.") and "meaning"
    for cid in sorted(lim.check):
        b = prog.bodies[cid]
        tmo = any(s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("v") == "Timeout" for x in prog.closure_of([cid]) for bb in prog.bodies[x].bbs for s in bb["s"])
        el = [t for _i, t in b.calls() if callee(t) and plain(callee(t)["n"]).rsplit("::", 1)[-1] in ("elapsed", "duration_since", "checked_duration_since", "saturating_duration_since", "sub")]
        good = bool(el)
        for t in el:
            f = callee(t)
            nm = plain(f["n"]).rsplit("::", 1)[-1]
            idx = 0 if nm == "elapsed" else 1
            if idx >= len(t["args"]) or not of_self(b, t["args"][idx]):
                good = False
        cmp = [(t, plain(callee(t)["n"]).rsplit("::", 1)[-1]) for _i, t in b.calls() if callee(t) and plain(callee(t)["n"]).rsplit("::", 1)[-1] in ("gt", "ge", "lt", "le") and "Duration" in str(b.tys[callee(t)["self"]].s if "self" in callee(t) else "Duration")]
        verdict = None
        if len(cmp) == 1 and cmp[0][0]["to"]:
            verdict = check_semantics(prog, b, cmp[0], el)
        if not tmo:
            rep.bad(R, "no-timeout|%s" % b.name, loc(b), "%s never reports a timeout" % b.name)
        elif not good:
            rep.bad(R, "no-elapsed|%s" % b.name, loc(b), "%s does not measure the time since the stored start" % b.name)
        elif verdict:
            rep.bad(R, "wrong-comparison|%s" % b.name, loc(b), verdict)
        else:
            rep.ok(R, b.name)
    rep.floor(R, "check functions of the limit type", len(lim.check), 1)
    for b in lim.bodies:
        if lim.own(b) and b.id not in lim.check and lim.has_limit(b.ltys[0]) and b.argc and not any(lim.is_limit(p) for p in lim.params(b)):
            for bb in b.bbs:
                for s in bb["s"]:
                    if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("d") in lim.types:
                        for (n, t, _p), o in zip(adt_fields(prog, s["r"]["d"]), s["r"]["o"]):
                            if opt_duration(t):
                                if origin(prog, b, o) == {"given"}:
                                    rep.ok(R, "%s keeps the given limit" % b.name)
                                else:
                                    rep.bad(R, "limit-changed|%s" % b.name, loc(b), "%s does not keep the limit it is given" % b.name)
                            elif t.is_adt("std::time::Instant"):
                                x, d = chase(b, o)
                                if d and d[0] == "call" and callee(d[3]) and plain(callee(d[3])["n"]).endswith("Instant::now"):
                                    rep.ok(R, "%s starts now" % b.name)
                                else:
                                    rep.bad(R, "start-changed|%s" % b.name, loc(b), "%s does not start the time of the query now" % b.name)

    # --- where limits are started
    R = rep.rule("given-limit", "Every limit is started with the limit of the request (parameter or its field). Running without a limit is only possible where no limit was given: not in, and not below, an operation that has one.") and "given-limit"
    starters = {b.id: lim.starts(b) for b in lim.bodies}
    starters = {k: v for k, v in starters.items() if v}
    callers = prog.callers

    def above(bid):
        seen, st = set(), [bid]
        while st:
            x = st.pop()
            for c in callers.get(x, ()):
                if c not in seen and prog.bodies[c].crate == CRATE:
                    seen.add(c)
                    st.append(c)
            p = prog.bodies[x].parent
            if prog.bodies[x].kind == "closure" and p in prog.bodies and p not in seen:
                seen.add(p)
                st.append(p)
        return seen

    def lparams(b):
        r = prog.root_fn(b.id)
        return lim.params(r)

    n = 0
    for bid, st in sorted(starters.items()):
        b = prog.bodies[bid]
        up = above(bid)
        bounded = [u for u in up | {bid} if any(lim.is_limit(p) or lim.has_given(p) for p in lparams(prog.bodies[u]))]
        running = [u for u in up | {bid} if any(lim.is_limit(p) for p in lparams(prog.bodies[u])) or (u != bid and u in starters and prog.root_fn(u).id != prog.root_fn(bid).id)]
        for bb, o, line in st:
            n += 1
            og = origin(prog, b, o) if b.kind != "closure" or not any(lim.has_given(t) for t in b.ltys) else {"given"}
            if "other" in og:
                rep.bad(R, "not-the-given-limit|%s" % b.name, loc(b, line), "%s starts a time limit with something else than the limit of the request" % b.name)
            elif "none" in og and bounded:
                rep.bad(R, "unlimited|%s" % b.name, loc(b, line), "%s runs without a time limit although %s has one" % (b.name, prog.bodies[sorted(bounded)[0]].name))
            elif running:
                rep.bad(R, "restarted|%s" % b.name, loc(b, line), "%s starts the time limit anew while the limit of %s is already running" % (b.name, prog.bodies[sorted(running)[0]].name))
            else:
                rep.ok(R, "%s: %s" % (b.name, "/".join(sorted(og))))
    rep.floor(R, "places that start a limit", n, 8)

    R = rep.rule("started-once", "A query starts its limit once: no start can be reached from another one in the same operation (loops over corpora included).") and "started-once"
    below = {}
    for b in lim.bodies:
        if lim.own(b):
            continue
        sites = [bb for bb, _o, _l in starters.get(b.id, ())]
        for i, t in b.calls():
            for g in prog.targets(b, callee(t)):
                if g in starters and any(x != "none" for _b, o, _l in starters[g] for x in origin(prog, prog.bodies[g], o)):
                    sites.append(i)
        if not sites:
            continue
        bad = False
        for s in sites:
            reach = set()
            for x in b.succ(s):
                reach |= b.reachable(x)
            if reach & set(sites):
                bad = True
        if b.kind == "closure" and not any(k in str(b.name) for k in ()) and b.id in starters:
            pb = prog.bodies.get(b.parent)
            for i, t in pb.calls() if pb else ():
                f = callee(t)
                if f and "tr" in f and f["tr"].endswith("Iterator") and any("p" in a and len(a["p"]) == 1 and pb.ltys[a["p"][0]].k == "closure" and pb.ltys[a["p"][0]].d == b.id for a in t["args"]):
                    bad = True
        if bad:
            rep.bad(R, "restart|%s" % b.name, loc(b), "%s starts the time limit of the query more than once" % b.name)
        else:
            rep.ok(R, b.name)

    # --- node searches
    R = rep.rule("node-search", "Each search that yields candidate nodes checks the limit before every step and yields the timeout error instead of the step when it is exceeded.") and "node-search"
    nexts = {}
    for im in prog.impls_by_trait.get("core::iter::traits::iterator::Iterator", ()):
        if im["crate"] == CRATE and im["selfty"].k == "adt":
            for it in im["items"]:
                if it["id"].endswith("::next"):
                    nexts[im["selfty"].d] = it["id"]
    execs = set()
    for tr, ims in prog.impls_by_trait.items():
        if tr.endswith("::ExecutionNode"):
            execs |= {im["selfty"].d for im in ims if im["selfty"].k == "adt"}
    n = 0
    for aid, nid in sorted(nexts.items()):
        if nid not in prog.bodies:
            continue
        b = prog.bodies[nid]
        if not any(lim.is_limit(t) for _n, t, _p in adt_fields(prog, aid)):
            continue
        n += 1
        hot = reach_back(prog, lim.check) | {x for x in prog.closure_of([nid]) if prog.bodies[x].crate == CRATE and prog.bodies[x].selfty is not None and prog.bodies[x].selfty.peel().k == "adt" and prog.bodies[x].selfty.peel().d == aid}
        viol = []
        cl = Pulls(prog, hot, lim, viol, True)
        res = Interp(prog, cl).run(nid, (("x", "self"),), frozenset())
        for a, v, _m in res:
            if "expired" in a and not (variant(v) == "Some" and variant(fget(v, "0")) == "Err"):
                viol.append(("timeout-lost", b.name, loc(b), "%s does not yield the timeout error" % b.name))
            if not a & {"expired", "checked"}:
                viol.append(("unchecked", b.name, loc(b), "%s has a path that never checks the time limit" % b.name))
        for k, key, where, msg in viol:
            rep.bad(R, "%s|%s" % (k, key), where, msg)
        if not viol:
            rep.ok(R, b.name)
    rep.floor(R, "searches that hold the limit", n, 1)

    R = rep.rule("limited-leaf", "Only searches that hold the limit, steps that are built on other steps, and the empty result are used as steps of an execution plan.") and "limited-leaf"
    n = 0
    for b in lim.bodies:
        for bb in b.bbs:
            for s in bb["s"]:
                if s["k"] == "=" and s["r"]["k"] == "cast" and "Unsize" in str(s["r"].get("c")) and "p" in s["r"]["o"][0] and len(s["p"]) == 1 and node_source(b.ltys[s["p"][0]]):
                    st = b.ltys[s["r"]["o"][0]["p"][0]].peel()
                    n += 1
                    if st.k != "adt":
                        continue
                    f = adt_fields(prog, st.d)
                    built = built_on_steps(prog, lim, st.d)
                    if any(lim.is_limit(t) for _n, t, _p in f) or any(node_source(t) for _n, t, _p in f) or built or not f:
                        rep.ok(R, "%s in %s" % (st.d.rsplit("::", 1)[-1], b.name))
                    else:
                        rep.bad(R, "%s|%s" % (st.d, b.name), loc(b, s.get("l")), "%s uses %s, which does not know the time limit, as a step of the plan" % (b.name, st.d))
    rep.floor(R, "steps that are added to a plan", n, 10)

    # --- regular checks while consuming results
    R = rep.rule("regular", "Below every operation with a limit, each loop over the results of a query checks the limit in every round or in every n-th round (n constant), counting every round.") and "regular"
    roots = [b.id for b in lim.bodies if not lim.own(b) and any(lim.is_limit(t) for t in b.ltys) and (any(lim.is_limit(p) for p in lparams(b)) or any("given" in origin(prog, b, o) for _bb, o, _l in starters.get(b.id, ())))]
    scope = {x for x in prog.closure_of(roots) if prog.bodies[x].crate == CRATE and prog.bodies[x].kind != "promoted"}
    # iteration of the plan itself and of its steps is what yields the results
    yields = set(nexts[a] for a in execs if a in nexts) | {v for k, v in nexts.items() if k.endswith("::ExecutionPlan")}
    checks = {x for x in reach_back(prog, lim.check) if prog.bodies[x].crate == CRATE and any(lim.has_limit(t) for t in lim.params(prog.bodies[x]))} | lim.check
    n = 0
    for bid in sorted(scope - yields):
        b = prog.bodies[bid]
        for i, t in b.calls():
            f = callee(t)
            if f is None or not t["args"]:
                continue
            last = plain(f["n"]).rsplit("::", 1)[-1]
            st = b.tys[f["self"]] if "self" in f else (b.ltys[t["args"][0]["p"][0]] if "p" in t["args"][0] else None)
            if st is None or not source(st):
                continue
            if "tr" in f and not f["tr"].endswith("Iterator") and not f["tr"].endswith("Extend"):
                continue
            if last == "next":
                loop = inner_loop(b, i)
                if loop is None or not in_cycle(b, loop, i):
                    continue
                n += 1
                why = loop_checked(prog, lim, b, loop, i, checks)
                if why:
                    rep.bad(R, "loop|%s" % b.name, loc(b, t.get("l")), "a loop over the results in %s %s" % (b.name, why))
                else:
                    rep.ok(R, "%s: loop" % b.name)
            elif last in ("for_each", "try_for_each", "fold", "try_fold", "count", "collect", "last", "nth", "all", "any", "find", "position", "max", "min", "sum", "reduce", "partition", "try_for_each_", "for_each_concurrent", "collect_vec", "try_collect", "process_results", "advance_by") and not source(b.ltys[t["d"][0]]):
                n += 1
                cl = [x for a in t["args"] for x in arg_closures(prog, b, a)]
                if any(prog.closure_of([c]) & checks for c in cl):
                    rep.ok(R, "%s: %s" % (b.name, last))
                else:
                    rep.bad(R, "consume|%s|%s" % (last, b.name), loc(b, t.get("l")), "%s consumes all results with %s without checking the time limit" % (b.name, last))
    rep.floor(R, "loops over results below an operation with a limit", n, 6)

    R = rep.rule("reported", "When a check fails or the search yields an error because the time is up, the operation ends with an error: results found so far are not returned as a complete answer.") and "reported"
    stop = set(nexts.values())
    seen, st = set(), list(lim.check)
    while st:
        x = st.pop()
        if x in seen or x in stop:
            continue
        seen.add(x)
        st.extend(callers.get(x, ()))
    pulls = {bid for bid in scope - yields for _i, t in prog.bodies[bid].calls() if callee(t) and "self" in callee(t) and plain(callee(t)["n"]).endswith("::next") and source(prog.bodies[bid].tys[callee(t)["self"]])}
    hot = (seen | reach_back(prog, pulls)) & scope
    n = 0
    work = sorted(x for x in hot if prog.bodies[x].kind != "closure")
    done = set()
    while work:
        bid = work.pop(0)
        if bid in done:
            continue
        done.add(bid)
        b = prog.bodies[bid]
        cl = Reported(prog, hot, lim, prog.root_fn(bid).id)
        res = Interp(prog, cl).run(bid, tuple(None for _ in range(b.argc)), frozenset())
        work += sorted(cl.more)
        if not cl.sites:
            continue
        n += 1
        if any("expired" in a and variant(v) != "Err" and not (variant(v) == "Some" and variant(fget(v, "0")) == "Err") for a, v, _m in res):
            rep.bad(R, "partial-answer|%s" % b.name, loc(b), "%s can return results as a complete answer although the time was up" % b.name)
        else:
            rep.ok(R, "%s: %d places" % (b.name, len(cl.sites)))
    rep.floor(R, "operations below a limit", n, 5)

    # --- failing operands
    R = rep.rule("failing-operand", "When an operand of a join or filter fails (its time is up), the step reports the error and asks no operand for more matches in this round.") and "failing-operand"
    n = 0
    for aid in sorted(execs | {a for a in nexts if a.endswith("::ExecutionPlan")}):
        nid = nexts.get(aid)
        if nid not in prog.bodies:
            continue
        b = prog.bodies[nid]
        if any(lim.is_limit(t) for _n, t, _p in adt_fields(prog, aid)):
            continue
        hot = {x for x in prog.closure_of([nid]) if prog.bodies[x].crate == CRATE and prog.root_fn(x).selfty is not None and prog.root_fn(x).selfty.peel().k == "adt" and prog.root_fn(x).selfty.peel().d == aid}
        viol = []
        cl = Pulls(prog, hot, lim, viol, False)
        res = Interp(prog, cl).run(nid, (("x", "self"),), frozenset())
        if not cl.npull:
            continue
        n += 1
        for a, v, _m in res:
            if "err" in a and not (variant(v) == "Some" and variant(fget(v, "0")) in ("Err", None)):
                viol.append(("error-lost", b.name, loc(b), "%s does not yield the error of its operand" % b.name))
            if "sent" in a and variant(v) == "None":
                viol.append(("error-lost", b.name, loc(b), "%s ends although the error of its operand was not yet yielded" % b.name))
        for k, key, where, msg in viol:
            rep.bad(R, "%s|%s" % (k, key), where, msg)
        if not viol:
            rep.ok(R, "%s: %d calls of operands" % (b.name, len(cl.npull)))
    rep.floor(R, "steps that ask operands for matches", n, 5)

    # --- request limit of the web service
    R = rep.rule("configured", "The web service runs every query with the configured limit.") and "configured"
    n = 0
    for b in prog.bodies.values():
        if b.crate != "graphannis_webservice" or b.kind == "promoted":
            continue
        for bb in b.bbs:
            for s in bb["s"]:
                if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("g") == "adt" and str(s["r"].get("d")).endswith("::SearchQuery"):
                    n += 1
                    names = [x for x, _t, _p in adt_fields(prog, s["r"]["d"])]
                    o = s["r"]["o"][[i for i, (x, t, _p) in enumerate(adt_fields(prog, s["r"]["d"])) if opt_duration(t)][0]] if names else None
                    if o is not None and configured(prog, b, o):
                        rep.ok(R, b.name)
                    else:
                        rep.bad(R, "no-limit|%s" % b.name, loc(b, s.get("l")), "%s runs a query without the configured time limit" % b.name)
    if "graphannis_webservice" in prog.crates:
        rep.floor(R, "queries of the web service", n, 3)


def configured(prog, b, o, depth=0):
    if depth > 12 or "p" not in o:
        return False
    if any(isinstance(e, list) and e[0] == "." and "timeout" in str(e[1]) for e in o["p"][1:]):
        return True
    r = []
    for d in b.defs.get(o["p"][0], ()):
        if d[0] == "=":
            rv = d[3]["r"]
            if rv["k"] in ("use", "cast"):
                r.append(configured(prog, b, rv["o"][0], depth + 1))
            elif rv["k"] == "ref":
                r.append(configured(prog, b, {"p": rv["p"]}, depth + 1))
            else:
                r.append(rv["k"] == "agg" and rv.get("v") == "Some" and any(configured(prog, b, x, depth + 1) for x in rv["o"]))
        elif d[0] == "call":
            f = callee(d[3])
            g = prog.bodies.get(f and f.get("res"))
            if g is not None and g.crate == b.crate:
                r.append(configured(prog, g, {"p": [0]}, depth + 1) or any(configured(prog, b, a, depth + 1) for a in d[3]["args"]))
            else:
                r.append(bool(d[3]["args"]) and plain(f["n"]).rsplit("::", 1)[-1] in ("map", "clone", "copied", "cloned", "from_secs", "into", "as_ref", "deref", "new", "then", "and_then", "get_ref", "as_deref", "inner", "into_inner", "from_secs_f64", "from_millis") and configured(prog, b, d[3]["args"][0], depth + 1))
    if not r and b.kind in ("closure", "coroutine") and o["p"][0] == 1:
        return False
    return bool(r) and all(r) if len(r) > 1 else any(r)


def arg_closures(prog, b, a):
    if "fn" in a:
        return prog.operand_fns(b, a)
    if "p" in a and len(a["p"]) == 1:
        t = b.ltys[a["p"][0]].peel()
        if t.k in ("closure", "fndef") and t.d in prog.bodies:
            return [t.d]
    return []


def built_on_steps(prog, lim, aid):
    """values of this type are only built in functions that get another step"""
    found = False
    for b in lim.bodies:
        for bb in b.bbs:
            for s in bb["s"]:
                if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("d") == aid:
                    found = True
                    if not any(node_source(t) for t in lim.params(prog.root_fn(b.id))):
                        return False
    return found


def loop_checked(prog, lim, b, loop, pull, checks):
    """None if the limit is checked regularly in the loop, otherwise what is wrong"""
    sites = [i for i in loop if b.bbs[i]["t"]["k"] == "call" and any(g in checks for g in prog.targets(b, callee(b.bbs[i]["t"])))]
    if not sites:
        return "never checks the time limit"
    why = "does not check the time limit regularly"
    for c in sites:
        if not in_cycle(b, loop, pull, {c}):
            return None
        # the nearest condition on which the check depends
        s = c
        for _ in range(30):
            ps = [p for p in b.preds[s] if p in loop]
            if len(ps) != 1:
                s = None
                break
            s = ps[0]
            if b.bbs[s]["t"]["k"] == "switch" and len([x for x in b.succ(s)]) > 1:
                break
        if s is None or b.bbs[s]["t"]["k"] != "switch":
            continue
        t = b.bbs[s]["t"]
        if in_cycle(b, loop, pull, {s}):
            why = "skips the check of the time limit in some rounds"
            continue
        counter, w = modulus(prog, b, t["o"])
        if counter is False:
            why = "checks the time limit under %s" % w
            continue
        if counter is None:
            return None
        o, d = chase(b, counter)
        if "p" not in o:
            why = "counts with a constant"
            continue
        l = o["p"][0]
        if len(o["p"]) > 1:
            # part of the item (enumerate) or of a state
            return None
        inc = increments(b, loop, l)
        if not inc and d is not None and d[0] == "call":
            return None
        if not inc:
            ds = b.defs.get(l, ())
            if any(x[0] == "=" and x[1] in loop and x[3]["r"]["k"] == "use" and "p" in x[3]["r"]["o"][0] and len(x[3]["r"]["o"][0]["p"]) > 1 for x in ds):
                return None
            why = "never increases the number of rounds after which it checks the time limit"
            continue
        if in_cycle(b, loop, pull, inc):
            why = "does not count every round"
            continue
        return None
    return why


def of_self(b, o):
    o, d = chase(b, o)
    for _ in range(6):
        if "p" not in o:
            return False
        if o["p"][0] == 1:
            return True
        if d is None or d[0] != "=":
            return False
        r = d[3]["r"]
        if r["k"] == "ref":
            o, d = chase(b, {"p": r["p"]})
            if r["p"][0] == 1:
                return True
        elif r["k"] in ("use", "cast") and "p" in r["o"][0]:
            if r["o"][0]["p"][0] == 1:
                return True
            o, d = chase(b, {"p": r["o"][0]["p"][:1]})
        else:
            return False
    return False


def check_semantics(prog, b, cmp, el):
    """the comparison of elapsed time and limit: which outcome leads to the error"""
    t, op = cmp
    dest = t["d"][0]
    ela = {x["d"][0] for x in el if len(x["d"]) == 1}

    def is_elapsed(o):
        o, _d = chase(b, o)
        return "p" in o and o["p"][0] in ela

    a0, a1 = is_elapsed(t["args"][0]), is_elapsed(t["args"][1])
    if a0 == a1:
        return None
    exceeded_true = (op in ("gt", "ge")) == a0
    # the switch on the result
    for i, bb in enumerate(b.bbs):
        tt = bb["t"]
        if tt["k"] == "switch" and "p" in tt["o"] and tt["o"]["p"][0] == dest:
            errs = {j for j, x in enumerate(b.bbs) for s in x["s"] if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("v") in ("Timeout", "Err")}
            zero = tt["to"][tt["v"].index("0")] if "0" in tt["v"] else None
            one = [x for x in tt["to"] if x != zero]
            if zero is None or len(one) != 1:
                return None
            ez, eo = bool(b.reachable(zero) & errs), bool(b.reachable(one[0]) & errs)
            if exceeded_true and (ez or not eo) or (not exceeded_true and (eo or not ez)):
                return "%s reports the timeout when the limit is not exceeded, or does not report it when it is" % b.name
    return None
