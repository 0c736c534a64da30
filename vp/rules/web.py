"""C14, C15, C16, C18: who may read, who may change, where the identity comes from, group changes in one transaction.

The request handlers (everything handed to actix' Route::to) are interpreted with the authorization facts
established so far as automaton state: 'admin', 'anon', ('auth', S) for a set of corpora S that was checked.
"""
import functools
from ..facts import callee, short, plain
from ..interp import Client, Interp, A, OK, ERR, SOME, NONE, UNIT, TRUE, FALSE, fget, variant
from ..report import loc

CRATE = "graphannis_webservice"
CS = "CorpusStorage::"

# CorpusStorage methods that read the content of the corpora named by an argument
READS = {
    "find": 1, "count": 1, "count_extra": 1, "frequency": 1, "subgraph": 1, "subgraph_for_query": 1, "subcorpus_graph": 1,
    "corpus_graph": 1, "list_node_annotations": 1, "list_edge_annotations": 1, "list_components": 1, "info": 1, "plan": 1,
    "validate_query": 1,
}
# methods that touch no corpus
HARMLESS = {"node_descriptions", "with_auto_cache_size", "with_cache_strategy"}

ITER_IDENT = {"iter", "iter_mut", "into_iter", "cloned", "copied", "by_ref", "collect", "to_vec", "as_slice", "into_boxed_slice",
              "into_vec", "box_assume_init_into_vec_unsafe", "as_mut_slice", "rev", "sort", "deref", "into_inner"}
FS = ("std::fs::", "actix_files::named::NamedFile::open", "walkdir::WalkDir::new", "std::path::Path::read_dir", "tokio::fs::")


def is_in(v):
    return v is not None and v[0] == "x" and v[1] in ("in", "all", "granted")


class Web(Client):
    def __init__(self, prog, rep, what):
        self.prog = prog
        self.rep = rep
        self.what = what
        self.handler = None
        self.seen = {}
        self.bodies = {b.id for b in prog.bodies.values() if b.crate == CRATE}
        self.allowed_fns = set()
        for b in prog.bodies.values():
            if b.crate == CRATE and b.kind in ("fn", "method"):
                tys = [b.ltys[i + 1].peel_refs() for i in range(b.argc)]
                if any(t.is_adt("Claims") for t in tys) and b.ltys[0].has_adt("BTreeSet", "HashSet"):
                    self.allowed_fns.add(b.id)

    def interesting(self, bid):
        return bid in self.bodies

    def field(self, ip, body, base, name, owner):
        if name == "anonymous_access_all_corpora":
            return ("x", "anon")
        if base is None:
            if owner.endswith("ClaimsFromAuth"):
                return ("x", "claims")
            if owner.endswith("::Claims"):
                return ("x", name) if name in ("roles", "groups") else None
            return None
        if base[0] != "x":
            return None
        if base[1] == "claims":
            if name in ("roles", "groups"):
                return ("x", name)
            return base if name == "0" else None
        if base[1] == "in":
            if name in ("0",) and owner.startswith("actix_web"):
                return base
            if name.startswith("@"):
                return base
            return ("x", "in", base[2] + (name,))
        if base[1] == "elt":
            if base[2][1] == "all" and name == "name":
                return base
            return ("x", "sub", base, name)
        return None

    def branch(self, ip, body, bb, ast, sym, taken):
        if sym == ("x", "anon") and taken == 1:
            return ast | {"anon"}
        return ast

    # --- obligations
    def site(self, body, t, what, good, rule, msg):
        key = "%s: %s in %s" % (self.handler, what, self.prog.root_fn(body.id).name)
        cur = self.seen.get((rule, key))
        if cur is False:
            return
        self.seen[(rule, key)] = bool(good)
        if not good:
            self.rep_bad = True
            self.seen[(rule, key, "why")] = (loc(body, t.get("l")), msg)

    def flush(self):
        for k, v in list(self.seen.items()):
            if len(k) == 2:
                rule, key = k
                if v:
                    self.rep.ok(rule, key)
                else:
                    w = self.seen[(rule, key, "why")]
                    self.rep.bad(rule, key, w[0], w[1])
        self.seen = {}

    def corpus_ok(self, ast, v):
        """(ok, reason)"""
        if "admin" in ast or "anon" in ast:
            return True, ""
        if v is None:
            return False, "the accessed corpus cannot be traced back to a checked request value"
        if v[0] == "x" and v[1] == "path":
            for s in v[2]:
                if ("auth", s) in ast:
                    return True, ""
            return False, "a file path is accessed that contains no corpus name that was checked before"
        if v[0] == "x" and v[1] == "elt":
            v = v[2]
        if ("auth", v) in ast:
            return True, ""
        return False, "the accessed corpora (%s) were not checked before on this path; checked: %s" % (
            v[2:] if v[0] == "x" else v, sorted(str(a[1][2:]) for a in ast if isinstance(a, tuple) and a[0] == "auth") or "none")

    def assign(self, ip, body, bb, stmt, ast, env):
        if self.what == "C15":
            r = stmt["r"]
            ps = [r["p"]] if "p" in r else []
            ps += [o["p"] for o in r.get("o", []) if "p" in o]
            for p in ps:
                for e in p[1:]:
                    if isinstance(e, list) and e[0] == "." and e[1] == "jobs" and e[2].endswith("BackgroundJobs"):
                        self.site(body, {"l": body.line}, "access to the background jobs", "admin" in ast, "admin-before-change",
                                  "job data is accessed on a path on which the administrator role was not established")
        return ast

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return None
        n = plain(f["n"])
        sh = short(f["n"])
        m = sh.rsplit("::", 1)[1] if "::" in sh else sh
        a0 = args[0] if args else None
        if f.get("res") in self.allowed_fns or f.get("id") in self.allowed_fns:
            if ("x", "claims") not in args:
                return [(ast, OK(("x", "allowed-for-others"))), (ast, ERR())]
            return [(ast, OK(("x", "allowed"))), (ast, ERR())]
        # --- futures of blocking tasks
        if n == "actix_web::web::block":
            return [(a, ("a", "blockfut", (("0", OK(r)),) if r is not None else ())) for a, r in ip.run_closure(a0, [], ast)]
        if n == "core::future::future::Future::poll" and variant(a0) == "blockfut":
            inner = fget(a0, "0")
            if inner is None:
                return [(ast, A("Ready"))]
            return [(ast, A("Ready", inner)), (ast, A("Ready", ERR()))]
        # --- corpus storage
        if CS in n and n.rsplit(CS, 1)[0].startswith("graphannis::"):
            return self.storage(ip, body, t, n.rsplit(CS, 1)[1], ast, args)
        # --- user database
        if n.startswith("diesel::query_dsl::") and m in ("execute", "load", "get_result", "get_results", "first", "load_iter"):
            if self.what == "C15":
                self.site(body, t, "%s on the user database" % m, "admin" in ast, "admin-before-change",
                          "the group database is accessed on a path on which the administrator role was not established")
            return None
        # --- files
        if n.startswith(FS) and self.what == "C14" and a0 is not None and a0[0] == "x":
            if a0[1] in ("path", "in"):
                ok, why = self.corpus_ok(ast, a0 if a0[1] == "path" else ("x", "path", frozenset([a0])))
                self.site(body, t, sh, ok, "checked-before-access", why)
            return None
        if m == "elem" or n.endswith("Path::join") or n.endswith("PathBuf::push"):
            syms = set()
            for a in args:
                if a is not None and a[0] == "x":
                    if a[1] == "path":
                        syms |= a[2]
                    elif a[1] == "in":
                        syms.add(a)
            if n.endswith("Path::join"):
                return [(ast, ("x", "path", frozenset(syms)) if syms else None)]
            return [(ast, UNIT, {0: ("x", "path", frozenset(syms)) if syms else None})]
        if m in ("canonicalize",) and a0 is not None and a0[0] == "x":
            return [(ast, OK(a0)), (ast, ERR())]
        if m in ("utf8_percent_encode", "percent_encode", "percent_decode_str", "decode_utf8_lossy", "decode_utf8", "trim"):
            return [(ast, a0)]
        if m == "to_string" and a0 is not None:
            return [(ast, a0)]
        # --- sinks of the corpus list
        if self.what == "C14" and m in ("json", "body", "streaming") and "HttpResponseBuilder" in n:
            if "listed" in ast:
                v = args[1] if len(args) > 1 else None
                good = "admin" in ast or "anon" in ast or v == ("x", "granted")
                self.site(body, t, "answer with the list of corpora", good, "list-filtered",
                          "the list of all corpora is answered without being restricted to the corpora granted to the groups of the user")
            return None
        # --- roles
        if m in ("eq", "ne") and len(args) == 2:
            for x, y in ((args[0], args[1]), (args[1], args[0])):
                if x == ("x", "elt", ("x", "roles")):
                    if y == ("c", "admin"):
                        eq = m == "eq"
                        return [(ast | {"admin"}, TRUE if eq else FALSE), (ast, FALSE if eq else TRUE)]
                    return [(ast, None)]
            return None
        if a0 is None or a0[0] != "x":
            if m == "push" and variant(a0) in ("vec",) and len(args) > 1:
                return self.push(ast, a0, args[1])
            if m in ("into_vec", "box_assume_init_into_vec_unsafe", "box_new") and a0 is not None:
                v = a0
                while variant(v) == "[]" or (v is not None and v[0] == "a" and v[1] is None and len(v[2]) == 1):
                    els = [x for n, x in v[2] if n not in ("#", "pos")]
                    if len(els) != 1:
                        return [(ast, None)]
                    v = els[0]
                return [(ast, v)]
            if sh in ("Vec::new", "Vec::with_capacity") or (m == "default" and "Default" in n):
                return [(ast, ("a", "vec", ()))]
            if m in ("from_ref",):
                return [(ast, a0)]
            return None
        # --- sets and sequences
        if a0 == ("x", "allowed"):
            if m == "contains" and len(args) > 1:
                e = args[1]
                if e is not None and e[0] == "x" and e[1] == "elt":
                    s = e[2]
                    return [((ast - {("pend", s)}) | {("member", s)}, TRUE), (ast - {("member", s)}, FALSE)]
                if is_in(e):
                    return [(ast | {("auth", e)}, TRUE), (ast, FALSE)]
                return [(ast, None)]
            if m == "is_superset" and len(args) > 1 and is_in(args[1]):
                return [(ast | {("auth", args[1])}, TRUE), (ast, FALSE)]
            if m in ("iter", "into_iter"):
                return [(ast, a0)]
            return [(ast, a0)] if m in ITER_IDENT else None
        if m in ITER_IDENT:
            return [(ast, a0)]
        if m == "is_subset" and is_in(a0) and args[1] == ("x", "allowed"):
            return [(ast | {("auth", a0)}, TRUE), (ast, FALSE)]
        if a0[1] in ("in", "all", "roles"):
            s = a0
            elt = ("x", "elt", s)
            if m == "next":
                some = ast
                if ("pend", s) in ast:
                    some = some | {("bad", s)}
                some = (some - {("member", s)}) | {("pend", s)}
                none = ast
                if ("pend", s) in ast:
                    none = none | {("bad", s)}
                none = none - {("member", s), ("pend", s)}
                if ("bad", s) not in none and s[1] == "in":
                    none = none | {("auth", s)}
                return [(some, SOME(elt)), (none, NONE)]
            if m == "contains" and s[1] == "roles":
                if args[1] == ("c", "admin"):
                    return [(ast | {"admin"}, TRUE), (ast, FALSE)]
                return [(ast, None)]
            if m in ("any", "all", "filter", "retain", "map", "find", "position") and len(args) > 1:
                base = ast - {("member", s)}
                outs = ip.run_closure(args[1], [elt], base)
                if m == "map":
                    vs = {r for _a, r in outs}
                    return [(ast, s)] if vs == {elt} else [(ast, None)]
                tr = [a for a, r in outs if r != FALSE]
                fa = [a for a, r in outs if r != TRUE]
                alltrue_member = bool(tr) and all(("member", s) in a for a in tr)
                allfalse_member = bool(fa) and all(("member", s) in a for a in fa)
                truenot = bool(tr) and not any(("member", s) in a for a in tr) and bool(fa) and all(("member", s) in a for a in fa)
                adm = bool(tr) and all("admin" in a for a in tr)
                if m == "any" or m == "find" or m == "position":
                    yes, no = ast, ast
                    if adm:
                        yes = yes | {"admin"}
                    if allfalse_member and s[1] == "in":
                        no = no | {("auth", s)}
                    if m == "any":
                        return [(yes, TRUE), (no, FALSE)]
                    return [(yes, SOME(elt if m == "find" else None)), (no, NONE)]
                if m == "all":
                    yes = ast
                    if alltrue_member and s[1] == "in":
                        yes = yes | {("auth", s)}
                    return [(yes, TRUE), (ast, FALSE)]
                if m in ("filter", "retain"):
                    if s[1] == "all" and alltrue_member:
                        v = ("x", "granted")
                    elif truenot and s[1] == "in":
                        v = ("x", "rest", s)
                    else:
                        v = s if s[1] == "all" else ("x", "part", s)
                    return [(ast, v)] if m == "filter" else [(ast, UNIT, {0: v})]
            if m in ("sort", "sort_unstable", "dedup", "sort_unstable_by", "sort_by"):
                return [(ast, UNIT, "keep")]
        if a0[1] == "rest":
            if m == "is_empty":
                return [(ast | {("auth", a0[2])}, TRUE), (ast, FALSE)]
            if m == "next":
                return [(ast, SOME(("x", "elt", a0))), (ast | {("auth", a0[2])}, NONE)]
            return None
        if a0[1] == "granted":
            if m in ("map", "filter"):
                return [(ast, a0)]
            if m == "push" and len(args) > 1:
                return self.push(ast, a0, args[1])
            if m.startswith("sort"):
                return [(ast, UNIT, "keep")]
        return None

    def push(self, ast, vec, x):
        if x is not None and x[0] == "x" and x[1] == "elt":
            s = x[2]
            if s[1] == "all":
                v = ("x", "granted") if ("member", s) in ast else s
                return [(ast, UNIT, {0: v})]
            return [(ast, UNIT, {0: s})]
        if is_in(x):
            return [(ast, UNIT, {0: x})]
        return [(ast, UNIT, {0: None})]

    def storage(self, ip, body, t, m, ast, args):
        if m in HARMLESS:
            return None
        if m == "list":
            return [(ast | {"listed"}, OK(("x", "all"))), (ast, ERR())]
        if m in READS:
            if self.what == "C14":
                v = args[READS[m]] if len(args) > READS[m] else None
                if v is not None and v[0] == "a":
                    v = fget(v, "corpus_names")
                ok, why = self.corpus_ok(ast, v)
                self.site(body, t, "CorpusStorage::" + m, ok, "checked-before-access", why)
            return None
        if self.what == "C15":
            self.site(body, t, "CorpusStorage::" + m, "admin" in ast, "admin-before-change",
                      "CorpusStorage::%s is called on a path on which the administrator role was not established" % m)
        return None


def handlers(prog):
    out = {}
    for b in prog.bodies.values():
        if b.crate != CRATE:
            continue
        for _i, t in b.calls():
            f = callee(t)
            if f and short(f["n"]) == "Route::to":
                for a in t["args"]:
                    if "fn" in a:
                        fid = a["fn"].get("res") or a["fn"]["id"]
                        if fid in prog.bodies:
                            out[fid] = prog.bodies[fid]
                    elif "p" in a:
                        ty = b.ltys[a["p"][0]].peel_refs()
                        if ty.k in ("fndef", "closure") and ty.d in prog.bodies:
                            out[ty.d] = prog.bodies[ty.d]
    return out


def run_handlers(pid, prog, rep):
    cl = Web(prog, rep, pid)
    hs = handlers(prog)
    rule = "checked-before-access" if pid == "C14" else "admin-before-change"
    rep.floor(rule, "request handlers registered with a route", len(hs), 22)
    for hid in sorted(hs):
        b = hs[hid]
        ip = Interp(prog, cl)
        cl.handler = b.name.split("::", 1)[1]
        args = []
        for i in range(b.argc):
            ty = b.ltys[i + 1]
            p = ty.peel_refs()
            if p.is_adt("ClaimsFromAuth", "Claims"):
                args.append(("x", "claims"))
            elif p.k == "adt" and p.d.startswith("actix_web::") and p.d.endswith(("::Path", "::Json", "::Query", "::Form")):
                args.append(("x", "in", (b.lnames[i + 1] or "arg%d" % i,)))
            else:
                args.append(None)
        outs = ip.run(hid, tuple(args), frozenset())
        # the handler returns its future: run the coroutine to completion
        for _a, v, _m in outs or ():
            if variant(v) and variant(v).startswith("fn:"):
                cid = variant(v)[3:]
                ip.run(cid, (v, None), frozenset())
        rep.fns(ip.stats["functions"])
        cl.flush()
    return cl, hs


def check_C14(prog, rep):
    rep.rule("checked-before-access", "on every path of every request handler, each access to the content of a corpus (CorpusStorage read methods, files below the corpus directory) is preceded by a successful check of exactly the accessed corpora, or of the administrator role, or of the anonymous access setting")
    rep.rule("list-filtered", "the list of corpora is restricted to granted corpora unless administrator or anonymous access was established")
    rep.rule("granted-corpora-query", "the set of granted corpora is read from the group table filtered by the groups of the claims and the anonymous group")
    cl, hs = run_handlers("C14", prog, rep)
    n = len(rep.rules["checked-before-access"]["sites"])
    rep.floor("checked-before-access", "corpus accesses in handlers", n - 1, 11)
    rep.floor("list-filtered", "corpus list answers", len(rep.rules["list-filtered"]["sites"]), 1)
    rep.floor("granted-corpora-query", "functions computing the granted corpora", len(cl.allowed_fns), 1)
    for fid in sorted(cl.allowed_fns):
        granted(prog, rep, fid)


def all_consts(prog, ids):
    for bid in ids:
        b = prog.bodies[bid]
        for bb in b.bbs:
            for s in bb["s"]:
                if s["k"] == "=":
                    for o in s["r"].get("o", []):
                        yield b, o
            t = bb["t"]
            if t["k"] == "call":
                for o in t["args"]:
                    yield b, o


def granted(prog, rep, fid):
    b = prog.bodies[fid]
    ids = {x for x in prog.closure_of([fid]) if prog.bodies[x].crate == CRATE}
    rep.fns(ids)
    R = "granted-corpora-query"
    consts = {o["s"] for _b, o in all_consts(prog, ids) if "s" in o}
    extra = consts - {"anonymous"}
    if extra:
        rep.bad(R, "constant group " + ",".join(sorted(extra)), loc(b), "groups other than those of the claims and 'anonymous' are granted: %s" % sorted(extra))
    else:
        rep.ok(R, "only constant group: anonymous")
    eq, filt, loads = [], [], []
    fields = set()
    for x in ids:
        xb = prog.bodies[x]
        for _i, t in xb.calls():
            f = callee(t)
            if not f:
                continue
            sh = short(f["n"])
            if sh.endswith("::eq_any") or sh.endswith("::eq"):
                if "diesel" in f["n"]:
                    eq.append((sh, xb.tys[f["self"]].s if "self" in f else ""))
            if sh.endswith("::filter") and f["n"].startswith("diesel"):
                filt.append(t)
            if f["n"].startswith("diesel") and sh.rsplit("::", 1)[1] in ("load", "get_results", "load_iter"):
                loads.append(xb.tys[f["self"]].s if "self" in f else "")
        for bb in xb.bbs:
            for s in bb["s"]:
                if s["k"] != "=":
                    continue
                ps = [s["r"]["p"]] if "p" in s["r"] else []
                ps += [o["p"] for o in s["r"].get("o", []) if "p" in o]
                for p in ps:
                    for e in p[1:]:
                        if isinstance(e, list) and e[0] == "." and e[2].endswith("::Claims"):
                            fields.add(e[1])
    if fields == {"groups"}:
        rep.ok(R, "only the groups of the claims are used")
    else:
        rep.bad(R, "claims fields " + ",".join(sorted(fields)), loc(b), "the granted corpora are computed from the claim fields %s instead of the groups" % sorted(fields))
    for l in loads:
        if "group" in l and "eq" in l.lower() or "Filter" in l or "WhereClause" in l:
            rep.ok(R, "load from a filtered query")
        else:
            rep.bad(R, "unfiltered load", loc(b), "rows are loaded from a query without a group filter: " + l[:160])
    rep.floor(R, "loads of granted corpora", len(loads), 1)
    good = [e for e in eq if "corpus_groups::columns::group" in e[1] or "columns::group" in e[1]]
    if good:
        rep.ok(R, "the filter compares the group column")
    else:
        rep.bad(R, "no filter on the group column", loc(b), "the query for the granted corpora does not restrict the group column: %s" % eq)


def check_C15(prog, rep):
    rep.rule("admin-before-change", "on every path of every request handler, each administrative operation (CorpusStorage methods other than the reading ones, background jobs, the group database outside of the computation of the granted corpora) is preceded by a successful test that one of the roles of the verified claims equals 'admin'")
    cl, hs = run_handlers("C15", prog, rep)
    rep.floor("admin-before-change", "administrative operations in handlers", len(rep.rules["admin-before-change"]["sites"]) - 1, 10)


# ---------------------------------------------------------------- C16
class Auth(Client):
    def __init__(self, prog, rep):
        self.prog = prog
        self.rep = rep
        self.bodies = {b.id for b in prog.bodies.values() if b.crate == CRATE}
        self.decodes = 0
        self.found = {}

    def interesting(self, bid):
        return bid in self.bodies

    def note(self, rule, key, good, where, msg):
        cur = self.found.get((rule, key))
        if cur is None or (cur[0] and not good):
            self.found[(rule, key)] = (good, where, msg)

    def field(self, ip, body, base, name, owner):
        if base is not None and base[0] == "x":
            if base[1] == "token" and name == "claims":
                return ("x", "verified")
            if base[1] == "verified":
                return base
        return None

    def assign(self, ip, body, bb, stmt, ast, env):
        # weakening a Validation by writing its fields
        p = stmt["p"]
        for e in p[1:]:
            if isinstance(e, list) and e[0] == "." and e[2].endswith("jsonwebtoken::validation::Validation") and e[1] not in ("validate_nbf",):
                v = ip.rvalue(env, body, stmt["r"])
                if e[1] == "validate_exp" and v == TRUE:
                    continue
                self.note("validation-not-weakened", "write of Validation.%s in %s" % (e[1], self.prog.root_fn(body.id).name), False,
                          loc(body), "the token validation is changed: field %s" % e[1])
        return ast

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return None
        n = plain(f["n"])
        m = n.rsplit("::", 1)[1]
        if n.startswith("jsonwebtoken::"):
            if m == "new" and "Validation" in n:
                return [(ast, ("a", "validation", (("0", args[0] if args else None),) if args and args[0] is not None else ()))]
            if "Validation" in n and m == "default":
                return [(ast, ("a", "validation", (("0", ("x", "default-alg")),)))]
            if m.startswith("insecure") or "dangerous" in n or "decode_header" in m:
                self.note("validation-not-weakened", "call of %s in %s" % (m, self.prog.root_fn(body.id).name), m == "decode_header",
                          loc(body, t.get("l")), "the signature check of the token is bypassed by " + n)
                return [(ast, OK(None)), (ast, ERR())] if m == "decode_header" else [(ast, OK(None))]
            if m == "decode":
                self.decodes += 1
                key, val = args[1], args[2]
                good = variant(val) == "validation" and fget(val, "0") is not None and fget(val, "0")[:2] == ("x", "cfg-alg")
                self.note("decode-with-configured-key", "algorithm of decode in %s" % self.prog.root_fn(body.id).name, good, loc(body, t.get("l")),
                          "the token is not validated with the configured algorithm (validation value: %s)" % (val,))
                good = key is not None and key[:2] == ("x", "cfg-key")
                self.note("decode-with-configured-key", "key of decode in %s" % self.prog.root_fn(body.id).name, good, loc(body, t.get("l")),
                          "the token is not validated with the configured key (key value: %s)" % (key,))
                return [(ast | {"decoded"}, OK(("x", "token"))), (ast | {"rejected"}, ERR())]
            if "Algorithm" in n or "DecodingKey" in n:
                return None
        tb = self.prog.bodies.get(f.get("res") or f["id"])
        if tb is not None and tb.crate == CRATE and tb.argc >= 1 and tb.ltys[1].peel_refs().is_adt("TokenVerification", "JWTVerification"):
            rt = tb.ltys[0]
            if rt.has_adt("DecodingKey"):
                return [(ast, OK(("x", "cfg-key"))), (ast, ERR())] if rt.is_adt("Result") else [(ast, ("x", "cfg-key"))]
            if rt.has_adt("Algorithm"):
                return [(ast, ("x", "cfg-alg"))]
        if n.startswith("futures_util::future::ready::") or n.startswith("futures::future::") or "future::ready" in n:
            if m == "ok":
                return [(ast, OK(args[0]))]
            if m == "err":
                return [(ast, ERR(args[0]))]
            if m in ("ready",):
                return [(ast, args[0])]
        sh = short(f["n"])
        if sh in ("Vec::new",) or (m == "default" and "Default" in n and "self" in f and body.tys[f["self"]].is_adt("Vec")):
            return [(ast, ("a", "emptyvec", ()))]
        return None


def check_C16(prog, rep):
    rep.rule("decode-with-configured-key", "the token is decoded with the algorithm and key made from the settings")
    rep.rule("validation-not-weakened", "the signature, algorithm and expiry checks of the token library are not switched off")
    rep.rule("claims-provenance", "every path of the claims extractor yields the claims of a successfully decoded token, an error, or (only when no token was decoded) claims with empty groups and roles; nothing else creates claims")
    rep.rule("key-matches-algorithm", "each kind of token verification yields the algorithm and the key constructor of that kind")
    roots = [b for b in prog.bodies.values() if b.crate == CRATE and b.kind == "method" and b.method == "from_request"]
    rep.floor("claims-provenance", "claims extractors", len(roots), 1)
    for b in roots:
        cl = Auth(prog, rep)
        ip = Interp(prog, cl)
        outs = ip.run(b.id, (None,) * b.argc, frozenset()) or ()
        rep.fns(ip.stats["functions"])
        for (rule, key), (good, where, msg) in cl.found.items():
            if good:
                rep.ok(rule, key)
            else:
                rep.bad(rule, key, where, msg)
        rep.floor("claims-provenance", "token decode calls", cl.decodes, 1)
        rep.floor("claims-provenance", "outcomes of the extractor", len(outs), 3)
        for ast, v, _m in sorted(outs, key=str):
            vv = variant(v)
            if vv == "Ready":
                v = fget(v, "0")
                vv = variant(v)
            if vv == "Err":
                rep.ok("claims-provenance", "outcome: rejected")
                continue
            if vv != "Ok":
                rep.bad("claims-provenance", "unknown outcome", loc(b), "the extractor has an outcome that is neither an error nor traceable claims: %s" % (v,))
                continue
            c = fget(v, "0")
            if variant(c) == "ClaimsFromAuth" or (c is not None and c[0] == "a" and fget(c, "roles") is None and fget(c, "0") is not None):
                c = fget(c, "0")
            if c == ("x", "verified"):
                if "decoded" in ast:
                    rep.ok("claims-provenance", "outcome: claims of the verified token")
                else:
                    rep.bad("claims-provenance", "claims without decode", loc(b), "claims are taken over without decoding a token")
                continue
            if c is not None and c[0] == "a":
                r, g = fget(c, "roles"), fget(c, "groups")
                empty = all(variant(x) == "emptyvec" for x in (r, g))
                if "rejected" in ast:
                    rep.bad("claims-provenance", "rejected token accepted", loc(b), "a token that could not be verified is answered with an identity instead of an error")
                elif not empty:
                    rep.bad("claims-provenance", "anonymous claims not empty", loc(b), "an identity that does not come from a verified token has groups or roles (%s, %s)" % (r, g))
                else:
                    rep.ok("claims-provenance", "outcome: anonymous without groups and roles")
                continue
            rep.bad("claims-provenance", "untraceable claims", loc(b), "the claims do not come from a verified token: %s (facts %s)" % (c, sorted(map(str, ast))))
    # who creates Claims / ClaimsFromAuth values
    ids = {b.id for b in roots}
    okfns = prog.closure_of(ids)
    n = 0
    for b in prog.bodies.values():
        if b.crate != CRATE:
            continue
        for bb in b.bbs:
            for s in bb["s"]:
                if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"]["g"] == "adt" and s["r"].get("d", "").endswith(("auth::Claims", "extractors::ClaimsFromAuth")):
                    n += 1
                    root = prog.root_fn(b.id)
                    if b.id in okfns or root.trait in ("core::clone::Clone", "serde_core::de::Deserialize", "serde::de::Deserialize", "serde::Deserialize") or "_::" in b.id or "Visitor" in str(b.selfty) or "__Visitor" in (b.name + b.id) or (root.trait or "").startswith("serde") or (root.selfty is not None and "__Visitor" in root.selfty.s):
                        rep.ok("claims-provenance", "claims created in " + root.name)
                    else:
                        rep.bad("claims-provenance", "claims created in " + root.name, loc(b), "claims are created outside of the verified extractor")
    rep.floor("claims-provenance", "places creating claims", n, 3)
    # key / algorithm tables
    alg, keyf = {}, {}
    for b in prog.bodies.values():
        if b.crate == CRATE and b.kind in ("method", "fn") and b.argc == 1:
            at = b.ltys[1].peel_refs()
            if at.k == "adt" and at.d in prog.adts and len(prog.adts[at.d]["variants"]) > 1:
                rt = b.ltys[0]
                if rt.has_adt("Algorithm") or rt.has_adt("DecodingKey"):
                    for var in prog.adts[at.d]["variants"]:
                        vn = var["n"]
                        cl = KeyTab()
                        ip = Interp(prog, cl)
                        outs = ip.run(b.id, (("a", vn, ()),), frozenset()) or ()
                        rep.fns(ip.stats["functions"])
                        if rt.has_adt("Algorithm"):
                            alg[vn] = {variant(v) for _a, v, _m in outs}
                        else:
                            keyf[vn] = {x for a, v, _m in outs for x in a if variant(v) != "Err"}
    rep.floor("key-matches-algorithm", "kinds of token verification with an algorithm", len(alg), 2)
    rep.floor("key-matches-algorithm", "kinds of token verification with a key", len(keyf), 2)
    fam = {"HS": {"from_secret", "from_base64_secret"}, "RS": {"from_rsa_pem", "from_rsa_der", "from_rsa_components"}, "ES": {"from_ec_pem"}, "PS": {"from_rsa_pem"}, "Ed": {"from_ed_pem"}}
    for vn in sorted(set(alg) | set(keyf)):
        a = alg.get(vn, set())
        k = keyf.get(vn, set())
        good = len(a) == 1 and None not in a and k and all(x in fam.get(list(a)[0][:2], ()) for x in k) and vn.upper().startswith(list(a)[0][:2].upper())
        if good:
            rep.ok("key-matches-algorithm", "%s: %s with %s" % (vn, sorted(a), sorted(k)))
        else:
            rep.bad("key-matches-algorithm", "%s" % vn, "webservice/src/settings.rs", "the token verification %s uses algorithm %s with key constructor %s" % (vn, a, k))


class KeyTab(Client):
    def call(self, ip, body, bb, t, f, ast, args):
        if f and "DecodingKey" in f["n"]:
            m = plain(f["n"]).rsplit("::", 1)[1]
            if m.startswith("from_"):
                fallible = body.ltys[t["d"][0]].is_adt("Result") if len(t["d"]) == 1 else True
                if fallible:
                    return [(ast | {m}, OK(None)), (ast, ERR())]
                return [(ast | {m}, None)]
        return None

    def interesting(self, bid):
        return False


# ---------------------------------------------------------------- C18
WRITE = ("execute",)
SQLREAD = ("load", "first", "get_result", "get_results", "load_iter")


class Tx(Client):
    """state: number of writes outside a transaction, in-transaction flag, whether an error was seen"""

    def __init__(self, prog):
        self.prog = prog
        self.bodies = {b.id for b in prog.bodies.values() if b.crate == CRATE}
        self.found = {}
        self.writes = set()

    def interesting(self, bid):
        return bid in self.bodies

    def note(self, key, good, where, msg):
        cur = self.found.get(key)
        if cur is None or (cur[0] and not good):
            self.found[key] = (good, where, msg)

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return None
        n = plain(f["n"])
        m = n.rsplit("::", 1)[1]
        if "diesel" in n and m in ("transaction", "immediate_transaction", "exclusive_transaction"):
            w, tx, failed, intx = ast
            if intx:
                return [(a, r) for a, r in ip.run_closure(args[-1], [None], ast)]
            res = []
            for a, r in ip.run_closure(args[-1], [None], (0, True, False, True)):
                w2, _t, failed2, _i = a
                rv = variant(r)
                key = "transaction in " + self.prog.root_fn(body.id).name
                if failed2 and rv != "Err":
                    self.note(key, False, loc(body, t.get("l")), "a failed statement inside the transaction does not make the transaction fail, so a partial change is committed")
                elif w2:
                    self.note(key, True, "", "")
                if rv == "Err":
                    res.append(((w, True, True, False), ERR()))
                elif rv == "Ok":
                    res.append(((w + (1 if w2 else 0), True, failed, False), OK(fget(r, "0"))))
                    res.append(((w, True, True, False), ERR()))
                else:
                    res.append(((w + (1 if w2 else 0), True, failed, False), None))
            return list(dict.fromkeys(res))
        if "diesel" in n and m in ("begin_transaction", "commit_transaction", "rollback_transaction", "test_transaction", "begin_test_transaction"):
            self.note("manual transaction in " + self.prog.root_fn(body.id).name, False, loc(body, t.get("l")), "transaction handling outside of Connection::transaction is not understood")
            return None
        if n.startswith("diesel::") and m in WRITE + SQLREAD:
            w, tx, failed, intx = ast
            if m in WRITE:
                self.writes.add((body.id, bb))
                w2 = min(w + 1, 3)
                if not intx and w2 > 1:
                    self.note("statements in " + self.prog.root_fn(body.id).name, False, loc(body, t.get("l")),
                              "more than one change of the group database is made outside of a common transaction")
            else:
                w2 = w
            return [((w2, tx, failed, intx), OK(None)), ((w, tx, True, intx), ERR())]
        return None


def check_C18(prog, rep):
    R = rep.rule("one-transaction", "every function that changes the group database makes all its changes in one transaction (or with one statement), and every failing statement makes the transaction and the function fail")
    rep.rule("group-change-complete", "replacing a group removes its old corpora and writes the group and the new corpora; deleting removes the group")
    roots = []
    for b in prog.bodies.values():
        if b.crate != CRATE or b.kind not in ("fn", "method"):
            continue
        if any(b.ltys[i + 1].peel_refs().has_adt("SqliteConnection") for i in range(b.argc)) and b.ltys[0].is_adt("Result"):
            roots.append(b)
    rep.floor("one-transaction", "functions using the group database", len(roots), 4)
    nwr = set()
    for b in sorted(roots, key=lambda b: b.id):
        cl = Tx(prog)
        ip = Interp(prog, cl)
        outs = ip.run(b.id, (None,) * b.argc, (0, False, False, False)) or ()
        rep.fns(ip.stats["functions"])
        nwr |= cl.writes
        for key, (good, where, msg) in cl.found.items():
            if good:
                rep.ok("one-transaction", key)
            else:
                rep.bad("one-transaction", key, where, msg)
        swallow = False
        for (w, tx, failed, intx), v, _m in outs:
            if failed and variant(v) != "Err":
                swallow = True
            if w > 1:
                rep.bad("one-transaction", "several transactions in " + b.name, loc(b), "the change is split over more than one transaction or statement")
        if swallow:
            rep.bad("one-transaction", "error dropped in " + b.name, loc(b), "a failing database statement does not make the function fail")
        else:
            rep.ok("one-transaction", "errors of %s are reported" % b.name)
    rep.floor("one-transaction", "changing statements", len(nwr), 5)
    # completeness of the effect: tables written per function
    eff = {}
    for b in roots:
        tabs = set()
        for x in prog.closure_of([b.id]):
            xb = prog.bodies[x]
            for _i, t in xb.calls():
                f = callee(t)
                if f and f["n"].startswith("diesel::") and plain(f["n"]).endswith("::execute") and "self" in f:
                    st = xb.tys[f["self"]]
                    s = st.s
                    kind = "delete" if "DeleteStatement" in s else "insert" if "InsertStatement" in s else "update" if "UpdateStatement" in s else "other"
                    tab = "corpus_groups" if st.a and "corpus_groups::table" in st.a[0].s else "groups" if st.a and "groups::table" in st.a[0].s else s[:60]
                    tabs.add((kind, tab))
        eff[b.name.rsplit("::", 1)[1]] = (tabs, b)
    want = {
        "add_or_replace_group": {("delete", "corpus_groups"), ("insert", "groups"), ("insert", "corpus_groups")},
        "delete_group": {("delete", "groups")},
    }
    for fn, need in want.items():
        if fn not in eff:
            # renamed: any function with at least this effect
            cands = [k for k, (e, _b) in eff.items() if need <= e]
            if not cands:
                rep.bad("group-change-complete", fn, "webservice/src/actions.rs", "no function has the complete effect %s" % sorted(need))
            else:
                rep.ok("group-change-complete", fn + " as " + cands[0])
            continue
        e, b = eff[fn]
        if need <= e:
            rep.ok("group-change-complete", "%s: %s" % (fn, sorted(e)))
        else:
            rep.bad("group-change-complete", fn, loc(b), "the change misses %s" % sorted(need - e))


def check(pid, prog, rep):
    {"C14": check_C14, "C15": check_C15, "C16": check_C16, "C18": check_C18}[pid](prog, rep)
