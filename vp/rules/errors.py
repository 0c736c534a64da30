"""C07, C08: an operation that fails inside of a function is never forgotten.

Every function and closure is interpreted on its own.  Each call that can return an error is given both outcomes; on the
failing outcome the error must reach the result of the function, be handed to someone else (stored, sent, passed on) or
end the function.  A failing call whose function nevertheless returns a value without the error is reported.
"""
import functools, collections
from ..facts import callee, short, plain
from ..interp import Client, Interp, A, OK, ERR, SOME, NONE, UNIT, TRUE, FALSE, fget, variant, reach_back
from ..report import loc

RES = "core::result::Result"
OPT = "core::option::Option"

# error types that describe values (a text that is not a number, a missing map entry) or closed channels, not failing steps
VALUE_ERRORS = (
    "core::fmt::Error", "core::num::error::ParseIntError", "core::num::error::ParseFloatError", "core::num::error::TryFromIntError",
    "core::num::error::IntErrorKind", "core::str::error::Utf8Error", "core::str::error::ParseBoolError", "core::char::ParseCharError",
    "alloc::string::FromUtf8Error", "strum::ParseError", "core::str::traits::FromStr>::Err", "usize", "core::convert::Infallible",
    "std::sync::mpsc::SendError", "std::sync::mpsc::RecvError", "std::path::StripPrefixError", "sys_info::Error", "()", "std::env::VarError",
    "serde_core::", "core::cell::", "std::ffi::", "alloc::sync::Arc", "alloc::ffi::", "core::any::", "alloc::boxed::Box<dyn core::any::Any",
    "std::thread::local::AccessError", "log::SetLoggerError", "core::time::", "std::time::",
)
SERDE = ("serde_core::", "serde::")


def value_error(e):
    s = e.s
    if any(s.startswith(x) or s.endswith(x) for x in VALUE_ERRORS):
        return True
    return "serde_core::" in s or "FromStr>::Err" in s


def is_res(t):
    return t.k == "adt" and t.d == RES and not value_error(t.a[1])


@functools.lru_cache(maxsize=None)
def _carry(t):
    for x in t.walk():
        if x.k == "adt" and x.d == RES and not value_error(x.a[1]):
            return True
        if x.k == "adt" and (x.d.endswith("Error") or x.d.endswith("ErrorKind")):
            return True
        if x.k == "dyn" and any("Error" in y or "Future" in y for y in x.tr):
            return True
        if x.k in ("alias", "coroutine", "closure"):
            return True
    return False


def item_of(prog, t, d=0):
    """item type of an iterator type, None if unknown"""
    if d > 12 or t is None:
        return None
    if t.k in ("ref", "ptr"):
        return item_of(prog, t.a[0], d + 1)
    if t.k == "dyn":
        return t.a[0] if t.a and any(x.endswith("Iterator") for x in t.tr) else None
    if t.k != "adt":
        return None
    n = t.d.rsplit("::", 1)[1]
    if n == "Box" and t.a:
        return item_of(prog, t.a[0], d + 1)
    if not t.d.startswith(("core::iter::", "itertools::")):
        if t.d.startswith("alloc::vec::into_iter"):
            return t.a[0]
        return None
    if n in ("Filter", "Skip", "Take", "StepBy", "Peekable", "Fuse", "Chain", "Inspect", "Rev", "Cycle", "SkipWhile", "TakeWhile", "UniqueBy", "Unique"):
        return item_of(prog, t.a[0], d + 1)
    if n in ("Map", "FilterMap", "MapWhile", "FlatMap", "Scan"):
        f = t.a[-1] if n in ("Map", "FilterMap", "MapWhile") else (t.a[1] if n == "FlatMap" else None)
        if f is not None and f.k == "closure" and f.d in prog.bodies:
            r = prog.bodies[f.d].ltys[0]
            if n == "Map":
                return r
            if n in ("FilterMap", "MapWhile") and r.is_adt(OPT):
                return r.a[0]
            if n == "FlatMap":
                return item_of(prog, r, d + 1)
        return None
    if n in ("Once", "Repeat"):
        return t.a[0]
    return None


# consumers that lose the difference between a value and an error of an item
LOSSY = {"count", "last", "nth", "skip", "flatten", "advance_by", "max", "min", "step_by"}

LOGGING = ("log::", "core::fmt::", "alloc::fmt::", "std::io::stdio::", "core::mem::drop", "tracing::")
DERIVE = {"to_string", "clone", "as_ref", "as_str", "as_bytes", "into", "from", "borrow", "deref", "to_owned", "as_deref", "description", "source", "into_bytes", "kind", "raw_os_error", "eq", "ne"}


def has_err(v):
    if v is None:
        return False
    if v[0] == "x":
        return v[1] == "err"
    if v[0] == "a":
        return v[1] == "Err" or any(has_err(x) for _n, x in v[2])
    return False


def has_payload(v):
    if v is None:
        return False
    if v[0] == "x":
        return v[1] == "err"
    if v[0] == "a":
        return any(has_payload(x) for _n, x in v[2])
    return False


E = ("x", "err")
SAME, OTHER = ("x", "expected-error"), ("x", "other-error")


class Errors(Client):
    def __init__(self, prog, fallible=None):
        self.prog = prog
        self.sites = {}
        self.bad = {}
        self.lossy = {}
        self.handled = set()
        self.current = None

    def field(self, ip, body, base, name, owner):
        if base == E:
            return E
        return None

    def branch(self, ip, body, bb, ast, sym, taken):
        if ast != "ok" and sym == E and taken in VALUE_VARIANTS:
            return "ok"
        if ast != "ok" and sym in (SAME, OTHER) and taken == (1 if sym == SAME else 0):
            return "ok"
        return ast

    def assign(self, ip, body, bb, stmt, ast, env):
        if ast == "ok" or len(stmt["p"]) < 2 or "*" not in stmt["p"]:
            return ast
        v = ip.snapshot(env, ip.rvalue(env, body, stmt["r"]))
        if has_payload(v):
            self.handled.add(ast)
            return "ok"
        return ast

    def shapes(self, ty, d=0):
        """[(value, failing)] for a value of a type that may hold an error; None if it cannot"""
        if d > 4:
            return None
        if is_res(ty):
            inner = self.shapes(ty.a[0], d + 1) if ty.a[0].is_adt(OPT) else None
            out = [(OK(v), f) for v, f in inner] if inner else [(OK(), False)]
            return out + [(ERR(E), True)]
        if ty.k == "adt" and ty.d == OPT and ty.a:
            inner = self.shapes(ty.a[0], d + 1)
            if inner is None:
                return None
            return [(SOME(v), f) for v, f in inner] + [(NONE, False)]
        if ty.k == "tuple":
            out, found = [((), False)], False
            for i, x in enumerate(ty.a):
                inner = self.shapes(x, d + 1)
                if inner is None:
                    continue
                found = True
                out = [(fs + ((str(i), v),), a or b) for fs, a in out for v, b in inner if not (a and b)]
            return [(("a", None, fs), f) for fs, f in out] if found else None
        if ty.k == "adt" and ty.d == "core::task::poll::Poll" and ty.a:
            inner = self.shapes(ty.a[0], d + 1)
            if inner is None:
                return None
            return [(A("Ready", v), f) for v, f in inner]
        return None

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return self.produce(ip, body, t, None, ast, args)
        n = plain(f["n"])
        m = n.rsplit("::", 1)[1] if "::" in n else n
        if n.startswith(("core::result::Result", "core::option::Option")):
            return self.resmodel(ast, m, args)
        if n.startswith(("core::ops::try_trait::", "core::ops::function::Fn")):
            if n.startswith("core::ops::function::Fn"):
                a0 = args[0] if args else None
                if a0 is not None and (a0[0] == "fn" or (variant(a0) or "").startswith("fn:")):
                    return None
                return self.produce(ip, body, t, f, ast, args)
            return None
        sh = short(f["n"])
        if n.startswith("core::iter::traits::iterator::Iterator::"):
            if m in LOSSY and "self" in f:
                it = item_of(self.prog, body.tys[f["self"]])
                if it is not None and self.shapes(it) is not None:
                    key = (body.id, "Iterator::%s" % m)
                    zero = m in ("skip",) and args[1:] and args[1] == ("i", 0)
                    if not zero:
                        self.lossy.setdefault(key, (t.get("l"), it.s))
        if n == "core::iter::sources::empty::empty":
            return [(ast, ("a", "none", ()))]
        from ..interp import IDENT
        if sh in IDENT:
            # hand on the taint; conversions of an error keep it
            if args and has_err(args[0]):
                return [(ast, args[0])]
            if sh.startswith("IntoFuture"):
                return None
            r = self.shapes(body.ltys[t["d"][0]]) if len(t["d"]) == 1 else None
            if r is None or (args and args[0] is not None):
                return None
            return None
        if ast != "ok" and any(has_payload(a) for a in args):
            if m in ("eq", "ne") and any(variant(a) in VALUE_VARIANTS for a in args):
                return [(ast, SAME if m == "eq" else OTHER)]
            if n.startswith(LOGGING) or m in DERIVE or m in ("fmt", "drop"):
                return [(ast, E)]
            self.handled.add(ast)
            return [("ok", E)]
        return self.produce(ip, body, t, f, ast, args)

    def resmodel(self, ast, m, args):
        a0 = args[0] if args else None
        v = variant(a0)
        if m == "transpose":
            if v == "None":
                return [(ast, OK(NONE))]
            if v == "Some":
                i = fget(a0, "0")
                if variant(i) == "Ok":
                    return [(ast, OK(SOME(fget(i, "0"))))]
                if variant(i) == "Err":
                    return [(ast, ERR(fget(i, "0")))]
            if v == "Err":
                return [(ast, SOME(ERR(fget(a0, "0"))))]
            if v == "Ok":
                i = fget(a0, "0")
                if variant(i) == "None":
                    return [(ast, NONE)]
                if variant(i) == "Some":
                    return [(ast, SOME(OK(fget(i, "0"))))]
            return None
        if m in ("or",) and v in ("Err", "None"):
            return [(ast, args[1])]
        if m == "and" and v in ("Err", "None"):
            return [(ast, a0)]
        if m in ("iter", "into_iter") and v == "Err":
            return [(ast, ("a", "none", ()))]
        if m == "flatten":
            if v == "Some":
                return [(ast, fget(a0, "0"))]
            if v == "Ok":
                return [(ast, fget(a0, "0"))]
            if v == "Err" or v == "None":
                return [(ast, a0)]
        return None

    def produce(self, ip, body, t, f, ast, args):
        if len(t["d"]) != 1:
            return None
        ty = body.ltys[t["d"][0]]
        sh = self.shapes(ty)
        if sh is None:
            return None
        # an error that is already part of the arguments (e.g. collecting known items)
        name = short(f["n"]) if f else "call through a pointer"
        site = (body.id, name, t.get("l"))
        self.sites.setdefault((body.id, name), t.get("l"))
        out = []
        for v, failing in sh:
            if not failing:
                out.append((ast, v))
            elif ast == "ok":
                out.append((site, v))
        return out

    def lost(self, v, ty, body):
        """is the value definitely without the error?"""
        if v is not None and has_err(v):
            return False
        if ty is not None and not _carry(ty):
            return True
        if v is None:
            return False
        if v[0] != "a":
            return ty is not None and not _carry(ty)
        if v[1] in ("Ok", "None"):
            if v[1] == "Ok" and ty is not None and ty.is_adt(RES) and _carry(ty.a[0]):
                return self.lost(fget(v, "0"), ty.a[0], body)
            return True
        if v[1] in ("Some", "Ready") and ty is not None and ty.a:
            return self.lost(fget(v, "0"), ty.a[0], body)
        if v[1] == "none":
            return True
        return False

    def ret(self, ip, body, ast, val):
        return ast, val



# a failing step whose error is a statement about the input or about the corpus, with a defined answer (no result, no match)
VALUE_CALLEES = {
    "util::compile_and_parse_regex": "an invalid regular expression matches nothing",
    "Regex::new": "an invalid regular expression matches nothing",
    "Parser::parse": "an invalid regular expression matches nothing",
    "TokenHelper::new": "the only error is a corpus without the components for token",
    "Conjunction::resolve_variable": "an unknown variable name is part of the question",
    "Conjunction::resolve_variable_pos": "an unknown variable name is part of the question",
    "NonExistingUnaryOperatorSpec::create_subquery_conjunction": "builds a part of the query from a valid part of the query",
    "FromStr::from_str": "a text that is not a valid value",
    "<impl str>::parse": "a text that is not a valid value",
    "FileExt::unlock": "the lock is given up with the process anyway",
}
# variants of errors that are an answer
VALUE_VARIANTS = {"NoSuchCorpus", "ImpossibleSearch", "NotFound"}

# (end of the function name, failing callee, reason)
EXEMPT = [
    ("Conjunction::optimize_node_search_by_operator", "NodeSearch::new_partofcomponentsearch", "only an optimization: the original search is kept"),
    ("registry::get_adjacencylist_impl", "AnnotationStorage::get_largest_item", "only a heuristic: the general implementation is chosen"),
    ("relannis::calculate_automatic_coverage_edges", "relannis::add_automatic_cov_edge_for_node", "nodes with incomplete source data are reported as warning by design"),
    ("relannis::load_resolver_vis_map", "relannis::get_field", "a missing column means no mappings"),
    ("util::get_queries_from_csv", "Reader::from_path", "helper of the benchmarks which panics or skips as requested"),
    ("util::get_queries_from_csv", "argument", "helper of the benchmarks which panics or skips as requested"),
    ("CorpusStorage::import_from_fs", "CorpusStorage::check_cache_size_and_remove", "progress callback: making the cache smaller is best effort"),
]


def in_scope(b):
    if b.kind == "promoted" or "/tests" in b.file or b.file.endswith("tests.rs") or "::tests::" in b.id or "::tests" in b.name:
        return False
    r = b
    t = b.trait or ""
    if t.startswith(SERDE) or "serde" in t:
        return False
    if b.trait and b.trait.startswith(("core::fmt::", "core::cmp::", "core::hash::", "core::clone::", "core::error::")):
        return False
    return True


def analyse(prog, bodies):
    """[(body, site name, line, why)] of lost errors, number of sites"""
    cl = Errors(prog)
    ip = Interp(prog, cl, max_env=200)
    bad = {}
    for b in bodies:
        rty = b.ltys[0]
        runs = [((None,) * b.argc, "ok")]
        for i in range(b.argc):
            ty = b.ltys[i + 1]
            if is_res(ty):
                a = [None] * b.argc
                a[i] = ERR(E)
                runs.append((tuple(a), (b.id, "argument", b.line)))
            elif ty.is_adt(OPT) and ty.a and is_res(ty.a[0]):
                a = [None] * b.argc
                a[i] = SOME(ERR(E))
                runs.append((tuple(a), (b.id, "argument", b.line)))
        for args, ast in runs:
            outs = ip.run(b.id, args, ast)
            for a, v, muts in outs or ():
                if a == "ok":
                    continue
                if any(has_payload(x) for x in muts):
                    continue
                if b.kind == "coroutine":
                    ty = None
                    if v is not None and variant(v) == "Ready":
                        v = fget(v, "0")
                else:
                    ty = rty
                if cl.lost(v, ty, b):
                    bad.setdefault((b.id, a[1], a[0]), (a[2], b))
    return cl, bad



# --- buffered writers

WRITERS = {
    "BufWriter": ("BufWriter::new", "BufWriter::with_capacity"),
    "ZipWriter": ("ZipWriter::new", "ZipWriter::new_append"),
    "TableBuilder": ("TableBuilder::new", "TableBuilder::new_raw"),
}
FINISH = {"flush": ("BufWriter",), "into_inner": ("BufWriter",), "finish": ("ZipWriter", "TableBuilder"), "into_parts": ("BufWriter",)}


def writer_kind(ty):
    for t in ty.walk():
        if t.k == "adt" and t.d.rsplit("::", 1)[-1] in WRITERS:
            yield t.d.rsplit("::", 1)[-1]


class Finish(Client):
    """what is still in the buffer of a writer is written, with its error noticed, before the writer is given up"""

    def __init__(self, prog):
        self.prog = prog
        self.roots = {}
        ev = set()
        for b in prog.bodies.values():
            for i, t in b.calls():
                f = callee(t)
                if f is None:
                    continue
                if any(short(f["n"]) in v for v in WRITERS.values()):
                    self.roots.setdefault(b.id, []).append(t.get("l"))
                    ev.add(b.id)
                elif plain(f["n"]).rsplit("::", 1)[-1] in FINISH and (f.get("res") or f["id"]) not in prog.bodies:
                    ev.add(b.id)
        self.rel = reach_back(prog, ev)

    def interesting(self, bid):
        return bid in self.rel

    def drop_kind(self, ast, v):
        if v is None:
            return ast
        if v[0] == "x" and v[1].startswith("writer:"):
            return ast - {v[1][7:]}
        if v[0] == "a":
            for _n, x in v[2]:
                ast = self.drop_kind(ast, x)
        return ast

    def assign(self, ip, body, bb, stmt, ast, env):
        r = stmt["r"]
        if ast and r["k"] == "agg" and r["g"] == "adt" and r.get("v") not in ("Ok", "Some", "Ready"):
            for o in r["o"]:
                ast = self.drop_kind(ast, ip.snapshot(env, ip.operand(env, o, body)))
        return ast

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return None
        sh = short(f["n"])
        for k, news in WRITERS.items():
            if sh in news:
                self.sites = getattr(self, "sites", 0) + 1
                return [(ast | {k}, ("x", "writer:" + k))]
        m = plain(f["n"]).rsplit("::", 1)[-1]
        if m in FINISH and (f.get("res") or f["id"]) not in self.prog.bodies:
            r = [(ast - set(FINISH[m]), OK() if body.ltys[t["d"][0]].is_adt(RES) else None)]
            if body.ltys[t["d"][0]].is_adt(RES):
                r.append((ast - set(FINISH[m]), ERR()))
            return r
        if sh in ("Box::new", "Arc::new"):
            return [(ast, args[0])]
        return None


def finished(prog, rep, mine):
    cl = Finish(prog)
    ip = Interp(prog, cl, max_env=200)
    rep.rule("written-completely", "on every path to a successful end, a buffered writer that was created is flushed (or finished) explicitly: errors while it is dropped are not noticed")
    n = 0
    for bid, lines in sorted(cl.roots.items()):
        b = prog.bodies[bid]
        if not in_scope(b) or not mine(bid):
            continue
        n += 1
        left = set()
        for ast, v, _m in ip.run(bid, (None,) * b.argc, frozenset()) or ():
            if variant(v) == "Err":
                continue
            left |= cl.drop_kind(ast, v)
        if left:
            for k in sorted(left):
                rep.bad("written-completely", "%s: %s" % (b.name, k), loc(b, lines[0]), "the function may end successfully while a %s still holds data that was not written" % k)
        else:
            rep.ok("written-completely", b.name)
    rep.floor("anchors", "functions with buffered writers", n, 6)

SPAWN = ("thread::spawn", "rayon_core::spawn", "Builder::spawn", "task::spawn")


def background(prog):
    """closures that run in a thread of their own, with nobody to return an error to"""
    r = set()
    for b in prog.bodies.values():
        for i, t in b.calls():
            f = callee(t)
            if f is None or not plain(f["n"]).endswith(("::spawn", "::spawn_fifo")):
                continue
            for o in t["args"]:
                if "p" in o:
                    ty = b.ltys[o["p"][0]].peel()
                    if ty.k == "closure" and ty.d in prog.bodies and prog.bodies[ty.d].ltys[0].s == "()":
                        r.add(ty.d)
    return r


class Covered:
    """is a body only run on behalf of bodies with a given property?"""

    def __init__(self, prog, base):
        self.prog, self.base, self.memo = prog, base, {}

    def __call__(self, bid):
        if bid in self.memo:
            return self.memo[bid]
        self.memo[bid] = False
        b = self.prog.bodies[bid]
        r = self.base(b)
        if not r and b.kind in ("closure", "coroutine") and b.parent in self.prog.bodies:
            r = self(b.parent)
        if not r:
            cs = [c for c in self.prog.callers.get(bid, ()) if c != bid]
            r = bool(cs) and all(self(c) for c in cs)
        self.memo[bid] = r
        return r


READ_ROOTS = {
    "info", "list", "validate_query", "plan", "count", "count_extra", "find", "subgraph", "subgraph_for_query", "subcorpus_graph",
    "corpus_graph", "frequency", "node_descriptions", "list_components", "list_node_annotations", "list_edge_annotations",
    "export_to_zip", "export_to_fs", "preload",
}
WRITE_ROOTS = {
    "import_all_from_zip", "import_from_fs", "export_to_zip", "export_to_fs", "delete", "create_empty_corpus", "apply_update", "unload",
    "reoptimize_implementation", "with_cache_strategy",
}


def scopes(prog):
    rd, wr = set(), set()
    for b in prog.bodies.values():
        if b.kind == "promoted" or not in_scope(b):
            continue
        cs = b.selfty is not None and b.selfty.is_adt("graphannis::annis::db::corpusstorage::CorpusStorage")
        mut = bool(b.argc) and b.ltys[1].k == "ref" and b.ltys[1].s.startswith("&mut")
        if cs and b.method in READ_ROOTS:
            rd.add(b.id)
        if cs and b.method in WRITE_ROOTS:
            wr.add(b.id)
        if not cs and b.kind in ("method", "fn") and (b.trait or not prog.callers.get(b.id)):
            if mut or b.method in ("save_to", "save_annotations_to", "serialize_gs", "write_to", "persist_to", "background_sync_wal_updates", "export") or "save" in b.name:
                wr.add(b.id)
            else:
                rd.add(b.id)
        if b.crate in ("graphannis_capi", "graphannis_webservice"):
            (wr if any(x in b.name for x in ("import", "export", "delete", "update", "apply", "put", "add", "group")) else rd).add(b.id)
    return prog.closure_of(rd, True), prog.closure_of(wr, True)


def check(pid, prog, rep):
    bodies = [b for b in prog.bodies.values() if in_scope(b)]
    cl, bad = analyse(prog, bodies)
    bg = background(prog)
    drops = {b.id for b in prog.bodies.values() if b.trait and b.trait.endswith("::Drop")}
    silent = Covered(prog, lambda b: b.id in drops or (b.id in bg and b.crate != "graphannis_webservice"))
    exempt = {(s, c): Covered(prog, lambda b, s=s: b.name.endswith(s) or ("::" + s) in b.name) for s, c, _r in EXEMPT}
    rd, wr = scopes(prog)

    def mine(bid):
        r, w = bid in rd, bid in wr
        return r if pid == "C07" else (w or not r)

    def excused(bid, name, site):
        b = prog.bodies[bid]
        if name in VALUE_CALLEES or silent(bid):
            return True
        for s, c, _r in EXEMPT:
            if c == name and exempt[(s, c)](bid):
                return True
        if b.crate == "graphannis_webservice" and name == "Mutex::lock" and b.ltys[0].s == "()":
            return True
        if site in cl.handled:
            # a job: the error is recorded for the job if it still exists; the C API: unless the caller passed no place for it
            if bid in bg:
                return True
            if b.crate == "graphannis_capi" and any(t.s.startswith("*mut *mut") for t in b.ltys[1 : b.argc + 1]):
                return True
        return False

    lost = {}
    for (bid, name, at), (line, b) in sorted(bad.items()):
        lost.setdefault((at, name), []).append((bid, line))
    n = 0
    for (bid, name), line in sorted(cl.sites.items()):
        if not mine(bid):
            continue
        n += 1
        b = prog.bodies[bid]
        rep.functions.add(b.name)
        hit = None
        for rb, l in lost.get((bid, name), ()):
            if not excused(rb, name, (bid, name, l)) and not excused(bid, name, (bid, name, l)):
                hit = l
        if hit is None:
            rep.ok("error-lost", "%s: %s" % (b.name, name))
        else:
            rep.bad("error-lost", "%s: %s" % (b.name, name), loc(b, hit), "if %s fails, its error is forgotten and the function goes on" % name)
    for (at, name), hits in sorted(lost.items()):
        if name != "argument" or not mine(at):
            continue
        for rb, l in hits:
            if not excused(rb, name, (at, name, l)):
                rep.bad("error-lost", "%s: argument" % prog.bodies[at].name, loc(prog.bodies[at], l), "an error that is passed in is forgotten")
    rep.rule("error-lost", "on every path on which a call returns an error, the error is returned, stored or passed on before the function ends")
    rep.rule("lossy", "no consumer of an iterator of results that does not look at the errors (count, last, nth, skip, flatten, max, min)")
    for (bid, name), (line, ty) in sorted(cl.lossy.items()):
        if mine(bid):
            rep.bad("lossy", "%s: %s" % (prog.bodies[bid].name, name), loc(prog.bodies[bid], line), "errors among the items %s are not noticed" % ty)
    if pid == "C08":
        finished(prog, rep, mine)
    rep.floor("anchors", "calls that may fail", n, 500 if pid == "C08" else 700)
    rep.extra["exemptions"] = [list(x) for x in EXEMPT] + [[k, v] for k, v in VALUE_CALLEES.items()]
