"""C11, C12, C13: ownership of the data directory, exclusive access to corpora, loading before reading.

Typestate interpretation of the corpus storage.  For each public operation the analysis follows which locks are held, what is
known about the entry of a corpus in the cache (absent, not loaded, used by nobody else, detached), how many background workers
are announced, and which paths belong to a corpus.  Entries and paths are told apart by the corpus name they belong to.
"""
from ..facts import callee, short, plain
from ..interp import Client, Interp, A, OK, ERR, SOME, NONE, UNIT, TRUE, FALSE, fget, variant, reach_back
from ..report import loc
from . import locks

CRATE = "graphannis"
DESTROY = {"fs::remove_dir_all", "fs::remove_dir", "fs::rename", "Graph::save_to"}
LOAD = {"Graph::open", "Graph::persist_to"}
BULK = {"clear", "drain", "retain", "pop_front", "pop_back"}


def storage_roots(prog):
    """public operations of the corpus storage and its destructor"""
    r = []
    for b in prog.bodies.values():
        if b.crate == CRATE and b.kind == "method" and b.selfty is not None and b.selfty.is_adt("CorpusStorage") and b.argc >= 1:
            if b.trait is None and not b.pub:
                continue
            if b.ltys[1].peel_refs().is_adt("CorpusStorage"):
                r.append(b)
    return sorted(r, key=lambda b: b.id)


def is_cache(ty):
    t = ty.peel()
    return t.is_adt("LinkedHashMap") and "CacheEntry" in t.s


def is_str(t):
    return t.peel().s in ("str", "alloc::string::String", "std::string::String", "String")


def syms(v, out=None):
    """all symbols inside of a value"""
    out = [] if out is None else out
    if v is None:
        return out
    if v[0] == "x":
        out.append(v)
    elif v[0] == "a":
        for _n, x in v[2]:
            syms(x, out)
    return out


def forget(ast, key, keep=()):
    return frozenset(f for f in ast if not (f[0] in ("U", "chk", "noE", "N", "removed") and f[1] == key and f[0] not in keep))


class Exclusive(Client):
    """C12"""

    def __init__(self, prog, rep):
        self.prog = prog
        self.rep = rep
        self.seen = {}
        self.count = {}
        self.root = ""
        ev = set()
        for b in prog.bodies.values():
            if b.crate != CRATE:
                continue
            for _i, t in b.calls():
                f = callee(t)
                if f and self.is_event(b, t, f):
                    ev.add(b.id)
            if any(s["k"] == "=" and s["r"]["k"] == "agg" and s["r"]["g"] == "adt" and s["r"]["v"] == "NotLoaded" for bb in b.bbs for s in bb["s"]):
                ev.add(b.id)
        self.hot = {x for x in reach_back(prog, ev) if prog.bodies[x].crate == CRATE}

    def is_event(self, b, t, f):
        sh = short(f["n"])
        if sh in locks.PRIM and len(t["d"]) == 1:
            return any(c in ("corpus cache", "cache entry") for c, _m in locks.cls(b.ltys[t["d"][0]]))
        if sh in DESTROY or sh in LOAD:
            return True
        if t["args"] and "p" in t["args"][0] and is_cache(b.ltys[t["args"][0]["p"][0]]):
            return True
        return False

    def interesting(self, bid):
        return bid in self.hot

    def req(self, rule, what, good, where, msg):
        k = (rule, what)
        if self.seen.get(k, (True,))[0] is False:
            return
        self.seen[k] = (bool(good), where, msg)

    def flush(self):
        for (rule, key), (good, where, msg) in self.seen.items():
            if good:
                self.rep.ok(rule, key)
            else:
                self.rep.bad(rule, key, where, msg)
        self.seen = {}

    def field(self, ip, body, base, name, owner):
        if base is None or base == ("x", "self"):
            if owner.endswith("CorpusStorage"):
                return {"corpus_cache": ("x", "cachelock"), "db_dir": ("x", "dbdir")}.get(name)
        return None

    def held(self, ast, c, modes=("w",)):
        return any(f[0] == "held" and f[1] == c and f[2] in modes for f in ast)

    def release(self, ast, s):
        if s[0] == "x" and s[1] == "guard":
            ast = frozenset(f for f in ast if f != ("held", s[2], s[3]))
            if s[2] == "C":
                ast = frozenset(f for f in ast if f[0] not in ("U", "chk", "noE", "N", "removed"))
        return ast

    def drop(self, ip, body, bb, ast, val, ty):
        for s in syms(val):
            ast = self.release(ast, s)
        return ast

    def branch(self, ip, body, bb, ast, sym, taken):
        if sym[1] == "guard" and sym[2] == "E":
            if taken == "NotLoaded" and self.held(ast, "C"):
                return ast | {("chk", sym[4])}
        if sym[1] == "uniq":
            pos = sym[3] == 1
            if taken in (0, 1) and (taken == 1) == pos:
                return ast | {("U", sym[2])}
        return ast

    def binop(self, ip, body, op, a, b):
        for x, y, sw in ((a, b, False), (b, a, True)):
            if x is not None and x[0] == "x" and x[1] == "cnt" and y is not None and y[0] == "i":
                n = y[1]
                o = op
                if sw:
                    o = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
                uniq = {("Eq", 1), ("Le", 1), ("Lt", 2)}
                many = {("Ne", 1), ("Gt", 1), ("Ge", 2)}
                if (o, n) in uniq:
                    return ("x", "uniq", x[2], 1)
                if (o, n) in many:
                    return ("x", "uniq", x[2], 0)
        return None

    def detach(self, ast, guard):
        if guard is not None and guard[0] == "x" and guard[1] == "guard" and guard[2] == "E" and guard[3] == "w":
            k = guard[4]
            self.count["detached entries"] = self.count.get("detached entries", 0) + 1
            return frozenset(f for f in ast if f != ("rm", k)) | {("N", k)}
        return ast

    def assign(self, ip, body, bb, stmt, ast, env):
        p = stmt["p"]
        if "*" not in p:
            return ast
        v = ip.snapshot(env, ip.rvalue(env, body, stmt["r"]))
        if variant(v) == "NotLoaded":
            i = len(p) - 1 - p[::-1].index("*")
            g = ip.snapshot(env, ip.readp(env, ip.resolve(env, p[:i]), body))
            return self.detach(ast, g)
        return ast

    def key(self, v):
        return v if v is not None and v[0] in ("x", "c") else "?"

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return None
        sh = short(f["n"])
        where = loc(body, t.get("l"))
        a0 = args[0] if args else None
        dty = body.ltys[t["d"][0]] if len(t["d"]) == 1 else None
        if sh in locks.PRIM and dty is not None:
            for c, m in locks.cls(dty):
                if c == "corpus cache":
                    self.count["cache locked"] = self.count.get("cache locked", 0) + 1
                    g = ("x", "guard", "C", m)
                    return [(ast | {("held", "C", m)}, OK(g)), (ast, ERR())]
                if c == "cache entry":
                    k = a0[2] if a0 is not None and a0[0] == "x" and a0[1] == "entry" else "?"
                    g = ("x", "guard", "E", m, k)
                    return [(ast | {("held", "E", m)}, OK(g)), (ast, ERR())]
        if sh == "mem::drop" or sh == "Option::take" and False:
            for s in syms(a0):
                ast = self.release(ast, s)
            return [(ast, UNIT)]
        if sh in ("mem::replace", "mem::take", "mem::swap") and a0 is not None and a0[0] == "x" and a0[1] == "guard" and a0[2] == "E":
            if sh == "mem::replace" and variant(args[1]) == "NotLoaded":
                return [(self.detach(ast, a0), None, "keep")]
            return None
        if sh == "Arc::strong_count" and a0 is not None and a0[0] == "x" and a0[1] == "entry":
            return [(ast, ("x", "cnt", a0[2]))]
        if sh == "Arc::ptr_eq":
            return None
        # the cache itself
        if t["args"] and "p" in t["args"][0] and is_cache(body.ltys[t["args"][0]["p"][0]]) and "LinkedHashMap" in f["n"]:
            m = sh.rsplit("::", 1)[1]
            k = self.key(args[1] if len(args) > 1 else None)
            c = self.held(ast, "C") or True
            if m in ("get", "get_mut", "get_refresh", "peek"):
                st = forget(ast, k)
                return [(st, SOME(("x", "entry", k))), (st | {("noE", k), ("chk", k)} if self.held(ast, "C") else st, NONE)]
            if m == "contains_key":
                if ("noE", k) in ast:
                    return [(ast, FALSE)]
                st = forget(ast, k, keep=("chk", "N", "U"))
                return [(st, TRUE), (st | {("noE", k), ("chk", k)} if self.held(ast, "C") else st, FALSE)]
            if m == "remove":
                self.count["cache entries removed"] = self.count.get("cache entries removed", 0) + 1
                out = []
                fine = any((x, k) in ast for x in ("U", "chk", "N"))
                st = forget(ast, k)
                if ("noE", k) not in ast or ("N", k) in ast:
                    keepf = {(x, k) for x in ("chk", "N") if (x, k) in ast}
                    s2 = st | keepf | {("removed", k)}
                    out.append((s2 if fine else s2 | {("rm", k)}, SOME(("x", "entry", k))))
                    if fine:
                        self.req("no-removal-while-used", "%s: entry removed from the cache" % short(body.name), True, where, "")
                out.append((st | {("noE", k), ("chk", k)}, NONE))
                return out
            if m == "insert":
                good = any((x, k) in ast for x in ("noE", "removed", "chk", "N"))
                self.req("no-removal-while-used", "%s: entry put into the cache" % short(body.name), good, where,
                         "an entry of the cache is replaced although another operation might still use the old one")
                return [(forget(ast, k), None, "keep")]
            if m in BULK:
                self.req("no-removal-while-used", "%s: %s" % (short(body.name), m), False, where, "entries are removed from the cache although other operations might still use them")
                return None
            return None
        # names of corpora in a loop: each round is about another corpus
        if sh == "Iterator::next" and dty is not None and dty.is_adt("core::option::Option") and (is_str(dty.a[0]) or dty.a[0].peel().k == "param"):
            k = ("x", "key", "each name in " + body.name)
            return [(forget(ast, k), SOME(k)), (ast, NONE)]
        # paths
        if sh.endswith("::corpus_directory_on_disk"):
            return [(ast, ("x", "path", self.key(args[1] if len(args) > 1 else None)))]
        if sh in ("Path::join", "PathBuf::join") and a0 is not None and a0[0] == "x" and a0[1] in ("path", "tmp", "sub"):
            return [(ast, a0 if a0[1] == "tmp" else ("x", "sub", a0[2]))]
        if sh in ("TempDir::path", "TempDir::into_path", "TempDir::new", "TempDir::new_in") or plain(f["n"]).endswith(("tempfile::tempdir", "tempfile::tempdir_in", "dir::tempdir", "dir::tempdir_in")):
            r = ("x", "tmp")
            return [(ast, OK(r)), (ast, ERR())] if dty is not None and dty.is_adt("core::result::Result") else [(ast, r)]
        if sh in DESTROY:
            pv = args[-1] if sh == "Graph::save_to" else a0
            if pv == ("x", "tmp"):
                return [(ast, OK(UNIT)), (ast, ERR())]
            k = pv[2] if pv is not None and pv[0] == "x" and pv[1] in ("path", "sub") else "?"
            self.count["corpus files removed or replaced"] = self.count.get("corpus files removed or replaced", 0) + 1
            what = "%s: %s" % (short(body.name), sh)
            self.req("cache-locked-while-files-change", what, self.held(ast, "C"), where,
                     "files of a corpus are removed or replaced without the exclusive lock of the corpus cache: the corpus can be loaded in the meantime")
            good = ("N", k) in ast or ("noE", k) in ast
            self.req("nobody-uses-removed-files", what, good, where,
                     "files of a corpus are removed or replaced although queries, updates or background writers might still use its loaded data")
            return [(ast, OK(UNIT)), (ast, ERR())]
        if sh in LOAD:
            pv = args[1] if len(args) > 1 else None
            k = pv[2] if pv is not None and pv[0] == "x" and pv[1] in ("path", "sub") else "?"
            what = "%s: %s" % (short(body.name), sh)
            self.count["corpora loaded"] = self.count.get("corpora loaded", 0) + 1
            good = self.held(ast, "C") and (("chk", k) in ast or ("noE", k) in ast)
            self.req("loaded-only-once", what, good, where,
                     "a corpus is loaded without checking, while the cache is locked exclusively, that it has not been loaded already: two independent copies of it would be used")
            return [(ast, OK(UNIT)), (ast, ERR())]
        return None

    def finish(self, root, ast, val):
        if variant(val) == "Err":
            return
        for f in ast:
            if f[0] == "rm":
                self.req("no-removal-while-used", "%s: entry removed from the cache" % short(root.name), False, loc(root),
                         "an entry is removed from the cache although another operation might still use it and its data is not detached: the corpus would be loaded a second time")


def c12(prog, rep):
    rep.rule("no-removal-while-used", "a loaded corpus is only removed from the cache (or replaced in it) when nobody else uses it, when it is not loaded, or after its data was detached under its exclusive lock")
    rep.rule("cache-locked-while-files-change", "corpus files are only removed or replaced while the cache is locked exclusively")
    rep.rule("nobody-uses-removed-files", "corpus files are only removed or replaced if the corpus is not in the cache or its data was detached under its exclusive lock")
    rep.rule("loaded-only-once", "a corpus is only loaded after checking, with the exclusive lock of the cache held, that it is not loaded already")
    cl = Exclusive(prog, rep)
    ip = Interp(prog, cl)
    roots = storage_roots(prog)
    n = 0
    for b in roots:
        if b.id not in cl.hot:
            continue
        n += 1
        args = [("x", "self")]
        for i in range(2, b.argc + 1):
            args.append(("x", "key", b.lnames[i] or str(i)) if is_str(b.ltys[i]) else None)
        outs = ip.run(b.id, tuple(args), frozenset())
        for a, v, _m in outs or ():
            cl.finish(b, a, v)
    cl.flush()
    rep.fns(ip.stats["functions"])
    rep.extra["abstract_states"] = ip.stats["states"]
    rep.extra["events"] = cl.count
    rep.floor("anchors", "public operations that use the corpus cache", n, 15)
    rep.floor("anchors", "acquisitions of the cache lock", cl.count.get("cache locked", 0), 6)
    rep.floor("anchors", "removals or replacements of corpus files", cl.count.get("corpus files removed or replaced", 0), 2)
    rep.floor("anchors", "loading of corpora", cl.count.get("corpora loaded", 0), 1)
    rep.floor("anchors", "removals of cache entries", cl.count.get("cache entries removed", 0), 3)


LOCKF = ("::try_lock_exclusive", "::lock_exclusive", "fs::File::try_lock", "fs::File::lock", "::lock_exclusive_async")
SPAWNF = ("thread::spawn", "thread::functions::spawn", "thread::builder::Builder::spawn", "thread::Builder::spawn")
CMP_IDLE = {("Eq", 0): 1, ("Lt", 1): 1, ("Le", 0): 1, ("Ne", 0): 0, ("Gt", 0): 0, ("Ge", 1): 0}


def captures_corpus(body, t):
    """is a closure with access to the data of a corpus handed to this call?"""
    for o in t["args"]:
        ty = body.ltys[o["p"][0]] if "p" in o else None
        if ty is not None and ty.k == "closure" and any(x.is_adt("CacheEntry", "CorpusStorage") or x.is_adt("graph::Graph") for x in ty.walk()):
            return ty.d
    return None


class Owner(Client):
    """C11"""

    def __init__(self, prog, rep):
        self.prog = prog
        self.rep = rep
        self.seen = {}
        self.count = {}
        self.root = ""
        self.finishers = set()
        self.spawned = {}
        ev = set()
        for b in prog.bodies.values():
            if b.crate != CRATE:
                continue
            for _i, t in b.calls():
                f = callee(t)
                if f is None:
                    continue
                pl, sh = plain(f["n"]), short(f["n"])
                if pl.endswith(LOCKF) or pl.endswith("::unlock") or sh.startswith("Condvar::") or pl.endswith(SPAWNF) or sh in ("File::open", "File::create", "OpenOptions::open", "fs::remove_file"):
                    ev.add(b.id)
                if sh in locks.PRIM and len(t["d"]) == 1 and any(c in ("usize", "cache entry") for c, _m in locks.cls(b.ltys[t["d"][0]])):
                    ev.add(b.id)
            if self.builds(b, "CorpusStorage"):
                ev.add(b.id)
        self.hot = {x for x in reach_back(prog, ev) if prog.bodies[x].crate == CRATE}

    @staticmethod
    def builds(b, adt):
        return any(s["k"] == "=" and s["r"]["k"] == "agg" and s["r"]["g"] == "adt" and s["r"]["d"].rsplit("::", 1)[-1] == adt for bb in b.bbs for s in bb["s"])

    def interesting(self, bid):
        return bid in self.hot

    req = Exclusive.req
    flush = Exclusive.flush

    def field(self, ip, body, base, name, owner):
        if base is None or base == ("x", "self"):
            if owner.endswith("CorpusStorage"):
                return {"lock_file": ("x", "file")}.get(name)
        return None

    def binop(self, ip, body, op, a, b):
        w = ("x", "guard", "W")
        if a == w and b == ("i", 1) and op.startswith("Add"):
            v = ("x", "inc")
            return ("a", None, (("0", v),)) if "Overflow" in op else v
        if a == w and b == ("i", 1) and op.startswith("Sub"):
            v = ("x", "dec")
            return ("a", None, (("0", v),)) if "Overflow" in op else v
        for x, y, sw in ((a, b, False), (b, a, True)):
            if x == w and y is not None and y[0] == "i":
                o = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op) if sw else op
                if (o, y[1]) in CMP_IDLE:
                    return ("x", "idle", CMP_IDLE[(o, y[1])])
        return None

    def branch(self, ip, body, bb, ast, sym, taken):
        if sym[1] == "idle" and taken in (0, 1):
            return ast | {"idle"} if taken == sym[2] else ast - {"idle"}
        if sym == ("x", "guard", "W") and taken is not None:
            # the number itself is matched
            return ast | {"idle"} if taken == 0 else ast - {"idle"}
        return ast

    def assign(self, ip, body, bb, stmt, ast, env):
        r = stmt["r"]
        if r["k"] == "agg" and r["g"] == "adt":
            n = r["d"].rsplit("::", 1)[-1]
            if n == "CorpusStorage":
                v = ip.snapshot(env, ip.rvalue(env, body, r))
                self.count["storages created"] = self.count.get("storages created", 0) + 1
                self.req("directory-is-locked", "%s: creates a corpus storage" % short(body.name), fget(v, "lock_file") == ("x", "file") and "locked" in ast, loc(body, stmt.get("l")),
                         "a corpus storage is created although the exclusive lock of the data directory was not acquired on its lock file")
            if r["d"] in self.finishers:
                return ast | {"guarded"}
            return ast
        if "*" in stmt["p"]:
            v = ip.snapshot(env, ip.rvalue(env, body, r))
            if v == ("x", "inc"):
                return ast | {"counted"}
            if v == ("x", "dec"):
                return ast | {"dec"}
        return ast

    def drop(self, ip, body, bb, ast, val, ty):
        t = body.bbs[bb]["t"]
        if len(t["p"]) == 1 and body.ltys[t["p"][0]].k == "adt" and body.ltys[t["p"][0]].d in self.finishers:
            return ast - {"guarded"}
        return ast

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return None
        sh, pl = short(f["n"]), plain(f["n"])
        where = loc(body, t.get("l"))
        a0 = args[0] if args else None
        dty = body.ltys[t["d"][0]] if len(t["d"]) == 1 else None
        if sh in ("File::open", "File::create", "OpenOptions::open", "File::options", "File::create_new"):
            return [(ast - {"locked"}, OK(("x", "file"))), (ast, ERR())]
        if pl.endswith(LOCKF):
            return [(ast | {"locked"} if a0 == ("x", "file") else ast, OK(UNIT)), (ast, ERR())]
        if pl.endswith("::unlock"):
            if self.root != "drop":
                self.req("lock-kept-until-idle", "%s: unlocks" % short(body.name), False, where, "the lock of the data directory is given up outside of the destructor")
            else:
                self.count["unlocked"] = 1
                self.req("lock-kept-until-idle", "unlock", "idle" in ast, where, "the lock of the data directory is given up although background workers might still write to it")
            return [(ast | {"unlocked"}, OK(UNIT)), (ast | {"unlocked"}, ERR())]
        if sh == "fs::remove_file" and self.root == "drop":
            self.req("lock-kept-until-idle", "remove lock file", "idle" in ast, where, "the lock file is removed although background workers might still write to the data directory")
            self.req("lock-kept-until-idle", "remove lock file before unlocking", "unlocked" not in ast, where, "the lock file is removed after it was unlocked: it might already belong to another process")
            return [(ast, OK(UNIT)), (ast, ERR())]
        if sh in locks.PRIM and dty is not None:
            for c, m in locks.cls(dty):
                if c == "usize":
                    g = ("x", "guard", "W")
                    return [(ast, OK(g))] if self.root in ("drop", "finish") else [(ast, OK(g)), (ast, ERR())]
                if c == "cache entry" and self.root == "worker":
                    self.count["worker uses"] = self.count.get("worker uses", 0) + 1
                    self.req("finish-always-reported", "%s: uses the corpus" % short(body.name), "guarded" in ast, where,
                             "a background worker uses a corpus while nothing ensures that it is reported as finished: an error or panic blocks the destructor of the corpus storage for ever, or it stops waiting too early")
        if sh in ("Condvar::wait", "Condvar::wait_timeout"):
            return [(ast - {"idle"}, OK(("x", "guard", "W")))]
        if sh in ("Condvar::wait_while",):
            return [(ast | {"idle"}, OK(("x", "guard", "W")))]
        if sh in ("Condvar::notify_one", "Condvar::notify_all"):
            return [(ast | {"notified"}, UNIT)]
        if pl.endswith(SPAWNF):
            c = captures_corpus(body, t)
            if c:
                self.count["workers started"] = self.count.get("workers started", 0) + 1
                self.spawned[c] = where
                self.req("worker-is-counted", "%s: starts a background worker" % short(body.name), "counted" in ast, where,
                         "a background worker with access to a corpus is started without counting it as running first: the lock of the directory can be given up while it writes")
                return [(ast - {"counted"}, None)]
        return None

    def ret(self, ip, body, ast, val):
        return ast, val


def c11(prog, rep):
    rep.rule("directory-is-locked", "a corpus storage is only created after the exclusive lock was acquired on the file that it keeps as its lock file")
    rep.rule("worker-is-counted", "a thread with access to a corpus is only started after it was counted as running, and nothing returns between counting and starting")
    rep.rule("finish-always-reported", "every background worker is covered by a destructor that reports it as finished before it uses the corpus")
    rep.rule("lock-kept-until-idle", "the destructor removes the lock file and unlocks it, in this order, only after it has seen that no background worker is running")
    cl = Owner(prog, rep)
    # destructors that report a worker as finished
    ip = Interp(prog, cl)
    cl.root = "finish"
    stores = []
    for im in prog.impls_by_trait.get("core::ops::drop::Drop", []):
        if im["crate"] != CRATE or im["selfty"].k != "adt":
            continue
        for it in im["items"]:
            b = prog.bodies.get(it["id"])
            if b is None:
                continue
            if im["selfty"].is_adt("CorpusStorage"):
                stores.append(b)
                continue
            outs = ip.run(b.id, (("x", "worker"),), frozenset()) if b.id in cl.hot else None
            if outs and all({"dec", "notified"} <= a for a, _v, _m in outs):
                cl.finishers.add(im["selfty"].d)
    rep.extra["finishing_guards"] = sorted(cl.finishers)
    rep.floor("anchors", "types whose destructor reports a worker as finished", len(cl.finishers), 1)
    # constructors and public operations
    ip = Interp(prog, cl)
    cl.root = "op"
    builders = [b for b in prog.bodies.values() if b.crate == CRATE and cl.builds(b, "CorpusStorage")]
    roots = builders + [b for b in storage_roots(prog) if b.trait is None]
    for b in roots:
        if b.id not in cl.hot:
            continue
        outs = ip.run(b.id, (("x", "self"),) + (None,) * max(0, b.argc - 1) if b not in builders else (None,) * b.argc, frozenset())
        for a, _v, _m in outs or ():
            if "counted" in a:
                cl.req("worker-is-counted", "%s: counts a background worker" % short(b.name), False, loc(b), "a background worker is counted as running but not started: the destructor of the corpus storage waits for ever")
    # every start of a thread with access to a corpus is part of a public operation
    for b in prog.bodies.values():
        if b.crate == CRATE and b.kind != "promoted":
            for _i, t in b.calls():
                f = callee(t)
                if f and plain(f["n"]).endswith(SPAWNF):
                    c = captures_corpus(b, t)
                    if c and c not in cl.spawned:
                        cl.req("worker-is-counted", "%s: starts a background worker" % short(b.name), False, loc(b, t.get("l")), "a thread with access to a corpus is started outside of the analysed operations")
    rep.fns(ip.stats["functions"])
    # the workers
    ip = Interp(prog, cl)
    cl.root = "worker"
    nw = 0
    for c in sorted(cl.spawned):
        nw += 1
        outs = ip.run(c, (None,) * prog.bodies[c].argc, frozenset())
    rep.fns(ip.stats["functions"])
    # the destructor
    ip = Interp(prog, cl)
    cl.root = "drop"
    for b in stores:
        outs = ip.run(b.id, (("x", "self"),), frozenset())
        for a, _v, _m in outs or ():
            cl.req("lock-kept-until-idle", "destructor of the corpus storage", "idle" in a, loc(b), "the destructor of the corpus storage ends, and with it the lock of the directory, while background workers might still write")
    rep.fns(ip.stats["functions"])
    cl.flush()
    rep.floor("anchors", "destructor of the corpus storage", len(stores), 1)
    rep.floor("anchors", "places that create a corpus storage", cl.count.get("storages created", 0), 1)
    rep.floor("anchors", "background workers", nw, 1)
    rep.floor("anchors", "uses of a corpus by background workers", cl.count.get("worker uses", 0), 1)


def has_comp(ty):
    return ty is not None and any(x.is_adt("Component") for x in ty.walk())


class Loaded(Client):
    """C13 for the corpus storage"""

    def __init__(self, prog, rep):
        self.prog = prog
        self.rep = rep
        self.seen = {}
        self.count = {}
        ev, op = set(), set()
        for b in prog.bodies.values():
            if b.crate != CRATE:
                continue
            for _i, t in b.calls():
                f = callee(t)
                if f and short(f["n"]) in self.EV:
                    ev.add(b.id)
                if f and short(f["n"]) == "Graph::open":
                    op.add(b.id)
        self.loaders = reach_back(prog, op)
        reads = {b.id for b in prog.bodies.values() if b.id in ev and any(callee(t) and short(callee(t)["n"]) in self.EV - self.QUESTIONS for _i, t in b.calls())}
        # functions that neither load nor read can only matter if they determine components
        full = reach_back(prog, reads)
        self.hot = {x for x in reach_back(prog, ev) if prog.bodies[x].crate == CRATE and (x in full or prog.bodies[x].kind == "closure" or has_comp(prog.bodies[x].ltys[0]))}

    QUESTIONS = {"Graph::get_all_components", "Graph::is_loaded"}

    def loads_in_loop(self, body, bb):
        """is a corpus loaded in the innermost loop around this block?"""
        inner = [x for x in body.loops().values() if bb in x]
        if not inner:
            return False
        for i in min(inner, key=len):
            tt = body.bbs[i]["t"]
            if tt["k"] == "call" and any(x in self.loaders for x in self.prog.targets(body, callee(tt))):
                return True
        return False

    EV = {"Graph::get_all_components", "Graph::ensure_loaded", "Graph::ensure_loaded_all", "Graph::ensure_loaded_parallel", "Graph::is_loaded",
          "Disjunction::necessary_components", "Graph::persist_to", "ExecutionPlan::from_disjunction", "subgraph::create_subgraph_for_iterator", "graphml::export",
          "graphml::export_stable_order"}

    def interesting(self, bid):
        return bid in self.hot

    req = Exclusive.req
    flush = Exclusive.flush

    def need(self, rule, body, t, what, good, msg):
        self.count["reads"] = self.count.get("reads", 0) + 1
        self.req(rule, "%s: %s" % (short(body.name), what), good, loc(body, t.get("l")), msg)

    def field(self, ip, body, base, name, owner):
        if base is not None and base[0] == "x" and base[1] == "isl" and name == "0":
            return ("x", "gs", base[2])
        return None

    def branch(self, ip, body, bb, ast, sym, taken):
        if sym[1] == "isl":
            if taken in (1, "Some"):
                return ast - {("cur", sym[2])}
        if sym[1] == "mempty" and taken == 1:
            return self.done(ast)
        return ast

    @staticmethod
    def done(ast):
        return ast | {("loaded", f[1]) for f in ast if f[0] == "pend"}

    @staticmethod
    def full(ast):
        return ("loaded", "all") in ast

    def exhaust(self, ast, T):
        if ("cur", T) in ast:
            ast = ast - {("cur", T)} | {("bad", T)}
        bad, ins = ("bad", T) in ast, ("ins", T) in ast
        ast = ast - {("bad", T), ("ins", T)}
        if bad:
            return ast
        return ast | {("pend", T)} if ins else ast | {("loaded", T)}

    def nxt(self, ast, v):
        T = v[2]
        if ("cur", T) in ast:
            ast = ast - {("cur", T)} | {("bad", T)}
        return [(ast | {("cur", T)}, SOME(("x", "celem", T))), (self.exhaust(ast, T), NONE)]

    def into_set(self, ip, body, bb, t, f, ast, it):
        """all elements of an iterator over components go into a set: resulting states, or None if the iterator is not known"""
        if it is None:
            return None
        v = it
        while (variant(v) or "").startswith("iter:"):
            v = fget(v, "0")
        if v is None or v[0] != "x" or v[1] not in ("comps", "cset"):
            return None
        if v[1] == "cset":
            return [ast] if v is it else None
        out, seen, work = set(), set(), [ast]
        while work:
            a = work.pop()
            if a in seen:
                continue
            seen.add(a)
            for a2, el in (self.nxt(a, it) if it[0] == "x" else ip.step(body, bb, t, f, a, it)):
                if variant(el) == "None":
                    out.add(a2)
                    continue
                p = fget(el, "0")
                if p is not None and p[0] == "x" and p[1] == "celem" and ("cur", p[2]) in a2:
                    a2 = a2 - {("cur", p[2])} | {("ins", p[2])}
                work.append(a2)
        return list(out)

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return None
        sh, pl = short(f["n"]), plain(f["n"])
        a0 = args[0] if args else None
        m = sh.rsplit("::", 1)[-1]
        dty = body.ltys[t["d"][0]] if len(t["d"]) == 1 else None
        sym0 = a0 is not None and a0[0] == "x"
        for a in args:
            if a is not None and a[0] == "x" and a[1] == "gs":
                self.need("loaded-before-searched", body, t, "edges of %s components" % (a[2] if isinstance(a[2], str) else "all"), self.full(ast) or ("loaded", a[2]) in ast,
                          "edges are read from components that might not be loaded: they would be treated as empty")
        # collections of components
        if m in ("new", "default", "with_capacity") and dty is not None and dty.k == "adt" and dty.d.rsplit("::", 1)[-1] in ("Vec", "HashSet", "BTreeSet", "IndexSet") and has_comp(dty):
            return [(ast, ("x", "cset"))]
        if sym0 and a0[1] in ("comps", "cset") and m in ("iter", "into_iter", "cloned", "copied", "by_ref", "as_slice", "drain", "par_iter", "into_par_iter", "iter_mut", "rev", "as_ref", "deref"):
            return [(ast, a0)]
        if m == "next" and sym0 and a0[1] == "comps":
            return self.nxt(ast, a0)
        if m == "next" and sym0 and a0[1] == "cset":
            a = ast
            if "mcur" in a:
                a = a - {"mcur"} | {"mbad"}
            e = a - {"mbad"} if "mbad" in a else self.done(a)
            return [(a | {"mcur"}, SOME(("x", "melem"))), (e, NONE)]
        if m == "collect" or m == "from_iter":
            r = self.into_set(ip, body, bb, t, f, ast, a0)
            if r is not None:
                return [(a, ("x", "cset")) for a in r]
            return None
        if sym0 and a0[1] == "cset" and m in ("insert", "push", "push_back"):
            e = args[1] if len(args) > 1 else None
            if e is not None and e[0] == "x" and e[1] == "celem" and ("cur", e[2]) in ast:
                ast = ast - {("cur", e[2])} | {("ins", e[2])}
            return [(ast, None)]
        if sym0 and a0[1] == "cset" and m == "extend":
            r = self.into_set(ip, body, bb, t, f, ast, args[1] if len(args) > 1 else None)
            return [(a, UNIT) for a in r] if r is not None else [(ast, UNIT)]
        if sym0 and a0[1] == "cset" and m in ("remove", "swap_remove", "retain", "clear", "truncate", "pop", "take", "shift_remove"):
            e = args[1] if len(args) > 1 else None
            if e is not None and e[0] == "x" and e[1] == "celem":
                if ("cur", e[2]) in ast:
                    ast = ast - {("pend", e[2])}
            else:
                ast = frozenset(x for x in ast if x[0] != "pend")
            return [(ast, None)]
        if sym0 and a0[1] == "cset" and m == "is_empty":
            return [(ast, ("x", "mempty"))]
        # the graph
        if sh == "Graph::get_all_components":
            ct, nm = (args + [None] * 3)[1:3]
            T = "?"
            if variant(nm) == "None":
                if variant(ct) == "None":
                    T = "all"
                elif variant(ct) == "Some" and variant(fget(ct, "0")):
                    T = variant(fget(ct, "0"))
                elif variant(ct) == "Some" and fget(ct, "0") is not None:
                    T = fget(ct, "0")
                elif ct is not None and ct[0] == "x":
                    T = ct
            return [(ast, ("x", "comps", T))]
        if sh.endswith("::necessary_components") and has_comp(dty):
            return [(ast, ("x", "comps", "need"))]
        if sh in ("Graph::is_loaded", "Graph::get_graphstorage", "Graph::get_graphstorage_as_ref"):
            e = args[1] if len(args) > 1 else None
            if e is not None and e[0] == "x" and e[1] == "celem":
                return [(ast, ("x", "isl", e[2]))]
            return None
        if sh == "Graph::ensure_loaded_all":
            return [(ast | {("loaded", "all")}, OK(UNIT)), (ast, ERR())]
        if sh == "Graph::ensure_loaded":
            e = args[1] if len(args) > 1 else None
            good = ast
            if e is not None and e[0] == "x" and e[1] == "celem":
                good = ast - {("cur", e[2])}
            if e is not None and e[0] == "x" and e[1] == "melem":
                good = ast - {"mcur"}
            return [(good, OK(UNIT)), (ast, ERR())]
        if sh == "Graph::ensure_loaded_parallel":
            e = args[1] if len(args) > 1 else None
            good = ast
            if e is not None and e[0] == "x":
                if e[1] == "cset":
                    good = self.done(ast)
                elif e[1] == "comps":
                    good = ast | {("loaded", e[2])}
            return [(good, OK()), (ast, ERR())]
        if sh in ("Graph::new", "Graph::with_default_graphstorages"):
            return [(ast | {("loaded", "all")}, OK()), (ast, ERR())]
        if sh == "Graph::open":
            return [(frozenset(x for x in ast if x[0] not in ("loaded", "pend")), OK(UNIT)), (ast, ERR())]
        # queries
        if pl.endswith("aql::parse"):
            return [(ast, OK(("x", "parsed"))), (ast, ERR())]
        if m == "add_operator" and sh.startswith("Conjunction::"):
            return [(ast | {"ops"}, OK(UNIT)), (ast, ERR())]
        # reading
        if sh == "Graph::persist_to":
            self.need("loaded-before-saved", body, t, sh, self.full(ast), "a graph is saved although some of its components might not be loaded")
            return [(ast, OK(UNIT)), (ast, ERR())]
        if sh in ("graphml::export", "graphml::export_stable_order"):
            self.need("loaded-before-exported", body, t, sh, self.full(ast), "a graph is exported although some of its components might not be loaded: their edges would be missing")
            return [(ast, OK(UNIT)), (ast, ERR())]
        if sh == "ExecutionPlan::from_disjunction":
            if a0 == ("x", "parsed"):
                good = self.full(ast) or ("loaded", "need") in ast
            elif "ops" in ast:
                good = self.full(ast)
            else:
                good = "operation" in ast or self.full(ast)
            self.need("loaded-before-searched", body, t, sh, good, "a query is executed although the components its operators need might not be loaded: they would be treated as empty")
            return [(ast, OK()), (ast, ERR())]
        if sh == "subgraph::create_subgraph_for_iterator":
            flt = args[3] if len(args) > 3 else None
            good = self.full(ast)
            if not good and flt is not None:
                if variant(flt) == "Some":
                    p = fget(flt, "0")
                    good = ("loaded", variant(p) or p) in ast
                elif flt[0] == "x":
                    good = ("loaded", flt) in ast
            self.need("loaded-before-copied", body, t, sh, good, "a sub-graph is created from components that might not be loaded: their edges would be missing")
            return [(ast, OK()), (ast, ERR())]
        # each corpus is loaded on its own
        if m == "next" and dty is not None and dty.is_adt("core::option::Option") and (is_str(dty.a[0]) or dty.a[0].peel().k == "param") and not sym0 and self.loads_in_loop(body, bb):
            return [(frozenset(x for x in ast if x == "operation"), SOME()), (ast, NONE)]
        return None


class CoreLoaded(Client):
    """C13 for the operations of a graph"""

    def __init__(self, prog, rep):
        self.prog = prog
        self.rep = rep
        self.seen = {}
        self.count = {}
        self.mod = {b.id for b in prog.bodies.values() if b.crate == "graphannis_core" and b.file.endswith("graph/mod.rs")}
        self.savers, self.appliers = set(), set()
        for i in self.mod:
            b = prog.bodies[i]
            for _bb, t in b.calls():
                f = callee(t)
                if f and short(f["n"]) == "GraphStorage::save_to":
                    self.savers.add(prog.root_fn(i).id)
                if f and short(f["n"]).endswith("::before_update_event"):
                    self.appliers.add(prog.root_fn(i).id)
        self.root = None

    def interesting(self, bid):
        return bid in self.mod

    req = Exclusive.req
    flush = Exclusive.flush

    def field(self, ip, body, base, name, owner):
        if base is None or base == ("x", "self"):
            if owner.endswith("graph::Graph") and name == "components":
                return ("x", "map")
            return None
        if base == ("x", "entry"):
            return {"1": ("x", "data")}.get(name)
        return None

    def branch(self, ip, body, bb, ast, sym, taken):
        if sym == ("x", "data"):
            return ast | {"unloaded"} if taken == "None" else ast - {"unloaded"}
        return ast

    def assign(self, ip, body, bb, stmt, ast, env):
        p = stmt["p"]
        if len(p) > 1 and isinstance(p[-1], list) and p[-1][0] == "." and p[-1][1] == "components" and p[-1][2].endswith("graph::Graph"):
            return ast - {"full"}
        return ast

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return None
        sh = short(f["n"])
        m = sh.rsplit("::", 1)[-1]
        a0 = args[0] if args else None
        tg = ip.prog.targets(body, f)
        if sh == "Graph::ensure_loaded_all":
            return [(ast | {"full"}, OK(UNIT)), (ast, ERR())]
        if sh in ("Path::exists", "Path::is_file", "Path::is_dir", "Path::try_exists"):
            return [(ast, TRUE), (ast, FALSE)] if m != "try_exists" else [(ast, OK(TRUE)), (ast, OK(FALSE)), (ast, ERR())]
        if a0 == ("x", "map"):
            if m in ("iter", "into_iter", "iter_mut", "values", "range"):
                return [(ast, ("x", "map"))]
            if m == "next":
                return [(ast, SOME(("x", "entry"))), (ast, NONE)]
            if m == "clear":
                return [(ast | {"full"}, UNIT)]
        if self.root == "op":
            for x in tg:
                if x in self.savers:
                    self.count["saves"] = self.count.get("saves", 0) + 1
                    self.req("loaded-before-saved", "%s: saves the graph" % short(body.name), True, "", "")
                    if body.id not in self.savers and "full" not in ast and not ("shared" in ast):
                        self.req("loaded-before-saved", "%s: saves the graph" % short(body.name), False, loc(body, t.get("l")), "a graph is saved although some of its components might not be loaded")
                    return [(ast, OK(UNIT)), (ast, ERR())]
                if x in self.appliers:
                    self.count["updates"] = self.count.get("updates", 0) + 1
                    self.req("loaded-before-updated", "%s: updates the graph" % short(body.name), "full" in ast, loc(body, t.get("l")),
                             "an update is applied although some components of the graph might not be loaded: edges in them are not updated and the following save would miss them")
                    return [(ast, OK(UNIT)), (ast, ERR())]
            if sh.endswith("::calculate_global_statistics"):
                self.req("loaded-before-analysed", "%s: calculates statistics" % short(body.name), "full" in ast, loc(body, t.get("l")), "statistics are calculated although some components of the graph might not be loaded")
                return [(ast, OK(UNIT)), (ast, ERR())]
        return None


def c13(prog, rep):
    rep.rule("loaded-before-saved", "all components are loaded before a graph is saved, and a component that is not loaded makes saving fail")
    rep.rule("loaded-before-updated", "all components are loaded before updates are applied")
    rep.rule("loaded-before-analysed", "all components are loaded before global statistics are calculated")
    rep.rule("loaded-before-exported", "all components are loaded before a corpus is exported")
    rep.rule("loaded-before-searched", "the components a query needs are loaded before it is executed")
    rep.rule("loaded-before-copied", "all components that are copied into a sub-graph are loaded before")
    # operations of a single graph
    cl = CoreLoaded(prog, rep)
    rep.floor("anchors", "functions that write all components of a graph", len(cl.savers), 1)
    rep.floor("anchors", "functions that apply update events", len(cl.appliers), 1)
    for s in sorted(cl.savers):
        ip = Interp(prog, cl)
        cl.root = "save"
        outs = ip.run(s, (("x", "self"),) + (None,) * (prog.bodies[s].argc - 1), frozenset())
        bad = [a for a, v, _m in outs or () if variant(v) != "Err" and "unloaded" in a]
        seen = any(True for _ in (outs or ()))
        cl.req("loaded-before-saved", "%s: component that is not loaded" % short(prog.bodies[s].name), seen and not bad, loc(prog.bodies[s]),
               "a component that is not loaded is skipped when the graph is saved: it is lost when the saved version replaces the old one")
        rep.fns(ip.stats["functions"])
    ip = Interp(prog, cl)
    cl.root = "op"
    n = 0
    for i in sorted(cl.mod):
        b = prog.bodies[i]
        if b.kind != "method" or not b.pub or b.selfty is None or not b.selfty.is_adt("Graph") or b.argc < 1:
            continue
        t = b.ltys[1]
        if not (t.k == "ref" and t.peel_refs().is_adt("Graph")):
            continue
        n += 1
        # a graph that is given by a shared reference can not load anything itself
        ip.run(i, (("x", "self"),) + (None,) * (b.argc - 1), frozenset() if t.mut and b.method != "persist_to" else frozenset(["shared"]))
    rep.fns(ip.stats["functions"])
    cl.flush()
    rep.floor("anchors", "public operations of a graph", n, 15)
    rep.floor("anchors", "saving of a graph", cl.count.get("saves", 0), 3)
    rep.floor("anchors", "applied updates", cl.count.get("updates", 0), 3)
    # the corpus storage
    cl = Loaded(prog, rep)
    ip = Interp(prog, cl)
    roots = storage_roots(prog) + [b for b in prog.bodies.values() if b.crate == CRATE and b.kind == "fn" and b.pub and b.id in cl.hot]
    n = 0
    for b in roots:
        if b.id not in cl.hot:
            continue
        n += 1
        storage = b.kind == "method"
        args = [("x", "self")] if storage else []
        for i in range(len(args) + 1, b.argc + 1):
            t = b.ltys[i].peel_refs()
            if t.is_adt("core::option::Option") and any(x.is_adt("AnnotationComponentType") for x in t.walk()):
                args.append(("x", "ctype", b.lnames[i] or str(i)))
            elif t.is_adt("Disjunction"):
                args.append(("x", "parsed"))
            else:
                args.append(None)
        ip.run(b.id, tuple(args), frozenset(["operation"]) if storage else frozenset())
    cl.flush()
    rep.fns(ip.stats["functions"])
    rep.extra["abstract_states"] = ip.stats["states"]
    rep.floor("anchors", "operations of the corpus storage that read corpora", n, 10)
    rep.floor("anchors", "reading of loaded corpora", cl.count.get("reads", 0), 6)


def check(pid, prog, rep):
    {"C11": c11, "C12": c12, "C13": c13}[pid](prog, rep)
