"""C29: an existing corpus is only replaced when this was requested, and operations do not bring corpora into being.

Every public operation of the corpus storage is interpreted with the facts that hold on a path: whether the corpus directory
and the cache entry are known to (not) exist while the cache is locked exclusively, and whether overwriting was requested."""
import re
from ..facts import callee, short, plain
from ..interp import Client, Interp, OK, ERR, SOME, NONE, TRUE, FALSE, UNIT, variant, fget, reach_back
from ..report import loc
from .locks import cls

CRATE = "graphannis"
MUTFS = {"fs::create_dir_all", "fs::create_dir", "fs::write", "File::create", "fs::copy", "fs::rename", "File::create_new"}
DELFS = {"fs::remove_dir_all", "fs::remove_dir", "fs::remove_file"}
GRAPHW = {"persist_to", "save_to"}


def cache_guard(ty):
    return {m for c, m in cls(ty) if c == "corpus cache"}


def is_cache(ty):
    t = ty.peel()
    return t.k == "adt" and t.d.endswith("LinkedHashMap") and "CacheEntry" in t.s


class Exist(Client):
    def __init__(self, prog, hot, storage, pathfields):
        self.prog, self.hot, self.storage, self.pathfields = prog, hot, storage, pathfields
        self.events = {}
        self.ow_root = False

    def interesting(self, bid):
        return bid in self.hot

    def field(self, ip, body, base, name, owner):
        if name in self.pathfields and (base is None or base[0] == "x") and (owner or "").endswith("CorpusStorage"):
            return ("x", "path", 0)
        if base is not None and base[0] == "x" and base[1] == "self" and name in self.pathfields:
            return ("x", "path", 0)
        return None

    def branch(self, ip, body, bb, ast, sym, taken):
        if sym == ("x", "ow") and taken in (0, 1):
            f = "ow" if taken else "noow"
            if ("noow" if taken else "ow") in ast:
                return None
            return ast | {f}
        return ast

    def drop(self, ip, body, bb, ast, val, ty):
        if val is not None and self.guard(val):
            return ast - {"lock", "dir", "nodir", "has", "nohas", "opened", "created"}
        return ast

    def guard(self, v):
        if v is None:
            return False
        if v == ("x", "guard"):
            return True
        return v[0] == "a" and not (v[1] or "").startswith("fn:") and any(self.guard(x) for _n, x in v[2])

    def ev(self, body, t, kind, ast, what):
        key = (kind, body.id, t.get("ln"))
        self.events.setdefault(key, []).append((ast, what))

    def assign(self, ip, body, bb, s, ast, env):
        p = s["p"]
        if p[-1] == "*" and len(p) == 2:
            ty = body.ltys[p[0]]
            if ty.k == "ref" and ty.mut and ty.peel().k == "adt" and ty.peel().d.endswith("CacheEntry"):
                self.ev(body, s, "detach", ast, "the data of the corpus is taken away from its users")
        return ast

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return None
        n = plain(f["n"])
        sh = short(f["n"])
        last = n.rsplit("::", 1)[-1]
        a0 = args[0] if args else None
        if sh in ("RwLock::write", "RwLock::read", "RwLock::try_write") and len(t["d"]) == 1:
            m = cache_guard(body.ltys[t["d"][0]])
            if "w" in m:
                return [(ast | {"lock"}, OK(("x", "guard"))), (ast, ERR())]
            return None
        if sh == "mem::drop" and self.guard(a0):
            return [(self.drop(ip, body, bb, ast, a0, None), UNIT)]
        if a0 is not None and a0[0] == "x" and a0[1] == "path":
            d = a0[2]
            if last in ("join", "with_file_name", "push") and sh.split("::")[0] in ("Path", "PathBuf"):
                return [(ast, ("x", "path", d + 1))]
            if sh in ("Path::is_dir", "Path::exists", "Path::try_exists", "fs::exists", "Path::is_file") and d == 1:
                return self.fork(ast, "dir", "nodir", sh in ("Path::try_exists", "fs::exists"))
            if sh in ("fs::metadata", "fs::read_dir", "Path::metadata") and d == 1:
                y = self.fork(ast, "dir", "nodir", False)
                return [(a, OK() if v == TRUE else ERR()) for a, v in y]
            if sh in MUTFS and d >= 1:
                if self.ow_root or sh.startswith("fs::create_dir"):
                    self.ev(body, t, "create", ast, "%s writes to the directory of the corpus" % sh)
                a = (ast - {"nodir"}) | {"created"} if "nodir" in ast or "created" in ast or "ow" in ast else ast
                return [(a, OK()), (ast, ERR())]
            if sh in DELFS and d >= 1:
                self.ev(body, t, "destroy", ast, "%s deletes files of the corpus" % sh)
                return [((ast - {"dir"}) | {"nodir"} if "lock" in ast else ast, OK()), (ast, ERR())]
        if sh in ("fs::copy", "fs::rename") and len(args) > 1 and args[1] is not None and args[1][:2] == ("x", "path") and args[1][2] >= 1:
            self.ev(body, t, "create", ast, "%s writes to the directory of the corpus" % sh)
            return [(ast, OK()), (ast, ERR())]
        gid = f.get("res") or f.get("id")
        gb = self.prog.bodies.get(gid)
        if gb is not None and gb.crate == CRATE and gb.selfty is not None and gb.selfty.peel().k == "adt" and gb.selfty.peel().d == self.storage["id"] and gb.ltys[0].peel().is_adt("std::path::PathBuf"):
            return [(ast, ("x", "path", 1))]
        if gb is not None and gb.crate == "graphannis_core" and last in ("persist_to", "save_to", "open") and len(args) > 1 and args[1] is not None and args[1][:2] == ("x", "path"):
            if last == "open":
                a = ast | {"opened"} if "lock" in ast and "dir" in ast else ast
                return [(a, OK()), (ast, ERR())]
            self.ev(body, t, "create", ast, "%s writes the corpus to its directory" % last)
            return [((ast - {"nodir"}) | {"created", "made"}, OK()), (ast, ERR())]
        if t["args"] and "p" in t["args"][0]:
            rt = body.ltys[t["args"][0]["p"][0]] if len(t["args"][0]["p"]) == 1 else None
            if rt is not None and is_cache(rt):
                if last in ("contains_key", "get", "get_mut", "get_refresh"):
                    y = self.fork(ast, "has", "nohas", False)
                    if last == "contains_key":
                        return y
                    return [(a, SOME() if v == TRUE else NONE) for a, v in y]
                if last == "remove":
                    self.ev(body, t, "forget", ast, "the loaded corpus is removed from the cache")
                    y = self.fork(ast, "has", "nohas", False)
                    return [((a - {"has"}) | ({"nohas"} if "lock" in a else set()), SOME() if v == TRUE else NONE) for a, v in y]
                if last == "insert":
                    self.ev(body, t, "insert", ast, "a corpus is entered in the cache")
                    return [((ast - {"nohas"}) | ({"has"} if "lock" in ast else set()), None)]
                if last == "entry":
                    return [(ast, ("x", "slot"))]
        if a0 == ("x", "slot") and last.startswith("or_") or (a0 == ("x", "slot") and last == "insert"):
            self.ev(body, t, "insert", ast, "a corpus is entered in the cache")
            return [(ast, None)]
        if last in ("as_path", "as_ref", "deref", "to_path_buf", "clone", "borrow", "to_owned", "into") and a0 is not None and a0[0] == "x" and a0[1] == "path":
            return [(ast, a0)]
        return None

    def fork(self, ast, yes, no, res):
        w = (lambda v: OK(v)) if res else (lambda v: v)
        if "lock" not in ast:
            return [(ast, w(TRUE)), (ast, w(FALSE))]
        out = []
        if no not in ast:
            out.append((ast | {yes}, w(TRUE)))
        if yes not in ast:
            out.append((ast | {no}, w(FALSE)))
        return out


def allowed(kind, ast):
    if kind == "create":
        return "ow" in ast or "nodir" in ast or "created" in ast
    if kind in ("destroy", "forget", "detach"):
        return "ow" in ast or ("nodir" in ast and kind != "detach") or (kind == "forget" and ("opened" in ast or "created" in ast))
    return bool({"ow", "created", "opened", "dir", "has"} & ast)


WHY = {
    "create": "without overwriting requested and without the corpus known to be missing while the cache is locked",
    "destroy": "without overwriting requested",
    "forget": "without overwriting requested and without the corpus known to be missing",
    "detach": "without overwriting requested",
    "insert": "although it is not known to exist on disk",
}


def c29(prog, rep):
    storages = [a for k, a in prog.adts.items() if k.endswith("::CorpusStorage") and k.startswith(CRATE + "::")]
    rep.floor("existing-corpora-are-kept", "corpus storage types", len(storages), 1)
    if not storages:
        return
    st = storages[0]
    stid = st["id"]
    pathfields = {n for n, t, _p in st["variants"][0]["f"] if t.k == "adt" and t.d.endswith("PathBuf")}
    bodies = {i: b for i, b in prog.bodies.items() if b.crate == CRATE and b.kind != "promoted"}
    seeds = set()
    for b in bodies.values():
        if "corpusstorage" not in b.id:
            continue
        for _i, t in b.calls():
            f = t["f"].get("fn")
            if not f:
                continue
            sh, last = short(f["n"]), plain(f["n"]).rsplit("::", 1)[-1]
            rt = b.ltys[t["args"][0]["p"][0]] if t["args"] and "p" in t["args"][0] else None
            if sh in MUTFS | DELFS or last in GRAPHW or sh in ("Path::is_dir", "Path::exists", "Path::try_exists", "fs::exists") or (rt is not None and is_cache(rt) and last in ("insert", "remove", "contains_key", "get", "entry")) \
                    or (len(t["d"]) == 1 and cache_guard(b.ltys[t["d"][0]]) and sh.startswith("RwLock")) or (last in ("join", "push") and sh.startswith("Path")):
                seeds.add(b.id)
    back = reach_back(prog, seeds)
    # cleaning up the cache concerns all corpora and keeps their files
    hot = {i for i in back if i in bodies and "corpusstorage" in i and not evicts(prog, bodies[i], st)}
    roots = [b for b in bodies.values() if b.kind == "method" and b.pub and b.selfty is not None and b.selfty.peel().k == "adt" and b.selfty.peel().d == stid and b.id in hot and not b.trait]
    nev = nroots = creators = 0
    flagged = {}
    for b in sorted(roots, key=lambda b: b.id):
        name = b.name.rsplit("::", 1)[-1]
        cl = Exist(prog, hot, st, pathfields)
        args = [None] * b.argc
        bools = [i for i in range(b.argc) if b.ltys[i + 1].s == "bool"]
        owp = [i for i in bools if re.search(r"over(write|ride)|replace|force", b.lnames[i + 1] or "")]
        if b.argc and b.ltys[1].peel().k == "adt" and b.ltys[1].peel().d == st["id"]:
            args[0] = ("x", "self")
        else:
            continue                # constructors
        if owp:
            args[owp[0]] = ("x", "ow")
            cl.ow_root = True
            flagged[b.id] = owp[0]
        ip = Interp(prog, cl)
        outs = ip.run(b.id, tuple(args), frozenset()) or set()
        rep.fns(ip.stats["functions"])
        nroots += 1
        kinds = {k for k, _b, _l in cl.events}
        creating = "create" in kinds
        creators += creating
        bad = set()
        for (kind, bid, ln), xs in sorted(cl.events.items(), key=str):
            if kind in ("destroy", "forget", "detach") and not creating:
                continue
            if kind == "create" and not creating:
                continue
            nev += 1
            for ast, what in xs:
                if not allowed(kind, ast):
                    fn = bodies[bid].name.rsplit("::", 1)[-1]
                    if (kind, fn) not in bad:
                        bad.add((kind, fn))
                        rep.bad("existing-corpora-are-kept" if kind != "insert" else "missing-corpora-stay-missing", "%s: %s in %s" % (name, kind, fn), loc(bodies[bid], ln), "%s %s" % (what, WHY[kind]))
        if not bad:
            rep.ok("existing-corpora-are-kept" if creating else "missing-corpora-stay-missing", "%s: %d events" % (name, len(cl.events)))
        if creating and name not in CREATORS(b, cl):
            rep.bad("missing-corpora-stay-missing", "%s creates a corpus" % name, loc(b), "this operation creates the corpus if it does not exist")
        # what the operation reports
        if creating:
            inner = b.ltys[0].a[0].s if b.ltys[0].a else ""
            oks = [(a, fget(v, "0")) for a, v, _m in outs if variant(v) == "Ok"]
            wrong = None
            if inner.endswith("String") and cl.ow_root and any("made" not in a for a, _v in oks):
                wrong = "reports success without having written the corpus"
            if inner == "bool":
                if any(v == TRUE and "made" not in a for a, v in oks):
                    wrong = "reports a new corpus without having created it"
                if any(v == FALSE and "made" in a for a, v in oks):
                    wrong = "reports that nothing was created although a corpus was written"
                if any(v not in (TRUE, FALSE) for a, v in oks):
                    wrong = "the reported result is not decided by whether a corpus was created"
            if wrong:
                rep.bad("reports-what-happened", name, loc(b), wrong)
            elif inner.endswith("String") or inner == "bool":
                rep.ok("reports-what-happened", name)
    callers_flag(prog, rep, flagged)
    rep.floor("existing-corpora-are-kept", "public operations", nroots, 15)
    rep.floor("existing-corpora-are-kept", "operations that create a corpus", creators, 3)
    rep.floor("existing-corpora-are-kept", "events", nev, 12)


OW = re.compile(r"over(write|ride)|replace|force")


def named(body, o, depth=0):
    """does the value come from a request field or parameter for overwriting?"""
    if "p" not in o or depth > 8:
        return False
    p = o["p"]
    for x in reversed(p[1:]):
        if isinstance(x, (list, dict)):
            n = x["n"] if isinstance(x, dict) and "n" in x else (x[1] if isinstance(x, list) and len(x) > 1 else None)
        else:
            n = x
        if isinstance(n, str) and OW.search(n):
            return True
    if OW.search(body.lnames[p[0]] or "") and p[0] <= body.argc:
        return True
    for kind, d in defsof(body, p[0]):
        if kind == "=" and d["k"] in ("use", "ref", "cast"):
            if named(body, d["o"][0] if "o" in d else {"p": d["p"]}, depth + 1):
                return True
        if kind == "call" and d["args"] and short(callee(d)["n"] if callee(d) else "x").split("::")[-1] in ("clone", "deref", "into", "unwrap_or", "unwrap_or_default", "into_inner"):
            if named(body, d["args"][0], depth + 1):
                return True
    return False


def defsof(body, local):
    for bb in body.bbs:
        for s in bb["s"]:
            if s["k"] == "=" and s["p"][0] == local and len(s["p"]) == 1:
                yield "=", s["r"]
        t = bb["t"]
        if t["k"] == "call" and t["d"] == [local]:
            yield "call", t


def callers_flag(prog, rep, flagged):
    n = 0
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.crate in (CRATE, "graphannis_core") or b.kind == "promoted":
            continue
        for _i, t in b.calls():
            f = callee(t)
            fid = f and (f.get("res") or f["id"])
            if fid not in flagged:
                continue
            n += 1
            who = b.name.split("::{", 1)[0].rsplit("::", 1)[-1]
            if named(b, t["args"][flagged[fid]]):
                rep.ok("the-request-decides", who)
            else:
                rep.bad("the-request-decides", who, loc(b, t.get("ln")), "whether an existing corpus is overwritten is not decided by the request")
    rep.floor("the-request-decides", "imports by the C API and the web service", n, 2)


def CREATORS(b, cl):
    """operations that may create a corpus: importing, creating an empty corpus and applying an update"""
    n = b.name.rsplit("::", 1)[-1]
    return {n} if cl.ow_root or n.startswith(("create", "apply_update", "import")) else set()


def evicts(prog, b, st):
    """helpers without the corpus storage that shrink the cache"""
    if b.kind == "closure":
        r = prog.root_fn(b.id)
        return evicts(prog, prog.bodies[r], st) if r != b.id and r in prog.bodies else False
    takes = [b.ltys[i + 1] for i in range(b.argc)]
    if any(t.peel().k == "adt" and t.peel().d == st["id"] for t in takes):
        return False
    if any(any(x.k == "adt" and x.d.endswith("CacheStrategy") for x in t.walk()) for t in takes):
        return True
    return False


def check(pid, prog, rep):
    c29(prog, rep)
