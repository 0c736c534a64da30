"""C01, C02, C03: crash-safe saving, durable updates, roll-back of failed updates.

The public operations of the graph that write a corpus (`background_sync_wal_updates`, `optimize_impl`,
`apply_update*`) or restore one (`open`) are interpreted over an abstract corpus folder.  The folder consists of
`current` (full / partial / absent), `backup` (none / full) and the update log.  After every file operation - each of
them is a possible crash point - the loader must still find a complete version; nothing else is executed or solved.
"""
import functools
from ..facts import callee, short, plain
from ..interp import Client, Interp, A, OK, ERR, SOME, NONE, UNIT, TRUE, FALSE, fget, variant, reach_back
from ..report import loc

CRATE = "graphannis_core"
LOG = "update_log.bin"


def P(*segs):
    return ("x", "p", tuple(segs))


def isp(v):
    return v is not None and v[0] == "x" and v[1] == "p"


def sget(ast, k):
    for a in ast:
        if isinstance(a, tuple) and a[0] == k and len(a) == 2:
            return a[1]
    return None


def sset(ast, k, v):
    return frozenset([a for a in ast if not (isinstance(a, tuple) and a[0] == k and len(a) == 2)] + ([(k, v)] if v is not None else []))


def graph_field(b, name):
    return None


class Persist(Client):
    def __init__(self, prog, rep, root, exclusive):
        self.prog = prog
        self.rep = rep
        self.root = root
        self.exclusive = exclusive
        self.seen = {}
        self.count = {}
        self.mod = {b.id for b in prog.bodies.values() if b.crate == CRATE and b.file.endswith("graph/mod.rs")}
        # the function that applies the events of an update: the one that calls ComponentType::before_update_event
        self.appliers = set()
        for b in prog.bodies.values():
            if b.crate != CRATE:
                continue
            for _bb, t in b.calls():
                f = callee(t)
                if f and short(f["n"]).endswith("::before_update_event"):
                    self.appliers.add(prog.root_fn(b.id).id)

    # ---- reporting
    def req(self, rule, what, good, where, msg):
        key = "%s: %s" % (self.root, what)
        k = (rule, key)
        if self.seen.get(k, (True,))[0] is False:
            return
        self.seen[k] = (bool(good), where, msg)

    def flush(self):
        for (rule, key), (good, where, msg) in self.seen.items():
            if good:
                self.rep.ok(rule, key)
            else:
                self.rep.bad(rule, key, where, msg)
        self.seen = {}

    def n(self, what):
        self.count[what] = self.count.get(what, 0) + 1

    # ---- interpretation
    def interesting(self, bid):
        return bid in self.mod

    def field(self, ip, body, base, name, owner):
        if owner == "const":
            if name.endswith("GLOBAL_STATISTICS_FILE_NAME"):
                return ("c", "global_statistics.toml")
            return None
        if base is None or (base[0] == "x" and base[1] == "self"):
            if owner.endswith("graph::Graph"):
                return {"location": ("x", "loc"), "components": ("x", "comps"), "global_statistics": ("x", "gstats"),
                        "background_persistance": ("x", "mtx"), "node_annos": ("x", "annos")}.get(name)
            return None
        if base == ("x", "loc") and name == "0":
            return P()
        if base == ("x", "gstats") and name == "0":
            return ("x", "gstatsval")
        if base == ("x", "elt"):
            return {"0": ("x", "comp"), "1": ("x", "compdata")}.get(name)
        if base == ("x", "compdata") and name == "0":
            return ("x", "data")
        if base == ("x", "loghandle"):
            return base
        return None

    def branch(self, ip, body, bb, ast, sym, taken):
        if sym == ("x", "loc"):
            if taken == "None":
                return ast | {"noloc"} if "loc" not in ast else None
            if taken == "Some":
                return ast | {"loc"} if "noloc" not in ast else None
        if sym == ("x", "gstats"):
            if taken == "None":
                return ast | {"nostats"}
            return ast
        if sym == ("x", "compdata") and taken == "None":
            return ast - {("pend", "data"), ("pend", "cfg")}
        if sym[1] == "ex":
            return sset(ast, ("ex", sym[2]), taken)
        return ast

    def drop(self, ip, body, bb, ast, val, ty):
        if val == ("x", "pguard"):
            return ast - {"plock"}
        return ast

    # abstract folder
    def where(self, body, t):
        return loc(body, t.get("l"))

    def invariant(self, ast, body, t, what):
        b, k = sget(ast, "B"), sget(ast, "K")
        good = b == "full" or (b == "none" and k == "full")
        self.req("complete-version-at-every-crash-point", what, good, self.where(body, t),
                 "after '%s' neither a complete backup nor a complete current version exists (backup: %s, current: %s): a crash here loses the corpus" % (what, b, k))

    def mutate(self, body, t, ast):
        if not self.exclusive:
            self.req("one-writer-at-a-time", "changes of the corpus folder", "plock" in ast, self.where(body, t),
                     "the corpus folder is changed through a shared reference without holding the lock for background writers")

    def save_done(self, ast):
        return "annos-saved" in ast and "comps-saved" in ast and ("stats-saved" in ast or "nostats" in ast) and "failed" not in ast

    def write(self, body, t, ast, p, what):
        """something of the corpus content below p is written (not atomically)"""
        self.mutate(body, t, ast)
        segs = p[2]
        if segs and segs[0] == "current":
            self.n("write")
            if len(segs) == 2 and segs[1] == LOG:
                self.req("log-written-atomically", what, False, self.where(body, t),
                         "the update log is written in place instead of being moved there in one step: a crash leaves an unreadable log")
                return ast
            ast = sset(ast, "K", "partial")
            self.invariant(ast, body, t, what)
        elif segs and segs[0] == "backup":
            if len(segs) == 2 and segs[1] == LOG:
                self.req("log-written-atomically", what, False, self.where(body, t), "the update log is written in place instead of being moved there in one step")
                return ast
            ast = sset(ast, "B", "partial")
            self.invariant(ast, body, t, what)
        return ast

    def outcomes(self, ast, okast, okval=None, sticky=True):
        return [(okast, OK(okval)), (ast | {"failed"} if sticky else ast, ERR())]

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return None
        n = plain(f["n"])
        sh = short(f["n"])
        m = sh.rsplit("::", 1)[1] if "::" in sh else sh
        a0 = args[0] if args else None
        own = sh.rsplit("::", 1)[0]
        # --- paths
        if sh in ("Path::join", "PathBuf::join") and isp(a0):
            return [(ast, P(*self.joined(a0[2], args[1] if len(args) > 1 else None)))]
        if sh == "PathBuf::push" and isp(a0):
            return [(ast, UNIT, {0: P(*self.joined(a0[2], args[1] if len(args) > 1 else None))})]
        if m in ("normalize", "canonicalize") and isp(a0):
            return [(ast, OK(a0)), (ast, ERR())]
        if m in ("exists", "is_dir", "is_file", "try_exists") and isp(a0):
            v = self.exists(ast, a0[2], m)
            if m == "try_exists":
                return [(ast, OK(v)), (ast, ERR())]
            return [(ast, v)]
        if f["id"].endswith("::component_to_relative_path") or (f.get("res") or "").endswith("::component_to_relative_path"):
            return [(ast, ("x", "rel"))]
        # --- events of the graph
        res = f.get("res") or f["id"]
        if res in self.appliers or f["id"] in self.appliers:
            self.n("apply")
            ok = ast | {"applied"}
            if args and args[1:] and args[1] == ("x", "oldlog"):
                ok = ok | {"replayed"}
            return [(ok, OK()), (ast | {"dirty"}, ERR())]
        if own.endswith("Graph") or own.endswith("Graph::<CT>") or "::Graph" in n:
            if m == "ensure_loaded_all":
                return [(ast | {"loaded"}, OK()), (ast | {"reload-failed"} if "reopened" in ast else ast, ERR(("x", "reloaderr")))]
            if m == "open" and self.root != "open":
                same = len(args) > 1 and args[1] == P()
                if not same:
                    return [(ast, OK()), (ast, ERR())]
                return [((ast - {"loaded", "applied", "dirty"}) | {"reopened"}, OK()), (ast | {"reload-failed"}, ERR(("x", "reloaderr")))]
            if m in ("calculate_all_statistics", "optimize_gs_impl", "calculate_component_statistics"):
                return [(ast, OK()), (ast, ERR())]
        # --- locks
        if m == "lock" and a0 == ("x", "mtx"):
            return [(ast | {"plock"}, OK(("x", "pguard"))), (ast, ERR())]
        if m == "drop" and n.startswith("core::mem::") and a0 == ("x", "pguard"):
            return [(ast - {"plock"}, UNIT)]
        # --- loading
        if m == "find_components_from_disk":
            if isp(a0):
                return [(sset(ast, "comps-from", a0[2]), OK()), (ast, ERR())]
            return [(ast, OK()), (ast, ERR())]
        if m == "load_annotations_from":
            p = args[1] if len(args) > 1 else None
            return [(sset(ast, "annos-from", p[2] if isp(p) else ("?",)), OK()), (ast, ERR())]
        if m == "new" and "AnnoStorageImpl" in n and args:
            p = fget(a0, "0") if variant(a0) == "Some" else a0
            if isp(p):
                return [(sset(ast, "annos-from", p[2][:1]), OK()), (ast, ERR())]
            return [(ast, OK()), (ast, ERR())] if "ondisk" in n else None
        if n.startswith("std::fs::") and m in ("open",) and isp(a0):
            if a0[2] and a0[2][-1] == LOG:
                return [(ast | {("log-read", a0[2])}, OK(("x", "loghandle"))), (ast, ERR())]
            return [(ast, OK()), (ast, ERR())]
        if m in ("deserialize_from",) and "bincode" in n:
            if a0 == ("x", "loghandle") or (variant(a0) is not None and ("x", "loghandle") in [x for _k, x in a0[2]]):
                return [(ast, OK(("x", "oldlog"))), (ast, ERR())]
            return [(ast, OK()), (ast, ERR())]
        if n.startswith("std::io::buffered") and m in ("new", "with_capacity"):
            for a in args:
                if a in (("x", "loghandle"), ("x", "tmpfile")):
                    if a[1] == "tmpfile":
                        return [(ast, ("x", "buffile"))]
                    return [(ast, a)]
            return None
        # --- saving the content
        if m == "save_annotations_to" and len(args) > 1:
            p = args[1]
            if isp(p):
                ast2 = self.write(body, t, ast, p, "saving the node annotations")
                self.n("annos")
                return self.outcomes(ast2, ast2 | ({"annos-saved"} if p[2] == ("current",) else frozenset()))
            return [(ast, OK()), (ast, ERR())]
        if m == "save_to" and a0 == ("x", "data"):
            p = args[1] if len(args) > 1 else None
            if isp(p):
                ast2 = self.write(body, t, ast, p, "saving a component")
                self.n("data")
                return self.outcomes(ast2, ast2 - {("pend", "data")} if p[2][:1] == ("current",) else ast2)
            return [(ast, OK()), (ast, ERR())]
        if m == "serialization_id" and a0 == ("x", "data"):
            return [(ast, ("x", "implname"))]
        if m in ("as_bytes", "into_bytes", "as_str", "as_ref") and a0 is not None and a0[0] == "x":
            return [(ast, a0)]
        if a0 == ("x", "comps"):
            if m in ("iter", "into_iter", "by_ref"):
                return [(ast, a0)]
            if m == "next":
                miss = ("pend", "data") in ast or ("pend", "cfg") in ast
                base = (ast - {("pend", "data"), ("pend", "cfg")}) | ({"comp-skipped"} if miss else frozenset())
                none = base if "comp-skipped" in base else base | {"comps-saved"}
                return [(base | {("pend", "data"), ("pend", "cfg")}, SOME(("x", "elt"))), (none, NONE)]
            if m in ("try_for_each", "for_each") and len(args) > 1:
                outs = []
                base = ast | {("pend", "data"), ("pend", "cfg")}
                good = True
                errs = []
                for a, r in ip.run_closure(args[1], [("x", "elt")], base):
                    if variant(r) == "Err":
                        errs.append((a, ERR()))
                        continue
                    if ("pend", "data") in a or ("pend", "cfg") in a or "failed" in a or (r is None and m == "try_for_each"):
                        good = False
                    outs.append(a)
                after = ast
                for a in outs:
                    if sget(a, "K") == "partial":
                        after = sset(after, "K", "partial")
                if good and outs:
                    after = after | {"comps-saved"}
                return [(after, OK() if m == "try_for_each" else UNIT)] + errs
            if m in ("clear", "insert", "remove", "get", "get_mut", "contains_key", "len", "is_empty", "keys", "values"):
                return [(ast, None, "keep")]
            return None
        if m == "to_string" and "toml" in n:
            if a0 == ("x", "gstatsval"):
                return [(ast, OK(("x", "gstatstext"))), (ast | {"failed"}, ERR())]
            return [(ast, OK()), (ast, ERR())]
        if m in ("write_all",) and a0 is not None and a0[0] == "x" and a0[1] == "file":
            src = args[1] if len(args) > 1 else None
            return self.outcomes(ast, self.wrote(ast, a0[2], src), UNIT)
        # --- log
        if m == "serialize_into" and "bincode" in n:
            w = a0
            v = args[1] if len(args) > 1 else None
            self.n("serialize")
            add = {"ser"}
            if w == ("x", "buffile"):
                add.add("needflush")
            ok = ast | add
            ok = sset(ok, "ser-what", "merged" if v == ("x", "oldlog") else "new" if v == ("x", "upd") else "?")
            return [(ok, OK()), (ast | {"log-failed"}, ERR())]
        if m in ("flush", "into_inner") and a0 == ("x", "buffile"):
            return [(ast - {"needflush"}, OK(("x", "tmpfile"))), (ast | {"log-failed"}, ERR())]
        if m in ("flush", "sync_all", "sync_data", "as_file", "as_file_mut", "reopen", "by_ref", "get_mut", "get_ref") and a0 in (("x", "tmpfile"), ("x", "buffile")):
            if m in ("as_file", "as_file_mut", "by_ref", "get_mut", "get_ref"):
                return [(ast, a0)]
            if m == "reopen":
                return [(ast, OK(a0)), (ast | {"log-failed"}, ERR())]
            return [(ast, OK()), (ast | {"log-failed"}, ERR())]
        if m == "iter" and a0 == ("x", "upd"):
            return [(ast, OK(("x", "upditer"))), (ast, ERR())]
        if a0 == ("x", "upditer"):
            if m == "next":
                miss = ("pend", "event") in ast
                base = (ast - {("pend", "event")}) | ({"event-skipped"} if miss else frozenset())
                none = base if "event-skipped" in base else base | {"merged"}
                return [(base | {("pend", "event")}, SOME(OK(("x", "ev")))), (base, SOME(ERR())), (none, NONE)]
            if m in ("into_iter", "by_ref", "enumerate"):
                return [(ast, a0)]
        if m == "add_event" and a0 == ("x", "oldlog"):
            return [(ast - {("pend", "event")}, OK()), (ast, ERR())]
        if m in ("unwrap_or",) and own == "Option" and variant(a0) in ("Some", "None"):
            return [(ast, fget(a0, "0") if variant(a0) == "Some" else args[1])]
        # --- temporary files and folders
        if n.startswith("tempfile::"):
            if m in ("tempdir_in", "new_in", "tempfile_in", "rand_bytes_"):
                p = next((a for a in args if isp(a)), None)
                seg = p[2] if p is not None else ()
                if "TempDir" in n or m == "tempdir_in":
                    return [(ast, OK(("x", "tmpdir", seg))), (ast, ERR())]
                return [(ast, OK(("x", "tmpfile"))), (ast | {"log-failed"}, ERR())]
            if m == "path" and a0 is not None and a0[0] == "x" and a0[1] == "tmpdir":
                return [(ast, P(*(a0[2] + ("$tmp",))))]
            if m in ("persist", "persist_noclobber"):
                return self.persist(body, t, ast, args)
            if m == "close":
                return [(ast, OK()), (ast, ERR())]
            if m == "drop" or m == "path":
                return None
            if "Builder" in n:
                return [(ast, None)]
            return None
        # --- the file system
        if n.startswith("std::fs::"):
            return self.fs(body, t, ast, n, m, args)
        return None

    def joined(self, segs, x):
        if x is None:
            return segs + ("*",)
        if x[0] == "c":
            return segs + tuple(s for s in x[1].split("/") if s and s != ".")
        if isp(x):
            return x[2]
        return segs + ("*",)

    def exists(self, ast, segs, m):
        if segs == ("backup",):
            return FALSE if sget(ast, "B") == "none" or m == "is_file" else TRUE
        if segs[:1] == ("backup",) and sget(ast, "B") == "none":
            return FALSE
        k = sget(ast, ("ex", segs))
        if k is not None:
            return ("i", k) if k in (0, 1) else None
        return ("x", "ex", segs)

    def wrote(self, ast, segs, src):
        if segs[:1] == ("current",) and segs[-1] == "impl.cfg" and src == ("x", "implname"):
            return ast - {("pend", "cfg")}
        if segs == ("current", "global_statistics.toml") and src == ("x", "gstatstext"):
            return ast | {"stats-saved"}
        return ast

    def persist(self, body, t, ast, args):
        p = next((a for a in args[1:] if isp(a)), None)
        self.n("persist")
        if p is None:
            return [(ast, OK()), (ast | {"log-failed"}, ERR())]
        segs = p[2]
        if segs and segs[-1] == LOG:
            d = "backup" if sget(ast, "B") != "none" else "current"
            w = self.where(body, t)
            self.req("log-in-loaded-folder", "update log", segs == (d, LOG), w,
                     "the update log is put into '%s' although the next start loads '%s' (%s)" % ("/".join(segs), d, "a backup exists" if d == "backup" else "no backup exists"))
            self.req("log-complete", "update log", "ser" in ast and "needflush" not in ast, w, "the log is put in place before the whole update was written to it")
            self.req("log-after-apply", "update log", "applied" in ast, w, "the log is put in place although the update was not applied successfully in memory")
            absent = sget(ast, ("ex", segs)) == 0
            what = sget(ast, "ser-what")
            good = (what == "new" and absent) or (what == "merged" and ("log-read", segs) in ast and "merged" in ast)
            self.req("older-log-kept", "update log", good, w,
                     "a log with earlier updates that are not saved yet may be replaced here (content written: %s, earlier log known to be absent: %s)" % (what, absent))
            return [(ast | {"logged"}, OK()), (ast | {"log-failed"}, ERR())]
        ast2 = self.write(body, t, ast, p, "moving a file to %s" % "/".join(segs))
        return self.outcomes(ast2, ast2)

    def fs(self, body, t, ast, n, m, args):
        ps = [a[2] for a in args if isp(a)]
        if m in ("new", "read", "write", "append", "create", "truncate", "create_new", "recursive") and "OpenOptions" in n:
            return [(ast, args[0] if args else None, "keep")]
        if not ps:
            if "fs::OpenOptions::open" in n or m in ("rename", "create_dir_all", "create_dir", "write", "copy", "remove_file", "remove_dir", "remove_dir_all", "create", "open"):
                self.req("known-paths", "%s" % m, False, self.where(body, t), "a file operation on a path that cannot be traced back to the corpus folder")
                return [(ast, OK()), (ast | {"failed"}, ERR())]
            return None
        p = ps[0]
        w = self.where(body, t)
        if m == "rename" and len(ps) > 1:
            q = ps[1]
            self.mutate(body, t, ast)
            what = "renaming %s to %s" % ("/".join(p), "/".join(q))
            ok = ast
            self.n("rename")
            if p == ("current",) and q == ("backup",):
                self.req("set-aside-only-complete", what, sget(ast, "B") == "none" and sget(ast, "K") == "full", w,
                         "the current folder is declared to be the complete backup although it may be incomplete or a backup already exists")
                ok = sset(sset(ok, "B", sget(ast, "K")), "K", "absent")
            elif p == ("backup",):
                if q == ("current",):
                    ok = sset(sset(ok, "K", sget(ast, "B")), "B", "none")
                else:
                    self.backup_gone(body, t, ast, what)
                    ok = sset(sset(ok, "B", "none"), "K", "full" if self.save_done(ast) else sget(ast, "K"))
            elif p == ("current",):
                ok = sset(ok, "K", "absent")
            elif p[-1] == LOG or q[-1] == LOG:
                self.req("log-written-atomically", what, False, w, "the update log is moved by a rename that was not checked to be the completed temporary file")
            elif q[:1] == ("current",):
                ok = self.write(body, t, ast, ("x", "p", q), what)
            self.invariant(ok, body, t, what)
            return [(ok, OK()), (ast | {"failed"}, ERR())]
        if m in ("create_dir_all", "create_dir"):
            if p in (("current",), ("backup",), ()):
                if p == ("current",) and sget(ast, "K") == "absent":
                    ast2 = sset(ast, "K", "partial")
                    self.invariant(ast2, body, t, "creating the current folder")
                    return [(ast2, OK()), (ast | {"failed"}, ERR())]
                return [(ast, OK()), (ast | {"failed"}, ERR())]
            ast2 = self.write(body, t, ast, ("x", "p", p), "creating a folder")
            return self.outcomes(ast2, ast2)
        if m in ("remove_dir_all", "remove_dir", "remove_file"):
            if p[-1:] == ("$tmp",):
                return [(ast, OK()), (ast | {"failed"}, ERR())]
            self.mutate(body, t, ast)
            what = "%s of %s" % (m, "/".join(p))
            if p and p[-1] == LOG:
                self.req("log-removed-only-when-saved", what, False, w, "the update log is removed without a completed save of the updates it contains")
                return [(ast, OK()), (ast | {"failed"}, ERR())]
            ok = ast
            if p[:1] == ("backup",):
                self.backup_gone(body, t, ast, what)
                self.req("backup-removed-in-one-step", what, False, w, "the backup is deleted in place: a crash leaves an incomplete backup that is loaded on the next start")
                ok = sset(ok, "B", "none")
            elif p[:1] == ("current",):
                ok = sset(sset(ok, "K", "absent"), "annos", None) - {"annos-saved", "comps-saved", "stats-saved"}
                self.invariant(ok, body, t, what)
            elif p == ():
                self.invariant(sset(sset(ok, "K", "absent"), "B", "none"), body, t, what)
            return [(ok, OK()), (ast | {"failed"}, ERR())]
        if m in ("create", "open"):
            ast2 = self.write(body, t, ast, ("x", "p", p), "creating a file")
            return self.outcomes(ast2, ast2, ("x", "file", p))
        if m in ("write",):
            ast2 = self.write(body, t, ast, ("x", "p", p), "writing a file")
            return self.outcomes(ast2, self.wrote(ast2, p, args[1] if len(args) > 1 else None))
        if m == "copy" and len(ps) > 1:
            ast2 = self.write(body, t, ast, ("x", "p", ps[1]), "copying a file")
            return self.outcomes(ast2, ast2)
        if m in ("read_to_string", "read", "metadata", "read_dir"):
            return [(ast, OK()), (ast, ERR())]
        return None

    def backup_gone(self, body, t, ast, what):
        self.n("backup-gone")
        w = self.where(body, t)
        self.req("backup-kept-until-saved", "%s" % what, self.save_done(ast), w,
                 "the backup is given up although the new version was not written completely: missing %s" % ", ".join(
                     [x for x in ("annos-saved", "comps-saved") if x not in ast] + ([] if "stats-saved" in ast or "nostats" in ast else ["statistics"]) + (["an error was dropped"] if "failed" in ast else [])))
        if self.root == "open":
            good = "loaded" in ast and sget(ast, "annos-from") and sget(ast, "annos-from")[0] == "backup" and sget(ast, "comps-from") == ("backup",)
            self.req("restored-before-removed", what, good, w, "the backup is given up before all of its content was loaded")


def ret_ok(v):
    return variant(v) != "Err"


def has_reload(v):
    if v is None:
        return False
    if v == ("x", "reloaderr"):
        return True
    return v[0] == "a" and any(has_reload(x) for _n, x in v[2])


def finish_save(c, b, outs):
    for ast, v, _m in outs:
        if variant(v) == "Err" or "noloc" in ast:
            continue
        w = loc(b)
        touched = "failed" in ast or sget(ast, "B") != "full0" 
        c.req("success-means-saved", "reported success", "failed" not in ast and sget(ast, "B") == "none" and sget(ast, "K") == "full" and c.save_done(ast) if c.root != "open" else ("failed" not in ast and sget(ast, "B") == "none"), w,
              "success is reported although the new version was not saved completely (backup: %s, current: %s, failed step dropped: %s)" % (sget(ast, "B"), sget(ast, "K"), "failed" in ast))


FULL = [("B", "none"), ("K", "full")]
CRASHED = [("B", "full"), ("K", "partial"), "crashed"]


def root(prog, rep, name, rule):
    bs = [b for b in prog.bodies.values() if b.crate == CRATE and b.kind == "method" and b.method == name and b.selfty is not None and b.selfty.is_adt("graph::Graph")]
    if len(bs) != 1:
        rep.bad(rule, "anchor-missing:" + name, "-", "the public operation Graph::%s was not found" % name)
        return None
    return bs[0]


def runroot(prog, rep, name, args, starts, exclusive):
    b = root(prog, rep, name, "anchors")
    if b is None:
        return None, None, []
    c = Persist(prog, rep, name, exclusive)
    ip = Interp(prog, c)
    outs = set()
    for s in starts:
        r = ip.run(b.id, args, frozenset(s))
        outs |= set(r or ())
    rep.fns(prog.bodies[x].name for x in ip.stats["functions"])
    rep.extra.setdefault("states", {})[name] = ip.stats["states"]
    return c, b, outs


def check(pid, prog, rep):
    if pid == "C01":
        c01(prog, rep)
    else:
        c0203(pid, prog, rep)


C01RULES = {"complete-version-at-every-crash-point", "set-aside-only-complete", "backup-kept-until-saved", "backup-removed-in-one-step",
            "restored-before-removed", "success-means-saved", "one-writer-at-a-time", "known-paths", "loads-the-complete-version"}


def only(c, rules):
    c.seen = {k: v for k, v in c.seen.items() if k[0] in rules}


def c01(prog, rep):
    for name in ("background_sync_wal_updates", "optimize_impl"):
        args = (("x", "self"),) if name == "background_sync_wal_updates" else (("x", "self"), None)
        c, b, outs = runroot(prog, rep, name, args, [FULL, CRASHED], name != "background_sync_wal_updates")
        if c is None:
            continue
        finish_save(c, b, outs)
        only(c, C01RULES)
        c.flush()
        rep.floor("anchors", name + ": node annotations saved", c.count.get("annos", 0), 1)
        rep.floor("anchors", name + ": components saved", c.count.get("data", 0), 1)
        rep.floor("anchors", name + ": previous version set aside and given up", min(c.count.get("rename", 0), 1) + min(c.count.get("backup-gone", 0), 1), 2)
        good = [o for o in outs if variant(o[1]) != "Err" and "noloc" not in o[0]]
        rep.floor("anchors", name + ": paths that report success", len(good), 1)
    c, b, outs = runroot(prog, rep, "open", (("x", "self"), P()), [FULL, CRASHED], True)
    if c is not None:
        finish_save(c, b, outs)
        for ast, v, _m in outs:
            if variant(v) == "Err":
                continue
            src = "backup" if "crashed" in ast else "current"
            af, cf = sget(ast, "annos-from"), sget(ast, "comps-from")
            c.req("loads-the-complete-version", "open with%s a backup" % ("" if src == "backup" else "out"), af is not None and af[:1] == (src,) and cf == (src,), loc(b),
                  "with%s a backup the corpus is loaded from %s / %s instead of '%s'" % ("" if src == "backup" else "out", af, cf, src))
        only(c, C01RULES)
        c.flush()
        rep.floor("anchors", "open: backup given up", c.count.get("backup-gone", 0), 1)
    # components are looked up in the backup as long as there is one
    lb = [b for b in prog.bodies.values() if b.crate == CRATE and b.id.endswith("::component_path")]
    comp_path(prog, rep)


def comp_path(prog, rep):
    """the folder single components are loaded from"""
    n = 0
    for b in prog.bodies.values():
        if b.crate != CRATE or b.kind == "promoted":
            continue
        if not any(callee(t) and short(callee(t)["n"]).endswith("load_component_from_disk") for _bb, t in b.calls()):
            continue
        c = LoadPath(prog, rep, prog.root_fn(b.id).method or b.name)
        ip = Interp(prog, c)
        for s, d in ((FULL, "current"), (CRASHED, "backup")):
            c.want = d
            ip.memo = {}
            ip.run(b.id, tuple(("x", "self") if i == 0 and b.kind == "method" else None for i in range(b.argc)), frozenset(s))
        rep.fns(prog.bodies[x].name for x in ip.stats["functions"])
        n += c.n_load
        c.flush()
    rep.floor("anchors", "loading of a component from disk", n, 2)


class LoadPath(Persist):
    def __init__(self, prog, rep, rootname):
        super().__init__(prog, rep, rootname, True)
        self.n_load = 0

    def field(self, ip, body, base, name, owner):
        if owner == "" or owner is None:
            pass
        v = super().field(ip, body, base, name, owner)
        if v is None and base is None and name.startswith("^") and "location" in name:
            return ("x", "loc")
        if v is None and base is None and name.startswith("^") and name.endswith("self"):
            return ("x", "self")
        return v

    def call(self, ip, body, bb, t, f, ast, args):
        if f and short(f["n"]).endswith("load_component_from_disk"):
            self.n_load += 1
            p = args[0] if args else None
            self.req("loads-the-complete-version", "component folder with%s a backup" % ("" if self.want == "backup" else "out"),
                     isp(p) and p[2][:1] == (self.want,), self.where(body, t),
                     "a component is loaded from '%s' although %s" % ("/".join(p[2]) if isp(p) else "an unknown path", "there is a backup" if self.want == "backup" else "there is no backup"))
            return [(ast, OK()), (ast, ERR())]
        return super().call(ip, body, bb, t, f, ast, args)


C02RULES = {"log-written-atomically", "log-in-loaded-folder", "log-complete", "log-after-apply", "older-log-kept", "log-removed-only-when-saved", "success-means-durable", "log-replayed"}
C03RULES = {"failed-update-rolled-back", "success-means-applied"}


def c0203(pid, prog, rep):
    for name in ("apply_update", "apply_update_keep_statistics"):
        c, b, outs = runroot(prog, rep, name, (("x", "self"), ("x", "upd"), None), [FULL, CRASHED], True)
        if c is None:
            continue
        for ast, v, _m in outs:
            if variant(v) == "Ok":
                c.req("success-means-applied", "reported success", "applied" in ast and "dirty" not in ast, loc(b), "success is reported although applying the update failed")
                if "noloc" not in ast:
                    c.req("success-means-durable", "reported success", "logged" in ast and "log-failed" not in ast, loc(b),
                          "success is reported for a corpus with a location on disk although the update is not in the log")
            else:
                changed = "applied" in ast or "dirty" in ast
                if "noloc" in ast:
                    continue
                # From::from of the reload error keeps it, anything else (the error of the update) hides it
                ok = not changed or ("reload-failed" in ast and has_reload(v))
                ok = ok or ("reopened" in ast and "loaded" in ast)
                what = "failed update" if "dirty" in ast else "failed log"
                c.req("failed-update-rolled-back", what, ok, loc(b),
                      "an error is returned although the (partially) applied update stays visible in memory: the last state was not loaded again from disk (%s)" % what)
                c.req("failed-update-rolled-back", "returned result", variant(v) == "Err", loc(b), "the outcome of a failed update cannot be recognised as an error")
        only(c, C02RULES if pid == "C02" else C03RULES)
        c.flush()
        rep.floor("anchors", name + ": update applied in memory", c.count.get("apply", 0), 1)
        if pid == "C02":
            rep.floor("anchors", name + ": log put in place", c.count.get("persist", 0), 1)
        good = [o for o in outs if variant(o[1]) == "Ok"]
        rep.floor("anchors", name + ": paths that report success", len(good), 1)
        rep.floor("anchors", name + ": failing paths after the update", len([o for o in outs if variant(o[1]) != "Ok" and ("reopened" in o[0] or "reload-failed" in o[0])]), 1)
    if pid == "C02":
        c, b, outs = runroot(prog, rep, "open", (("x", "self"), P()), [FULL, CRASHED], True)
        if c is not None:
            nlog = 0
            for ast, v, _m in outs:
                if variant(v) == "Err":
                    continue
                for d in ("current", "backup"):
                    src = sget(ast, "comps-from")
                    if src != (d,):
                        continue
                    known = sget(ast, ("ex", (d, LOG)))
                    if known == 0:
                        continue
                    nlog += 1
                    c.req("log-replayed", "open", "replayed" in ast, loc(b), "the corpus is used although the updates of the log in '%s' were not applied%s" % (d, "" if known == 1 else " (it was not even looked for)"))
            only(c, C02RULES)
            c.flush()
            rep.floor("anchors", "open: starts with a log", nlog, 2)
    # no one else writes or removes the log
    if pid == "C02":
        n = 0
        mod = {b.id for b in prog.bodies.values() if b.file.endswith("graph/mod.rs") and b.crate == CRATE}
        for b in prog.bodies.values():
            if b.kind == "promoted":
                continue
            for i, bb in enumerate(b.bbs):
                ops = [o for s in bb["s"] if s["k"] == "=" for o in s["r"].get("o", [])]
                if bb["t"]["k"] == "call":
                    ops += bb["t"]["args"]
                for o in ops:
                    if o.get("s") == LOG:
                        n += 1
                        if b.id not in mod:
                            rep.bad("who-may-touch-the-log", "use of the log name in " + prog.root_fn(b.id).name, loc(b), "the update log is accessed outside of the analysed operations of the graph")
        rep.floor("who-may-touch-the-log", "uses of the log file name", n, 1)
