"""C20: every storage that can be saved can be found again when loading.

Each place where a concrete storage becomes a storage of unknown type is collected with the concrete types (type parameters
are replaced along the call graph). The function that fills the registry is interpreted: it yields the text of each key and
the functions of each entry; the identifiers are computed from the source for each concrete type (constants, format strings,
sizes of types). Then all chosen types have to be registered, once, with the identifier they write and their own loader. The
functions that write and read the name of the implementation are interpreted on symbolic directories."""
import re
from ..facts import callee, short
from ..interp import Interp, OK, ERR, SOME, NONE, UNIT, fget, variant
from ..report import loc
from .layers import F, sym, strip
from .joins import adt_name
from .saveload import Store, SIZES

CRATE = "graphannis_core"
MAPS = ("HashMap", "BTreeMap", "FxHashMap", "IndexMap")
LOOKUP = tuple(m + "::" + x for m in MAPS for x in ("get", "get_mut", "remove", "index", "get_key_value"))


def gs_dyn(ty):
    return any(x.k == "dyn" and re.search(r"\bGraphStorage\b", x.s) or x.k == "fnptr" and re.search(r"dyn [\w:]*\bGraphStorage\b", x.s) for x in ty.walk())


def fnty(ty):
    return ty.s.startswith(("fn(", "for<", "unsafe fn(")) or "Fn(" in ty.s and ty.k in ("dyn", "adt")


def inst(ty, env):
    """the concrete type, with the type parameters replaced"""
    if ty.k == "param" or (ty.k not in ("adt", "ref", "tuple") and ty.s in env):
        return env.get(ty.s, "?" + ty.s)
    if ty.k == "adt":
        a = [inst(x, env) for x in ty.a]
        return ty.d + ("<%s>" % ", ".join(a) if a else "")
    return ty.s


def name(t):
    return re.sub(r"[\w:]+::", "", t)


class Reg(Store):
    """interprets functions for concrete types"""

    def __init__(self, chk, env):
        Store.__init__(self, chk.prog, set(), {})
        self.chk, self.env = chk, env

    def sub(self, bid, env, args, ast):
        key = (bid, tuple(sorted(env.items())))
        if key in self.chk.stack or len(self.chk.stack) > 12:
            return None
        self.chk.stack.append(key)
        try:
            b = self.prog.bodies[bid]
            cl = Reg(self.chk, env)
            cl.events = self.chk.events
            out = Interp(self.prog, cl, max_env=200).run(bid, tuple((list(args) + [None] * b.argc)[:b.argc]), ast)
        finally:
            self.chk.stack.pop()
        if out is None:
            return None
        muts = [i for i in range(b.argc) if b.ltys[i + 1].k == "ref" and b.ltys[i + 1].mut]
        return [(a, self.close(v, env), {i: self.close(x, env) for i, x in zip(muts, m)}) for a, v, m in out]

    def close(self, v, env):
        """functions keep the types they were made for"""
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == "fn" or v[0] == "a" and str(v[1]).startswith("fn:"):
            return ("x", "inst", v[1] if v[0] == "fn" else v[1][3:], tuple(sorted(env.items())))
        if v[0] == "x" and len(v) > 1 and v[1] == "inst":
            return v
        return tuple(self.close(x, env) if isinstance(x, tuple) else x for x in v)

    def call(self, ip, body, bb, t, f, ast, args):
        a0 = args[0] if args else None
        if f is None:
            self.chk.events.append(("indirect", body.id, tuple(args)))
            dty = body.ltys[t["d"][0]] if len(t["d"]) == 1 else None
            if dty is not None and dty.peel_refs().is_adt("core::result::Result"):
                return self.ok(ast, ("x", "made"))
            return [(ast, None)]
        own, _, m = short(f["n"]).rpartition("::")
        dty = body.ltys[t["d"][0]] if len(t["d"]) == 1 else None
        if own in MAPS or (dty is not None and adt_name(dty) in MAPS and not args):
            if m in ("new", "default", "with_capacity", "with_hasher"):
                return [(ast, ("x", "map", ()))]
            if m == "insert" and sym(a0, "map") and len(args) == 3:
                return [(ast, None, {0: ("x", "map", a0[2] + ((self.close(args[1], self.env), self.close(args[2], self.env)),))})]
            if m in ("reserve", "shrink_to_fit") and sym(a0, "map"):
                return [(ast, UNIT, "keep")]
            if m in ("get", "get_mut", "remove") and (len(args) > 1):
                self.chk.events.append(("get", body.id, args[1]))
                return [(ast, SOME(("x", "entry"))), (ast, NONE)]
        if m in ("from", "from_iter", "collect", "extend") and dty is not None and (adt_name(dty) in MAPS or (m == "extend" and sym(a0, "map"))):
            src = args[-1]
            ln = fget(src, "#") if src is not None and src[0] == "a" else None
            es = tuple((fget(fget(src, str(i)), "0"), fget(fget(src, str(i)), "1")) for i in range(ln[1])) if ln else ((None, None),)
            es = tuple((self.close(k, self.env), self.close(v, self.env)) for k, v in es)
            if m == "extend":
                return [(ast, UNIT, {0: ("x", "map", a0[2] + es)})]
            return [(ast, ("x", "map", es))]
        if n_size(f):
            s = inst(body.tys[f["a"][0]], self.env)
            return [(ast, ("i", SIZES[s]))] if s in SIZES else None
        if m in ("type_name",) and f["n"].startswith("core::any") and f.get("a"):
            return [(ast, ("c", inst(body.tys[f["a"][0]], self.env)))]
        if own == "Argument" and m == "new_display" and a0 is not None and a0[0] == "i":
            return [(ast, ("x", "farg", ("c", str(a0[1]))))]
        # storages
        if m == "serialization_id":
            T = self.recv(body, f)
            r = self.chk.sid(T) if T else None
            return [(ast, r)] if r is not None else [(ast, ("x", "sid", a0))]
        if m == "load_from":
            T = self.recv(body, f)
            self.chk.events.append(("load", body.id, T, a0))
            if T in self.chk.types():
                return self.ok(ast, ("x", "obj", T))
        if dty is not None and m in ("default", "new", "with_capacity") and not any(x in self.prog.bodies for x in ()):
            d = dty
            res = d.is_adt("core::result::Result")
            d = d.a[0] if res and d.a else d
            T = inst(d, self.env)
            if T in self.chk.types():
                v = ("x", "obj", T)
                return self.ok(ast, v) if res else [(ast, v)]
        if m in ("to_string", "to_owned", "into", "from", "clone", "as_str", "deref", "as_ref", "borrow", "must_use", "to_str", "as_bytes", "into_bytes", "into_string", "trim", "into_boxed_str") \
                and a0 is not None and (a0[0] == "c" or sym(a0) and a0[1] in ("text", "sid", "obj", "content", "map", "entry", "param", "path", "nm", "fld", "el")):
            return [(ast, a0)]
        if sym(a0, "obj") or variant(a0) == "Ok" and sym(fget(a0, "0"), "obj"):
            if m in ("new", "from", "into", "pin"):
                return [(ast, a0)]
        # functions for concrete types
        tg = self.prog.targets(body, f)
        if len(tg) == 1 and self.prog.bodies[tg[0]].crate == CRATE and tg[0] in self.chk.regmods:
            env = self.chk.callenv(body, f, tg[0], self.env)
            if env is not None:
                r = self.sub(tg[0], env, args, ast)
                if r is not None:
                    return r
        return Store.call(self, ip, body, bb, t, f, ast, args)

    def binop(self, ip, body, op, a, b):
        r = Store.binop(self, ip, body, op, a, b)
        return ("a", None, (("0", r), ("1", ("i", 0)))) if r is not None and op.endswith("WithOverflow") else r

    def recv(self, body, f):
        if f.get("a") and body.tys[f["a"][0]].k in ("param", "adt") and f.get("tr"):
            return inst(body.tys[f["a"][0]], self.env)
        if "self" in f:
            return inst(body.tys[f["self"]].peel_refs(), self.env)
        return None


def n_size(f):
    return short(f["n"]) == "mem::size_of" and f.get("a")


class Names(Reg):
    """which names are written and read"""

    def call(self, ip, body, bb, t, f, ast, args):
        a0 = args[0] if args else None
        if f is None:
            return None
        own, _, m = short(f["n"]).rpartition("::")
        a1 = args[1] if len(args) > 1 else None
        rid = f.get("res") or f["id"]
        if rid in self.chk.readers:
            self.chk.events.append(("read", body.id, a0, a1))
            return self.ok(ast, ("x", "made"))
        if m == "serialization_id":
            return [(ast, ("x", "sid", a0))]
        if m == "save_to" and len(args) == 2 and gs_dyn(body.ltys[t["args"][0]["p"][0]] if t["args"][0].get("p") else body.ltys[0]):
            return self.ok(F.set(ast, ("saved", a0, a1), True), None)
        if m in ("iter", "into_iter", "by_ref") and (a0 is None or sym(a0)):
            return [(ast, a0)]
        if m == "next" and (a0 is None or sym(a0)):
            return [(ast, SOME(("x", "el", body.id, bb)), "keep"), (ast, NONE, "keep")]
        if m in ("as_ref", "as_deref", "clone", "cloned", "deref", "borrow") and sym(a0):
            return [(ast, a0)]
        if m in ("ok_or_else", "ok_or") and sym(a0):
            return self.ok(ast, ("x", "some", a0))
        if m in ("unwrap", "expect") and sym(a0):
            return [(ast, ("x", "some", a0))]
        if m in ("read_to_string", "read_to_end") and sym(a0, "file") and len(args) == 2:
            return [(ast, OK(), {1: ("x", "content", a0[2])}), (F.set(ast, "failed", True), ERR(), "keep")]
        if m in ("open", "create", "create_new") and own == "File":
            return self.ok(ast, ("x", "file", a0))
        if m == "read_to_string" and own == "fs":
            return self.ok(ast, ("x", "content", a0))
        if own == "fs" and m == "write":
            return self.ok(self.write(ast, "raw", a0, a1), None)
        if m == "write_all" and sym(a0, "file"):
            return self.ok(self.write(ast, "raw", a0[2], a1), None)
        if own == "Write" and m in ("write", "write_fmt"):
            return self.ok(self.write(ast, "raw", a0[2] if sym(a0, "file") else None, None), None)
        return Reg.call(self, ip, body, bb, t, f, ast, args)

    def write(self, ast, enc, path, val):
        return F.set(ast, ("w", enc, path), val if val is not None else ("x", "unknown"))

    def read(self, ast, enc, path, extra=None):
        return ast, None

    def branch(self, ip, body, bb, ast, s, taken):
        return ast

    def field(self, ip, body, base, name, owner):
        if sym(base):
            if name.startswith("@"):
                return SOME(("x", "some", base)) if name == "@Some" else NONE if name == "@None" else None
            if name == "0" and owner and "ption" in owner:
                return ("x", "some", base)
            return ("x", "fld", base, name)
        return None


class Listing(Names):
    """which components are found in a folder"""

    def call(self, ip, body, bb, t, f, ast, args):
        a0 = args[0] if args else None
        if f is None:
            return None
        own, _, m = short(f["n"]).rpartition("::")
        dty = body.ltys[t["d"][0]] if len(t["d"]) == 1 else None
        rid = f.get("res") or f["id"]
        if rid in self.chk.relpath:
            return [(ast, ("x", "rel", rid, next((a for a in args if sym(a, "comp")), None)))]
        if dty is not None and adt_name(dty) == "Component" and m == "new" and len(args) == 3:
            return [(ast, ("x", "comp") + tuple(args))]
        if m in ("clone", "to_owned", "deref", "borrow", "as_ref", "into", "from", "to_path_buf", "as_path") and (sym(a0, "comp") or sym(a0, "path") or sym(a0, "param") or sym(a0, "dir") or sym(a0, "rel")):
            return [(ast, a0)]
        if m == "default" and dty is not None and dty.s.endswith("String") or own == "String" and m == "new":
            return [(ast, ("c", ""))]
        if m == "read_dir":
            return self.ok(ast, ("x", "dir", a0))
        if m in ("path",) and sym(a0):
            return [(ast, ("x", "path", None, ("x", "entry", a0)))]
        if m in ("file_name", "to_string_lossy", "into_string", "to_string", "into_owned") and sym(a0):
            return [(ast, ("x", "nm", a0))]
        if own in ("Path", "PathBuf") and m in ("join",):
            b = args[1]
            return [(ast, ("x", "path", a0, b))]
        if own == "PathBuf" and m == "push":
            return [(ast, UNIT, {0: ("x", "path", a0, args[1])})]
        if m in ("is_file", "exists"):
            if sym(a0, "path") and a0[3] is not None and a0[3][0] == "c" and sym(a0[2], "path") and sym(a0[2][3], "rel"):
                c = a0[2][3][3]
                self.chk.events.append(("file", body.id, a0[3][1], c))
                return [(F.set(ast, ("due", c), True), ("i", 1)), (ast, ("i", 0))]
            return [(ast, ("i", 1)), (ast, ("i", 0))]
        if m in ("is_dir", "is_empty"):
            return [(ast, ("i", 1)), (ast, ("i", 0))]
        if m in ("insert", "push", "extend") and args and any(sym(a, "comp") for a in args):
            c = next(a for a in args if sym(a, "comp"))
            self.chk.events.append(("found", body.id, c))
            if not F.get(ast, ("due", c)):
                self.chk.events.append(("unchecked", body.id, c))
            return [(frozenset(x for x in ast if x[0] != ("due", c)), None, "keep")]
        if m == "next":
            for x in ast:
                if isinstance(x[0], tuple) and x[0][0] == "due":
                    self.chk.events.append(("lost", body.id, x[0][1]))
            ast = frozenset(x for x in ast if not (isinstance(x[0], tuple) and x[0][0] == "due"))
            el = ("x", "el", body.id, bb)
            r = OK(el) if sym(a0, "dir") or dty is not None and "core::result::Result" in dty.s else el
            return [(ast, SOME(r), "keep"), (ast, NONE, "keep")]
        if m in ("iter", "into_iter", "by_ref") and (a0 is None or sym(a0)):
            return [(ast, a0)]
        return Names.call(self, ip, body, bb, t, f, ast, args)


class Check:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.events, self.stack, self._types, self._sid = [], [], None, {}
        rep.rule("registry.known", "every storage implementation that may be chosen is registered under the identifier it writes")
        rep.rule("registry.entry", "a registered entry creates and loads the implementation its identifier belongs to")
        rep.rule("registry.unique", "no two implementations write the same identifier")
        rep.rule("registry.name", "the identifier of the saved implementation is written next to its data, read back unchanged, and the entry of this identifier loads the data")
        self.bodies = [b for b in prog.bodies.values() if b.crate == CRATE and b.kind != "promoted"]
        self.trait = next((t for t in prog.traits if t.endswith("::GraphStorage")), None)
        self.infos = {aid for aid, a in prog.adts.items() if a["crate"] == CRATE and len(a["variants"]) == 1
                      and any(fnty(t) and gs_dyn(t) for _n, t, _p in a["variants"][0]["f"])}
        self.regmods = {b.id for b in self.bodies if any(x.k == "adt" and x.d in self.infos for ty in b.ltys for x in ty.walk())
                        or (b.kind in ("fn", "closure") and gs_dyn(b.ltys[0])) or (b.method == "serialization_id")}
        rep.floor("registry.known", "storage trait", 1 if self.trait else 0, 1)
        rep.floor("registry.known", "registry entry type", len(self.infos), 1)
        if not self.trait or not self.infos:
            return
        self.run()

    def types(self):
        return self._types or set()

    # --- concrete types
    def params(self, bid):
        b = self.prog.bodies[bid]
        out = []
        for ty in b.tys_used() if hasattr(b, "tys_used") else b.ltys:
            for x in ty.walk():
                if x.k == "param" and x.s not in out:
                    out.append(x.s)
        for _bb, t in b.calls():
            f = callee(t)
            for i in (f.get("a") or []) if f else []:
                for x in b.tys[i].walk():
                    if x.k == "param" and x.s not in out:
                        out.append(x.s)
        for c in self.prog.children.get(bid, ()):
            for p in self.params(c):
                if p not in out:
                    out.append(p)
        return out

    def callenv(self, body, f, target, env):
        """type parameters of the called function"""
        b = self.prog.bodies[target]
        if b.kind == "closure":
            return dict(env)
        ps = self.params(target)
        if not ps:
            return {}
        if b.selfty is not None and "self" in f:
            return self.unify(b.selfty, inst(body.tys[f["self"]].peel_refs(), env))
        a = [inst(body.tys[i], env) for i in (f.get("a") or [])]
        if len(a) == 1 and len(ps) == 1:
            return {ps[0]: a[0]}
        if all(x.startswith("?") for x in a):
            return {}
        if len(a) == len(ps):
            # the order of the parameters is that of their first use in the arguments; only identical names are safe
            return None if len(set(a)) > 1 else {p: a[0] for p in ps}
        return None

    def unify(self, ty, s):
        """type parameters of an implementation for a concrete type"""
        env = {}
        m = re.match(r"^([\w:]+)(?:<(.*)>)?$", s)
        if m and ty.k == "adt" and m.group(1) == ty.d:
            parts = split(m.group(2) or "")
            if len(parts) == len(ty.a):
                for x, y in zip(ty.a, parts):
                    if x.k == "param":
                        env[x.s] = y
        return env

    def contexts(self, bid, seen=()):
        """the type environments a function is used with"""
        b = self.prog.root_fn(bid)
        if not self.params(b.id):
            return [{}]
        if b.id in seen or len(seen) > 8:
            return []
        out = []
        n = 0
        for c, _bb, t in self.callsites(b.id):
            n += 1
            for env in self.contexts(c.id, seen + (b.id,)):
                e = self.callenv(c, callee(t), b.id, env)
                if e is None:
                    e = {p: "?" + p for p in self.params(b.id)}
                if e not in out:
                    out.append(e)
        if not n:
            out.append({})
        return out

    def callsites(self, bid):
        if not hasattr(self, "_sites"):
            self._sites = {}
            for b in self.bodies:
                for bb, t in b.calls():
                    for x in self.prog.targets(b, callee(t)):
                        self._sites.setdefault(x, []).append((b, bb, t))
                for x in self.prog.edges(b.id):
                    pass
        return self._sites.get(bid, [])

    def casts(self, b):
        """types that become a storage of unknown type in this function: (type, line)"""
        for blk in b.bbs:
            for s in blk["s"]:
                if s.get("k") == "=" and s["r"]["k"] == "cast" and len(s["p"]) == 1 and gs_dyn(b.ltys[s["p"][0]]) and b.ltys[s["p"][0]].k != "fnptr":
                    o = s["r"]["o"][0]
                    if "p" not in o or not o["p"]:
                        continue
                    src = b.ltys[o["p"][0]]
                    if fnty(b.ltys[s["p"][0]]) or gs_dyn(src):
                        continue
                    x = src
                    while x.k in ("ref", "ptr") or (x.k == "adt" and x.a and x.d.endswith(("::Arc", "::Box", "::Rc", "::Cow"))):
                        x = x.a[0]
                    yield x, s.get("l")

    def sid(self, T):
        """the identifier an implementation writes"""
        if T in self._sid:
            return self._sid[T]
        self._sid[T] = None
        for im in self.prog.impls_by_trait.get(self.trait, []):
            st = im["selfty"]
            if st.k == "adt" and T.split("<")[0] == st.d:
                for it in im["items"]:
                    b = self.prog.bodies.get(it["id"])
                    if b is not None and b.method == "serialization_id":
                        out = Reg(self, self.unify(st, T)).sub(b.id, self.unify(st, T), (("x", "obj", T),), frozenset())
                        vs = {v for _a, v, _m in out or []}
                        if len(vs) == 1:
                            self._sid[T] = vs.pop()
        return self._sid[T]

    # --- the check
    def run(self):
        prog, rep = self.prog, self.rep
        impls = {im["selfty"].d for im in prog.impls_by_trait.get(self.trait, []) if im["selfty"].k == "adt"}
        chosen = {}
        for b in self.bodies:
            for ty, line in self.casts(b):
                if ty.k == "adt" and ty.d not in impls:
                    continue
                root = prog.root_fn(b.id)
                if ty.k == "param" and any(x.k == "adt" and x.d in self.infos for x in root.ltys[0].walk()):
                    pass
                for env in self.contexts(b.id):
                    chosen.setdefault(inst(ty, env), set()).add((root.id, line))
        self._types = set(chosen)
        # the registry
        builders = [b for b in self.bodies if b.kind in ("fn", "method", "closure") and b.ltys[0].k == "adt" and adt_name(b.ltys[0]) in MAPS and any(x.k == "adt" and x.d in self.infos for x in b.ltys[0].walk())]
        rep.floor("registry.known", "function that fills the registry", len(builders), 1)
        entries = []
        for b in builders:
            out = Reg(self, {}).sub(b.id, {}, (), frozenset())
            maps = {v for _a, v, _m in out or []}
            if len(maps) != 1 or not sym(next(iter(maps)), "map"):
                rep.bad("registry.known", "%s|unknown" % b.name, loc(b), "the entries of the registry are not known")
                continue
            for k, v in next(iter(maps))[2]:
                entries.append((b, k, v))
        rep.floor("registry.known", "entries of the registry", len(entries), 10)
        rep.floor("registry.known", "implementations that may be chosen", len([t for t in chosen if not t.startswith("?") and "?" not in t]), 10)
        keys = {}
        found = {}
        for b, k, v in entries:
            probs, T = self.entry(b, k, v)
            if T:
                found[T] = k
            kk = k[1] if k is not None and k[0] == "c" else "?"
            for what in probs:
                rep.bad("registry.entry", "%s|%s|%s" % (b.name, kk, what[:60]), loc(b), what)
            if not probs:
                rep.ok("registry.entry")
            if k is not None:
                if k in keys:
                    rep.bad("registry.unique", "%s|%s" % (b.name, kk), loc(b), "two entries have the identifier '%s'%s" % (kk, ": %s and %s" % (name(keys[k]), name(T)) if keys[k] and T else ""))
                keys[k] = T
        # identifiers
        ids = {}
        for T in sorted(chosen):
            where = loc(prog.bodies[sorted(chosen[T], key=str)[0][0]])
            if "?" in T:
                rep.bad("registry.known", "%s|unknown" % T, where, "it is not known which implementation is created here")
                continue
            s = self.sid(T)
            if s is None or s[0] != "c":
                rep.bad("registry.known", "%s|id" % T, where, "the identifier of %s is not constant for the type" % name(T))
                continue
            if s in ids:
                rep.bad("registry.unique", "%s|%s" % (s[1], T), where, "%s and %s write the same identifier '%s'" % (name(ids[s]), name(T), s[1]))
            else:
                rep.ok("registry.unique")
            ids[s] = T
            if T not in found:
                rep.bad("registry.known", "%s|missing" % T, where, "%s may be chosen, but there is no registry entry that loads it" % name(T))
            elif found[T] != s:
                rep.bad("registry.known", "%s|other" % T, where, "%s writes '%s', but is registered as '%s'" % (name(T), s[1], found[T][1] if found[T] and found[T][0] == "c" else "?"))
            else:
                rep.ok("registry.known")
        self.names()

    def entry(self, b, k, v):
        """problems of an entry, loaded type"""
        probs = []
        if k is None or k[0] != "c":
            probs.append("the identifier of a registry entry is not known")
        fs = dict(v[2]) if v is not None and v[0] == "a" else {}
        aid = next((a for a in self.infos if a.rsplit("::", 1)[-1] == (v[1] if v is not None and v[0] == "a" else None)), None)
        if aid is None:
            return probs + ["the functions of a registry entry are not known"], None
        T = None
        made = {}
        for fname, ty, _p in self.prog.adts[aid]["variants"][0]["f"]:
            x = fs.get(fname)
            if fnty(ty) and gs_dyn(ty):
                loader = "Path" in ty.s
                ts, loads = self.made(x, loader)
                if len(ts) != 1:
                    probs.append("it is not known which implementation the function '%s' creates" % fname)
                    continue
                t = next(iter(ts))
                made[fname] = t
                if loader:
                    T = t
                    bad = [l for l in loads if l[0] != t or l[1] != ("x", "loc")]
                    if not loads or bad:
                        probs.append("%s is not loaded from the given location" % name(t))
            elif x is not None and ty.s.endswith("String") and k is not None and x != k:
                probs.append("an entry is registered as '%s', but its identifier is '%s'" % (k[1] if k[0] == "c" else "?", x[1] if x[0] == "c" else "?"))
        if len(set(made.values())) > 1:
            probs.append("an entry creates and loads different implementations: %s" % ", ".join(sorted(name(x) for x in set(made.values()))))
        if T and k is not None and k[0] == "c":
            s = self.sid(T)
            if s != k:
                probs.append("the entry '%s' loads %s, which writes '%s'" % (k[1], name(T), s[1] if s and s[0] == "c" else "?"))
        return probs, T

    def made(self, x, loader):
        """types a function of an entry creates, and what it loads from where"""
        if not sym(x, "inst") or x[2] not in self.prog.bodies:
            return set(), []
        env = dict(x[3])
        b = self.prog.bodies[x[2]]
        self.events = []
        args = (None, ("x", "loc")) if b.kind == "closure" else (("x", "loc"),)
        cl = Reg(self, env)
        out = Interp(self.prog, cl, max_env=200).run(b.id, tuple((list(args) + [None] * b.argc)[:b.argc]), frozenset())
        ts = set()
        for ast, v, _m in out or []:
            v = strip(v, ("Ok", "Some"))
            if F.get(ast, "failed"):
                continue
            ts.add(v[2] if sym(v, "obj") else None)
        return {t for t in ts if t} if None not in ts else set(), [(e[2], e[3]) for e in self.events if e[0] == "load"]

    def names(self):
        prog, rep = self.prog, self.rep
        # functions that look up an entry and use its loader
        self.readers = set()
        n = 0
        for b in self.bodies:
            if b.kind not in ("fn", "method") or not any(short(callee(t)["n"]) in LOOKUP and any(x.k == "adt" and x.d in self.infos for i in (callee(t).get("a") or []) for x in b.tys[i].walk())
                                                         for _bb, t in b.calls() if callee(t)):
                continue
            self.events = []
            out = Interp(prog, Reg(self, {}), max_env=200).run(b.id, tuple(("x", "param", str(i)) for i in range(b.argc)), frozenset())
            gets = [e[2] for e in self.events if e[0] == "get"]
            ind = [e[2] for e in self.events if e[0] == "indirect"]
            n += 1
            if gets and all(sym(g, "param") and g[2] == "0" for g in gets) and ind and all(i and sym(i[-1], "param") and i[-1][2] == "1" for i in ind):
                rep.ok("registry.name")
                self.readers.add(b.id)
            else:
                rep.bad("registry.name", "%s|lookup" % b.name, loc(b), "the entry is not looked up by the given identifier, or does not load from the given location")
                self.readers.add(b.id)
        rep.floor("registry.name", "functions that look up an implementation", n, 1)
        # who reads the name
        wrote, read = set(), set()
        k = 0
        for b in sorted(self.bodies, key=lambda b: b.id):
            root = prog.root_fn(b.id)
            if any(x in self.readers for _bb, t in b.calls() for x in prog.targets(b, callee(t))) and b.kind in ("fn", "method"):
                self.events = []
                Interp(prog, Names(self, {}), max_env=200).run(b.id, tuple(("x", "param", str(i)) for i in range(b.argc)), frozenset())
                evs = [e for e in self.events if e[0] == "read"]
                k += 1
                good = bool(evs)
                for _e, _b, nm, dr in evs:
                    p = nm[2] if sym(nm, "content") else None
                    if not sym(p, "path") or p[2] != dr or p[3] is None or p[3][0] != "c":
                        good = False
                    else:
                        read.add(p[3][1])
                if good:
                    rep.ok("registry.name")
                else:
                    rep.bad("registry.name", "%s|read" % b.name, loc(b), "the identifier of the implementation is not the content of a file in the folder of the component")
        rep.floor("registry.name", "functions that read the name of an implementation", k, 1)
        # who writes the name
        k = 0
        for b in sorted(self.bodies, key=lambda b: b.id):
            if b.kind not in ("fn", "method") or not any(callee(t) and short(callee(t)["n"]).endswith("::save_to") and t["args"] and t["args"][0].get("p") and gs_dyn(b.ltys[t["args"][0]["p"][0]]) for _bb, t in b.calls()):
                continue
            out = Interp(prog, Names(self, {}), max_env=600).run(b.id, tuple(("x", "param", str(i)) for i in range(b.argc)), frozenset())
            good, any_ = True, False
            for ast, v, _m in out or []:
                if F.get(ast, "failed") or variant(v) == "Err":
                    continue
                for x in ast:
                    if isinstance(x[0], tuple) and x[0][0] == "saved":
                        any_ = True
                        _s, obj, d = x[0]
                        names = [(y[0][2][3], y[1]) for y in ast if isinstance(y[0], tuple) and y[0][0] == "w" and sym(y[0][2], "path") and y[0][2][2] == d]
                        ok = [nm for nm, val in names if sym(val, "sid") and val[2] == obj and nm is not None and nm[0] == "c"]
                        wrote |= {nm[1] for nm in ok}
                        if not ok:
                            good = False
            k += 1
            if good and any_:
                rep.ok("registry.name")
            else:
                rep.bad("registry.name", "%s|write" % b.name, loc(b), "the identifier of the saved implementation is not written to a file in the same folder")
        rep.floor("registry.name", "functions that save components", k, 1)
        # who lists the components
        self.relpath = {b.id for b in self.bodies if b.kind in ("fn", "method") and b.ltys[0].s.endswith("PathBuf") and b.argc == 1 and adt_name(b.ltys[1]) == "Component"}
        k = 0
        for b in sorted(self.bodies, key=lambda b: b.id):
            if b.kind != "fn" or not any(callee(t) and short(callee(t)["n"]).endswith("::read_dir") for _bb, t in b.calls()) or not any(x.is_adt("Component") for x in b.ltys[0].walk()):
                continue
            k += 1
            self.events = []
            cl = Listing(self, {})
            cl.mods = {x.id for x in self.bodies if x.file == b.file} - self.relpath
            out = Interp(prog, cl, max_env=400).run(b.id, tuple(("x", "param", str(i)) for i in range(b.argc)), frozenset())
            prob = set()
            for ast, v, _m in out or []:
                if variant(v) == "Ok" and any(isinstance(x[0], tuple) and x[0][0] == "due" for x in ast):
                    prob.add("a component with a file is not listed")
            for e in self.events:
                if e[0] == "lost":
                    prob.add("a component with a file is not listed")
                if e[0] == "unchecked":
                    prob.add("a component is listed although its file was not found")
                if e[0] == "file" and e[2] not in wrote:
                    prob.add("the components are recognised by the file '%s', which is not written" % e[2])
            files = {e[3] for e in self.events if e[0] == "file"}
            if not any(c is not None and c[4] == ("c", "") for c in files) or not any(sym(c) and c[4] != ("c", "") for c in files):
                prob.add("components without a name or components with a name are not searched")
            if any(c is None for c in files):
                prob.add("it is not known for which component a file is searched")
            if prob:
                for x in sorted(prob):
                    rep.bad("registry.name", "%s|%s" % (b.name, x), loc(b), x)
            else:
                rep.ok("registry.name")
        rep.floor("registry.name", "functions that list the components", k, 1)
        if read and wrote and not read <= wrote:
            rep.bad("registry.name", "file", "core/src/graph/mod.rs", "the identifier is read from '%s', but written to '%s'" % (", ".join(sorted(read)), ", ".join(sorted(wrote))))
        elif read and wrote:
            rep.ok("registry.name")


def split(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
            continue
        depth += (c == "<") - (c == ">")
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def check(pid, prog, rep):
    Check(prog, rep)
