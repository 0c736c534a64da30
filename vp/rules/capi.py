"""C21: the C API.

Every exported function is interpreted abstractly with symbolic pointers as arguments; the functions of the C API it uses are
followed. A state knows which pointers are null or not null (null checks fork), which errors of called operations have not been
reported yet, which errors are stored in the error argument and which objects have been given back.

 capi.null    a pointer is only followed (read, written, handed to a function that reads it) if it is known not to be null
 capi.result  a returned pointer is null, an object given to the caller, or (read only) part of an object of the caller
 capi.free    an object of the caller is only taken over by a function whose only purpose this is, once, as what it was created as
 capi.error   each error of a called operation is stored in the error argument, if there is one"""
from ..facts import callee, short
from ..interp import Client, Interp, OK, ERR, SOME, NONE, UNIT, TRUE, FALSE, fget, variant
from ..report import loc

CRATE = "graphannis_capi"
NULL = ("x", "null")
KEEP = ("clone", "as_ref", "as_mut", "deref", "deref_mut", "borrow", "borrow_mut", "as_slice", "as_mut_slice", "iter", "into_iter", "as_c_str",
        "as_deref", "copied", "index", "first", "last", "get", "get_unchecked", "iter_mut", "get_mut", "nth", "to_bytes", "by_ref", "as_ptr", "as_mut_ptr", "cast", "cast_mut", "cast_const")
LAZY = ("map", "map_ok", "filter", "filter_map", "flat_map", "flatten", "filter_map_ok", "filter_ok", "inspect", "take_while", "skip_while", "map_while", "scan", "chain", "skip", "take", "enumerate", "fuse")
SAFE = ("is_null", "cast", "cast_mut", "cast_const", "eq", "ne", "fmt", "addr", "clone", "as_ref", "as_mut", "new", "into", "from", "drop", "map", "is_some", "then", "then_some", "unwrap_or", "unwrap_or_else", "unwrap_or_default")


def sym(v, k=None):
    return v is not None and v[0] == "x" and (k is None or v[1] == k)


def root(v):
    """the argument a value is part of"""
    while sym(v, "part"):
        v = v[2]
    return v if sym(v, "arg") else None


def errs(v):
    """errors a value is made of"""
    if v is None:
        return frozenset()
    if sym(v, "err"):
        return v[2]
    if sym(v, "own"):
        return v[2]
    if v[0] == "a":
        r = frozenset()
        for _n, x in v[2]:
            r |= errs(x)
        return r
    return frozenset()


def raw(ty):
    return ty is not None and ty.k == "ptr"


class Api(Client):
    def __init__(self, chk, entry):
        self.chk, self.entry, self.prog = chk, entry, chk.prog
        self.visited = set()

    def interesting(self, bid):
        b = self.prog.bodies[bid]
        ok = b.crate == CRATE
        if ok:
            self.visited.add(bid)
        return ok

    def libfn(self, fid, cargs):
        n = fid.rsplit("::", 1)[-1]
        if n in ("null", "null_mut"):
            return NULL
        if n == "into_raw" and cargs:
            return self.owned(fid, cargs[0])
        if cargs and errs(cargs[0]):
            return ("x", "err", errs(cargs[0]))
        return None

    def owned(self, name, v):
        kind = "CString" if "c_str" in name or "CString" in name else "Box"
        return ("x", "own", errs(v), kind)

    # --- pointers
    def follow(self, body, ast, v, what, line):
        """a pointer is followed"""
        if sym(v, "arg"):
            if ("nonnull", v) not in ast:
                self.chk.problem("capi.null", self.entry, body, "the pointer '%s' is %s without a check for null" % (v[3], what), line, v[3])
            elif ("freed", v) in ast:
                self.chk.problem("capi.free", self.entry, body, "the pointer '%s' is %s after its object was given back" % (v[3], what), line, v[3])
            else:
                self.chk.count["capi.null"].add((body.id, v[3]))
        elif v == NULL:
            self.chk.problem("capi.null", self.entry, body, "a null pointer is %s" % what, line, "null")
        elif sym(v, "part") or sym(v, "own") or v is not None:
            self.chk.count["capi.null"].add((body.id, "part"))
        else:
            self.chk.problem("capi.null", self.entry, body, "a pointer of unknown origin is %s without a check for null" % what, line, "unknown")

    def nullness(self, ast, v):
        """outcomes (ast, is null)"""
        if v == NULL:
            return [(ast, True)]
        if sym(v, "arg") or sym(v, "ptr"):
            if ("nonnull", v) in ast:
                return [(ast, False)]
            if ("null", v) in ast:
                return [(ast, True)]
            return [(ast | {("null", v)}, True), (ast | {("nonnull", v)}, False)]
        if v is not None:
            return [(ast, False)]
        return None

    def places(self, x):
        if isinstance(x, dict):
            p = x.get("p")
            if isinstance(p, list):
                yield p
            for k, y in x.items():
                if k != "p" and isinstance(y, (dict, list)):
                    yield from self.places(y)
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, (dict, list)):
                    yield from self.places(y)

    def derefs(self, ip, body, ast, env, node, line):
        for p in self.places(node):
            for i, e in enumerate(p):
                if e == "*" and i == 1 and raw(body.ltys[p[0]]) and not self.frombox(body, p[0]):
                    v = ip.snapshot(env, ip.readp(env, (p[0], ())))
                    self.follow(body, ast, v, "used", line)
                elif e == "*" and i > 1 and self.rawfield(p[i - 1]):
                    self.chk.problem("capi.null", self.entry, body, "a pointer in a field is used without a check for null", line, "field")

    def rawfield(self, e):
        return False

    def frombox(self, body, local):
        ds = body.defs.get(local, [])
        return bool(ds) and all(self.boxdef(body, d) for d in ds)

    def boxdef(self, body, d):
        for p in self.places(d[3].get("r", {}) if d[0] == "=" else {}):
            if body.ltys[p[0]].is_adt("alloc::boxed::Box"):
                return True
        return False

    def assign(self, ip, body, bb, s, ast, env):
        if body.crate != CRATE:
            return ast
        self.visited.add(body.id)
        line = s.get("l")
        self.derefs(ip, body, ast, env, {"p": s["p"], "r": s["r"]}, line)
        # storing into the error argument
        p = s["p"]
        if len(p) == 2 and p[1] == "*":
            v = ip.snapshot(env, ip.readp(env, (p[0], ())))
            if sym(v, "arg") and v[2] == "err":
                ast = self.store(ip, body, ast, v, ip.snapshot(env, ip.rvalue(env, body, s["r"])), line)
        return ast

    def store(self, ip, body, ast, ptr, val, line):
        if val != NULL and not sym(val, "own"):
            self.chk.problem("capi.result", self.entry, body, "the stored error is not an object that is given to the caller", line, "err")
        return ast | {("stored", ptr, e) for e in errs(val)}

    def field(self, ip, body, base, name, owner):
        if base is None or not sym(base):
            return None
        if sym(base, "err"):
            return None if name.startswith("@") else base
        if sym(base, "arg") or sym(base, "part"):
            if name.startswith("@"):
                return None
            return ("x", "part", root(base))
        return None

    def branch(self, ip, body, bb, ast, s, taken):
        return ast

    # --- calls
    def call(self, ip, body, bb, t, f, ast, args):
        self.visited.add(body.id)
        line = t.get("l")
        if f is None:
            return None
        n = short(f["n"])
        own, _, m = n.rpartition("::")
        full = f["n"]
        a0 = args[0] if args else None
        dty = body.ltys[t["d"][0]] if len(t["d"]) == 1 else None
        if m == "is_null" and len(args) == 1:
            r = self.nullness(ast, a0)
            return [(a, ("i", int(z))) for a, z in r] if r is not None else [(ast, TRUE), (ast, FALSE)]
        if full.endswith(("ptr::null", "ptr::null_mut")):
            return [(ast, NULL)]
        argty = [self.opty(body, o) for o in t["args"]]
        if (raw(argty[0]) if argty else False) and m in ("as_ref", "as_mut") or own == "NonNull" and m == "new":
            r = self.nullness(ast, a0)
            if r is None:
                r = [(ast, True), (ast, False)]
                return [(a, NONE if z else SOME(("x", "part", None))) for a, z in r]
            return [(a, NONE if z else SOME(a0)) for a, z in r]
        if m in ("from_raw",):
            return self.take(body, ast, full, a0, line, argty[0] if argty else None)
        if m in ("into_raw", "leak"):
            if sym(a0, "arg"):
                return [(frozenset(x for x in ast if x != ("freed", a0)), a0)]
            return [(ast, self.owned(full, a0))]
        targets = [x for x in self.prog.targets(body, f) if x in self.prog.bodies]
        followed = [x for x in targets if self.prog.bodies[x].crate == CRATE]
        # a function outside of the C API reads through the pointers it is given
        if m in ("clone", "to_owned", "to_vec", "to_string") and (root(a0) is not None) and not raw(dty):
            return [(ast, None)]
        if not followed and own not in ("Option", "Result"):
            for ty, v in zip(argty, args):
                if raw(ty) and m not in SAFE:
                    if m in ("write", "replace") and sym(v, "arg") and v[2] == "err":
                        self.follow(body, ast, v, "written", line)
                        return [(self.store(ip, body, ast, v, args[1], line), NULL if m == "replace" else UNIT)]
                    self.follow(body, ast, v, "handed to %s" % n, line)
        elif followed and any(errs(v) for v in args) and not any(raw(ty) for ty in argty) and not any(variant(v) and (variant(v).startswith("fn:") or variant(v) in ("Ok", "Err")) for v in args):
            # builds an error from an error
            e = frozenset().union(*(errs(v) for v in args))
            if dty is not None and raw(dty):
                return [(ast, ("x", "own", e, "Box"))]
            return [(ast, ("x", "err", e))]
        if m == "then" and own.endswith("bool") and sym(a0):
            return None
        if m in ("drop", "forget"):
            return [(ast, UNIT)]
        # parts of objects
        if not followed and m in KEEP and a0 is not None and (sym(a0, "arg") or sym(a0, "part")) and m not in ("clone",):
            p = ("x", "part", root(a0))
            if raw(argty[0]) and m in ("cast", "cast_mut", "cast_const"):
                return [(ast, a0)]
            if m in ("first", "last", "get", "get_mut", "nth"):
                return [(ast, SOME(p)), (ast, NONE)]
            return [(ast, p)]
        if m == "next" and (sym(a0, "part") or sym(a0, "arg")) and dty is not None and not self.fallible(dty):
            return [(ast, SOME(("x", "part", root(a0))), "keep"), (ast, NONE, "keep")]
        if errs(a0) and (m in ("into", "from", "to_string", "new", "to_owned", "clone", "into_vec", "box_new", "boxed", "as_ref", "source") or f.get("tr") or dty is not None) and not followed:
            if own in ("Option", "Result") or m in ("branch", "from_residual"):
                return None
            if dty is not None and dty.k in ("bool", "int") or dty is not None and dty.s in ("bool", "usize"):
                return [(ast, None)]
            return [(ast, ("x", "err", errs(a0)))]
        if own == "Option" and m in ("unwrap_or", "unwrap_or_default") and variant(a0) in ("Some", "None"):
            return [(ast, fget(a0, "0") if variant(a0) == "Some" else args[1] if len(args) > 1 else None)]
        # operations that might fail
        if not followed and dty is not None and own not in ("Option", "Result") and m not in ("branch", "from_residual", "call", "call_once", "call_mut"):
            r = self.operation(body, bb, t, full, n, ast, dty, args)
            if r is not None:
                return r
        if not followed and own in ("Iterator", "Itertools") and m in LAZY:
            st = body.tys[f["self"]].s if "self" in f else ""
            return self.lazy(ip, m, ast, args, n if "Item = core::result::Result<" in st or "Item=core::result::Result<" in st else None)
        if m == "next" and dty is not None and dty.is_adt("core::option::Option") and variant(a0) != "[]":
            return [(ast, SOME(None)), (ast, NONE)]
        return None

    def lazy(self, ip, m, ast, args, results):
        """iterator adapters: errors that stay in the sequence are met again when it is used"""
        kept = args[0][2] if sym(args[0], "iter") else frozenset()
        fn = args[1] if len(args) > 1 else None
        if m == "flatten" or fn is not None and fn[0] == "fn" and fn[1].rsplit("::", 1)[-1] in ("ok", "is_ok"):
            # errors are dropped
            if results and not kept:
                kept = frozenset(["%s:%s" % (results, m)])
            return [(ast | {("failed", e) for e in kept}, ("x", "iter", frozenset()))]
        asts = {ast}
        if fn is not None:
            for a, v in ip.run_closure(fn, [], ast) or []:
                new = {x[1] for x in a if x[0] == "failed"} - {x[1] for x in ast if x[0] == "failed"}
                stay = errs(v) if m in ("map", "map_ok", "and_then", "filter_map_ok", "scan") or m == "filter_map" and variant(v) == "Some" else frozenset()
                kept |= stay
                asts.add(frozenset(x for x in a if x[0] != "failed" or x[1] not in new & stay))
        return [(a, ("x", "iter", frozenset(kept))) for a in asts]

    def opty(self, body, o):
        if o.get("p") and len(o["p"]) == 1:
            return body.ltys[o["p"][0]]
        return None

    def fallible(self, ty):
        """Result of an operation, possibly in an option"""
        if ty.is_adt("core::option::Option") and ty.a:
            ty = ty.a[0]
        return ty.is_adt("core::result::Result")

    def operation(self, body, bb, t, full, n, ast, dty, args):
        opt = dty.is_adt("core::option::Option")
        r = dty.a[0] if opt and dty.a else dty
        if not r.is_adt("core::result::Result"):
            return None
        e = r.a[1] if len(r.a) > 1 else None
        if e is None or "NulError" in e.s or "IntoStringError" in e.s or "Utf8Error" in e.s or e.s == "core::fmt::Error" or e.k == "param":
            return None
        site = "%s:%s" % (self.prog.root_fn(body.id).name, n)
        x = ("x", "err", frozenset([site]))
        self.chk.count["capi.error"].add(site)
        good = OK(("x", "val", site))
        out = [(ast, SOME(good) if opt else good), (ast | {("failed", site)}, SOME(ERR(x)) if opt else ERR(x))]
        if opt:
            out.append((ast, NONE))
        return out

    def take(self, body, ast, full, v, line, ty):
        if sym(v, "arg"):
            self.follow(body, ast, v, "freed", line)
            kind = "CString" if "c_str" in full or "CString" in full else "Box"
            want = "CString" if ty is not None and v[4] else "Box"
            if kind != want:
                self.chk.problem("capi.free", self.entry, body, "the object behind '%s' is freed as a %s" % (v[3], kind), line, v[3])
            return [(ast | {("freed", v)}, v)]
        if v == NULL:
            self.follow(body, ast, v, "freed", line)
        if sym(v, "part"):
            self.chk.problem("capi.free", self.entry, body, "a part of an object of the caller is freed", line, "part")
        return [(ast, None)]


class Check:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.count = {"capi.null": set(), "capi.error": set()}
        rep.rule("capi.null", "a pointer is only followed if it is known not to be null")
        rep.rule("capi.result", "a returned pointer is null, an object given to the caller or (read only) a part of an object of the caller")
        rep.rule("capi.free", "objects of the caller are only taken over by the functions that free them, once and as what they were created as")
        rep.rule("capi.error", "each error of a called operation is stored in the error argument")
        self.closures = set()
        entries = [b for b in prog.bodies.values() if b.crate == CRATE and b.nomangle]
        seen = set()
        for b in sorted(entries, key=lambda b: b.id):
            seen |= self.entry(b)
        rep.floor("capi.null", "exported functions", len(entries), 60)
        rep.floor("capi.null", "checked uses of pointers", len(self.count["capi.null"]), 15)
        rep.floor("capi.error", "operations that might fail", len(self.count["capi.error"]), 25)
        rep.fns(sorted(seen))
        # what was not reached by the interpretation must not contain uses of pointers or errors
        for b in prog.bodies.values():
            if b.crate == CRATE and b.id not in seen and b.kind != "promoted":
                self.unreached(b)

    def problem(self, rule, entry, body, what, line, key):
        self.rep.bad(rule, "%s|%s|%s" % (entry.name.rsplit("::", 1)[-1], what, body.name.rsplit("::", 1)[-1] if body is not None and body.kind != "closure" else ""),
                     loc(body if body is not None else entry, line) if line else loc(body if body is not None else entry), "%s: %s" % (entry.name.rsplit("::", 1)[-1], what))

    def entry(self, b):
        cl = Api(self, b)
        args = []
        perr = None
        ptrs = []
        for i in range(b.argc):
            ty = b.ltys[i + 1]
            if raw(ty):
                err = ty.s.count("*mut") == 2 and "Error" in ty.s
                v = ("x", "arg", "err" if err else i, b.lnames[i + 1] or str(i), ty.s.endswith(" i8") or ty.s.endswith("c_char"))
                if err:
                    perr = v
                ptrs.append(v)
                args.append(v)
            else:
                args.append(None)
        out = Interp(self.prog, cl, max_env=400).run(b.id, tuple(args), frozenset())
        if out is None:
            self.problem("capi.null", b, None, "the function could not be followed", None, "")
            return cl.visited
        rty = b.ltys[0]
        for ast, v, _m in out:
            if raw(rty):
                self.result(b, rty, v, ast)
            freed = {x[1] for x in ast if x[0] == "freed"}
            if freed and (rty.s != "()" or b.argc != 1):
                self.problem("capi.free", b, None, "the object behind '%s' is taken over by a function that is not only there to free it" % sorted(freed, key=repr)[0][3], None, "")
            failed = {x[1] for x in ast if x[0] == "failed"}
            if failed:
                if perr is None:
                    self.problem("capi.error", b, None, "an error of %s can not be reported" % sorted(failed)[0], None, "")
                elif ("null", perr) in ast:
                    pass
                else:
                    stored = {x[2] for x in ast if x[0] == "stored" and x[1] == perr}
                    lost = failed - stored
                    for s in sorted(lost):
                        self.problem("capi.error", b, None, "an error of %s is not stored in '%s'" % (s.rsplit(":", 1)[0] and s.split(":", 1)[-1].lstrip(":"), perr[3]), None, "")
        if raw(rty):
            self.rep.ok("capi.result", b.name)
        if perr is not None:
            self.rep.ok("capi.error", b.name)
        self.rep.ok("capi.null", b.name)
        return cl.visited | {b.id}

    def result(self, b, rty, v, ast):
        mut = rty.s.startswith("*mut")
        char = rty.s.endswith(" i8")
        if v == NULL:
            return
        if sym(v, "own"):
            if (v[3] == "CString") != char:
                self.problem("capi.result", b, None, "the returned object is created as a %s, but the caller frees it as something else" % v[3], None, "")
            if not mut:
                self.problem("capi.result", b, None, "an object is given to the caller as a read only pointer", None, "")
            return
        r = root(v)
        if r is not None:
            if mut:
                self.problem("capi.result", b, None, "a part of an object of the caller is returned as if it was a new object", None, "")
            elif ("freed", r) in ast:
                self.problem("capi.result", b, None, "a part of a freed object is returned", None, "")
            return
        self.problem("capi.result", b, None, "the returned pointer is not known to be owned by the caller or part of an object of the caller", None, "")

    def unreached(self, b):
        for blk in b.bbs:
            for s in blk["s"]:
                if s["k"] != "=":
                    continue
                cl = Api(self, b)
                for p in cl.places({"p": s["p"], "r": s["r"]}):
                    if len(p) > 1 and p[1] == "*" and raw(b.ltys[p[0]]) and not cl.frombox(b, p[0]):
                        self.problem("capi.null", b, b, "a pointer is used in a function that was not followed", s.get("l"), "")


def check(pid, prog, rep):
    Check(prog, rep)
