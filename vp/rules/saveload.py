"""C04: what a storage restores is what it saved.

For every storage implementation the saving function is interpreted abstractly: it yields, per outcome, a table of what is
written to which file at which position with which encoding. The loading function is interpreted on the same symbolic
directory; each field of the restored storage has to be what was written for this field, the parts that are not written have
to be rebuilt. Paths are symbolic (directory plus constant parts, format strings are decoded). For derived (de-)serializers
the order of the written fields is compared with the order they are read in."""
from ..facts import callee, short
from ..interp import Client, Interp, OK, ERR, SOME, NONE, UNIT, TRUE, FALSE, fget, variant
from ..report import loc
from .layers import F, struct, sym, strip
from .joins import adt_name

CRATE = "graphannis_core"
LOC = ("x", "loc")
DERIVED = ("PathBuf", "TempDir", "PhantomData")


def show(v):
    if v is None:
        return "?"
    if sym(v, "fld"):
        return v[3] if v[2] == ("x", "self") else show(v[2]) + "." + v[3]
    if sym(v, "some"):
        return show(v[2])
    if sym(v, "path"):
        return show(v[2]) + "/" + show(v[3])
    if v[0] == "c":
        return v[1]
    if sym(v, "ld"):
        return "%s of %s" % (v[2], show(v[3]))
    return {"loc": "<dir>"}.get(v[1], str(v[1]))


def text(parts):
    """constant text of a list of parts, or a symbol for it"""
    out = []
    for p in parts:
        if p is not None and p[0] == "c" and out and out[-1] is not None and out[-1][0] == "c":
            out[-1] = ("c", out[-1][1] + p[1])
        else:
            out.append(p)
    if len(out) == 1 and out[0] is not None:
        return out[0]
    return ("x", "text", tuple(out))


def template(t, args):
    """decodes the template of a format string without special formatting"""
    parts, i, k = [], 0, 0
    while i < len(t):
        c = ord(t[i])
        if c == 0:
            break
        if c < 0x80:
            parts.append(("c", t[i + 1:i + 1 + c]))
            i += 1 + c
        else:
            if k >= len(args):
                return None
            parts.append(args[k])
            k += 1
            i += 1
    return text(parts)


SIZES = {"bool": 1, "u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8, "f64": 8}


def size(prog, ty):
    """size of a serialized value, if it is the same for all values"""
    ty = ty.peel_refs()
    if ty.s in SIZES:
        return SIZES[ty.s]
    if ty.k == "adt" and ty.d in prog.adts and len(prog.adts[ty.d]["variants"]) == 1:
        x = [size(prog, t) for _n, t, _p in prog.adts[ty.d]["variants"][0]["f"]]
        return None if None in x else sum(x)
    return None


class Store(Client):
    def __init__(self, prog, mods, restorers):
        self.prog, self.mods, self.restorers = prog, mods, restorers

    def interesting(self, bid):
        return bid in self.mods

    def write(self, ast, enc, path, val):
        k = F.get(ast, ("pos", path), 0)
        ast = F.set(ast, ("pos", path), k + 1)
        return F.set(ast, ("w", enc, path, k), val if val is not None else ("x", "unknown"))

    def read(self, ast, enc, path, extra=None):
        k = F.get(ast, ("rpos", path), 0)
        return F.set(ast, ("rpos", path), k + 1), ("x", "ld", enc, path, k) + ((extra,) if extra is not None else ())

    def field(self, ip, body, base, name, owner):
        if base is None:
            return None
        if sym(base) and base[1] in ("self", "fld", "ld", "old"):
            if name.startswith("@"):
                return SOME(("x", "some", base)) if name == "@Some" else NONE if name == "@None" else None
            if name == "0" and (not owner or owner.startswith("core::option") or "Option" in owner):
                return ("x", "some", base)
            return ("x", "fld", base, name)
        return None

    def branch(self, ip, body, bb, ast, s, taken):
        if taken in ("Some", "None") and sym(s) and s[1] in ("fld", "ld"):
            old = F.get(ast, ("var", s))
            return None if old not in (None, taken) else F.set(ast, ("var", s), taken)
        return ast

    def exists(self, ast, p):
        old = F.get(ast, ("ex", p))
        return [(F.set(ast, ("ex", p), b), TRUE if b else FALSE) for b in ((True, False) if old is None else (old,))]

    def ok(self, ast, v, *muts):
        return [(ast, OK(v)) + muts, (F.set(ast, "failed", True), ERR()) + muts]

    def call(self, ip, body, bb, t, f, ast, args):
        if f is None:
            return None
        n = short(f["n"])
        own, _, m = n.rpartition("::")
        a0 = args[0] if args else None
        a1 = args[1] if len(args) > 1 else None
        rid = f.get("res") or f["id"]
        # texts and paths
        if own == "Argument" and m.startswith("new_"):
            return [(ast, ("x", "farg", a0))]
        if m.startswith("new_") and ("rt" in f["n"] or "fmt" in f["n"]) and len(args) == 1:
            return [(ast, ("x", "farg", a0))]
        if own == "Arguments" and m in ("new", "new_v1", "from_str", "from_str_nonconst", "new_const"):
            if len(args) == 1:
                return [(ast, ("x", "fa", a0))]
            ln = fget(a1, "#")
            fa = [fget(a1, str(i)) for i in range(ln[1] if ln else 0)]
            fa = [x[2] if sym(x, "farg") else x for x in fa]
            return [(ast, ("x", "fa", template(a0[1], fa) if a0 is not None and a0[0] == "c" else None))]
        if m in ("format", "format_inner") and sym(a0, "fa"):
            return [(ast, a0[2])]
        if n in ("Path::join", "PathBuf::join"):
            p = a0
            for part in (a1[1].split("/") if a1 is not None and a1[0] == "c" else [None]):
                p = ("x", "path", p, ("c", part) if part is not None else a1)
            return [(ast, p)]
        if m in ("to_path_buf", "as_path", "to_owned", "clone", "as_ref", "into", "from", "as_os_str", "to_string", "as_str") and (sym(a0, "path") or a0 == LOC):
            return [(ast, a0)]
        if m in ("is_file", "exists", "is_dir", "try_exists") and (sym(a0, "path") or a0 == LOC):
            r = self.exists(ast, a0)
            return [(a, OK(v)) for a, v in r] if m == "try_exists" else r
        if m in ("eq", "ne") and len(args) == 2 and {x[1] for x in args if sym(x)} & {"path", "old"} and all(sym(x) for x in args):
            return [(F.set(ast, "same", (a0, a1)), TRUE if m == "eq" else FALSE), (ast, FALSE if m == "eq" else TRUE)]
        # files
        if n in ("File::open", "File::create", "File::create_new") or (own == "OpenOptions" and m == "open"):
            p = a0 if own == "File" else a1
            return self.ok(ast, ("x", "file", p))
        if own == "NamedTempFile" and m in ("new_in", "new"):
            return self.ok(ast, ("x", "file", ("x", "tmp", body.id, bb)))
        if sym(a0, "file") and m in ("persist", "persist_noclobber"):
            keep = [x for x in ast if not (isinstance(x[0], tuple) and x[0][0] in ("w", "pos") and a0[2] in x[0])]
            for x in ast:
                if isinstance(x[0], tuple) and x[0][0] == "w" and x[0][2] == a0[2]:
                    keep.append((("w", x[0][1], a1, x[0][3]), x[1]))
            return self.ok(frozenset(keep), None)
        if own in ("BufWriter", "BufReader", "LineWriter") and m in ("new", "with_capacity"):
            return [(ast, args[-1])]
        if own in ("Mmap", "MmapOptions") and m == "map":
            x = args[-1]
            ast, v = self.read(ast, "raw", x[2] if sym(x, "file") else None)
            return self.ok(ast, v)
        if m == "metadata" and sym(a0, "file"):
            return self.ok(ast, ("x", "meta", a0[2]))
        if m == "len" and sym(a0, "meta"):
            return [(ast, ("x", "len", a0[2]))]
        if m in ("deref", "index", "as_ref", "as_slice") and sym(a0) and a0[1] in ("fld", "ld", "some"):
            return [(ast, a0)]
        if m == "copy" and len(args) == 2 and sym(a1, "file"):
            return self.ok(self.write(ast, "raw", a1[2], a0), None)
        if n.startswith("bincode::") or (m in ("serialize_into", "deserialize_from", "serialize", "deserialize") and "bincode" in f["n"]):
            if m == "serialize_into":
                return self.ok(self.write(ast, "bincode", a0[2] if sym(a0, "file") else None, a1), None)
            if m == "deserialize_from":
                ast, v = self.read(ast, "bincode", a0[2] if sym(a0, "file") else None)
                return self.ok(ast, v)
            if m == "serialize":
                return self.ok(ast, ("x", "enc", "bincode", a0))
        if "toml" in f["n"] and m in ("to_string", "to_string_pretty"):
            return self.ok(ast, ("x", "enc", "toml", a0))
        if "toml" in f["n"] and m == "from_str" and sym(a0, "content"):
            ast, v = self.read(ast, "toml", a0[2])
            return self.ok(ast, v)
        if m in ("read_to_string", "read") and n.startswith("fs::"):
            return self.ok(ast, ("x", "content", a0))
        if n == "fs::write":
            if sym(a1, "enc"):
                return self.ok(self.write(ast, a1[2], a0, a1[3]), None)
            return self.ok(self.write(ast, "?", a0, None), None)
        if sym(a0, "file") and m in ("write_all", "write"):
            if sym(a1, "enc"):
                return self.ok(self.write(ast, a1[2], a0[2], a1[3]), None)
            return self.ok(self.write(ast, "?", a0[2], None), None)
        if n in ("fs::remove_file", "fs::remove_dir_all"):
            keep = [x for x in ast if not (isinstance(x[0], tuple) and x[0][0] in ("w", "pos") and a0 in x[0])]
            return self.ok(frozenset(keep), None)
        if own == "fs":
            return self.ok(ast, None)
        # disk based maps
        if own == "BtreeConfig":
            c = () if m == "default" else (a0[2] if sym(a0, "cfg") else ()) + ((m, a1),)
            return [(ast, ("x", "cfg", c))]
        if own == "Default" and m == "default" and len(t["d"]) == 1 and adt_name(body.ltys[t["d"][0]]) == "BtreeConfig":
            return [(ast, ("x", "cfg", ()))]
        if n == "mem::size_of" and not args and f.get("a"):
            k = size(self.prog, body.tys[f["a"][0]])
            if k is not None:
                return [(ast, ("i", k))]
        if m == "key_size" and not args:
            return [(ast, ("x", "keysize"))]
        if own == "DiskMap":
            if m == "write_to":
                return self.ok(self.write(ast, "map", a1, a0), None)
            if m == "new":
                p = strip(a0, ("Some",))
                ast, v = self.read(ast, "map", p if sym(p) else None, args[-1])
                return self.ok(ast, v)
            if m in ("new_temporary", "default"):
                return [(ast, ("x", "newmap", args[-1] if args else ("x", "cfg", ())))]
        if rid in self.restorers:
            return [(F.set(ast, ("restored", a0), True), UNIT, "keep")]
        return None

    def binop(self, ip, body, op, a, b):
        o = op.replace("WithOverflow", "").replace("Unchecked", "")
        if o in ("Add", "Mul") and a is not None and b is not None and a[0] == b[0] == "i":
            return ("i", a[1] + b[1] if o == "Add" else a[1] * b[1])
        if o in ("Add", "Mul") and (sym(a, "keysize") or sym(a, "arith")) and b is not None:
            return ("x", "arith", o, a, b)
        if o in ("Add", "Mul") and a is not None and (sym(b, "keysize") or sym(b, "arith")):
            return ("x", "arith", o, b, a)
        return None


class Check:
    def __init__(self, pid, prog, rep):
        self.prog, self.rep = prog, rep
        rep.rule("saveload.table", "each part of a storage is restored from the file, position and encoding it is written to, each other part is rebuilt")
        rep.rule("saveload.order", "derived (de-)serializers write and read the same fields in the same order")
        rep.rule("saveload.rebuild", "fields that are left out when writing are rebuilt from the written fields")
        rep.rule("saveload.config", "a disk based map is always opened with compatible sizes for its keys and values")
        self.bodies = [b for b in prog.bodies.values() if b.crate == CRATE and b.kind != "promoted"]
        self.mods = {b.id for b in self.bodies if "/graph/storage/" in b.file or "/annostorage/" in b.file}
        self.skipped, self.restorers = {}, {}
        self.cfgs = {}
        self.derived()
        self.rebuild()
        self.pairs()
        self.config()

    def fields(self, adt):
        vs = self.prog.adts[adt]["variants"]
        return [(n, ty) for n, ty, _p in vs[0]["f"]] if len(vs) == 1 else []

    # --- derived serializers
    def derived(self):
        ser, de = {}, {}
        for b in self.bodies:
            if b.kind != "method":
                continue
            if b.method == "serialize" and str(b.trait).endswith("ser::Serialize") and b.selfty is not None and b.selfty.k == "adt":
                r = self.written(b)
                if r is not None:
                    ser[b.selfty.d] = (b, r)
            if b.method == "visit_seq":
                r = self.readback(b)
                for d, x in r.items():
                    de.setdefault(d, []).append((b, x))
        n = 0
        for d, (b, order) in sorted(ser.items()):
            fs = self.fields(d)
            names = [x for x, _t in fs]
            skip = [x for x in names if x not in order]
            prob = []
            if d not in de:
                continue
            if skip:
                self.skipped[d] = skip
            n += 1
            for b2, outs in de[d]:
                for got in outs:
                    for x in names:
                        v = got.get(x)
                        if x in order and v != ("x", "el", order.index(x)):
                            prob.append("field %s is not read at the position it is written" % x)
                        if x in skip and sym(v, "el"):
                            prob.append("field %s is read but not written" % x)
                self.report("saveload.order", b, adt_name(b.selfty), prob)
        self.rep.floor("saveload.order", "derived serializers", n, 8)

    def written(self, b):
        seqs = []

        class C(Client):
            def call(s, ip, body, bb, t, f, ast, args):
                if f is None:
                    return None
                n = short(f["n"])
                m = n.rpartition("::")[2]
                if m == "serialize_struct":
                    return [(ast, OK(("x", "ser"))), (F.set(ast, "err", True), ERR())]
                if m == "serialize_field" and len(args) == 3:
                    k = F.get(ast, "n", 0)
                    a = F.set(F.set(ast, "n", k + 1), ("f", k), args[2])
                    return [(a, OK(), "keep"), (F.set(ast, "err", True), ERR(), "keep")]
                if m == "skip_field":
                    return [(ast, OK(), "keep")]
                if m == "end":
                    return [(F.set(ast, "end", True), OK())]
                return None

            def field(s, ip, body, base, name, owner):
                return ("x", "fld", base, name) if sym(base, "self") else None
        for ast, _v, _m in Interp(self.prog, C()).run(b.id, (("x", "self"), None), frozenset()) or []:
            if F.get(ast, "end"):
                x = [F.get(ast, ("f", i)) for i in range(F.get(ast, "n", 0))]
                seqs.append(tuple(v[3] if sym(v, "fld") else None for v in x))
        return seqs[0] if len(set(seqs)) == 1 else None

    def readback(self, b):
        class C(Client):
            def call(s, ip, body, bb, t, f, ast, args):
                if f is None:
                    return None
                m = short(f["n"]).rpartition("::")[2]
                if m in ("next_element", "next_element_seed"):
                    k = F.get(ast, "n", 0)
                    return [(F.set(ast, "n", k + 1), OK(SOME(("x", "el", k))), "keep"), (ast, OK(NONE), "keep"), (ast, ERR(), "keep")]
                return None
        out = {}
        rt = [x for x in b.ltys[0].walk() if x.k == "adt" and x.d in self.prog.adts and x.d.startswith(CRATE) and len(self.prog.adts[x.d]["variants"]) == 1]
        if not rt:
            return out
        for _a, v, _m in Interp(self.prog, C()).run(b.id, (None,) * b.argc, frozenset()) or []:
            if variant(v) == "Ok":
                s = fget(v, "0")
                out.setdefault(rt[0].d, []).append({n: fget(s, n) for n, _t in self.fields(rt[0].d)})
        return out

    # --- fields that are not written
    def rebuild(self):
        for d, skip in sorted(self.skipped.items()):
            found = []
            for b in self.bodies:
                if b.kind == "method" and b.argc == 1 and b.trait is None and b.selfty is not None and b.selfty.is_adt(d) and b.ltys[1].s.startswith("&mut"):
                    r = self.restores(b, skip)
                    if r is not None:
                        found.append((b, r))
            good = [b for b, p in found if not p]
            if good:
                for b in good:
                    self.restorers[b.id] = d
                    self.rep.ok("saveload.rebuild", "%s" % b.name)
            elif found:
                self.report("saveload.rebuild", found[0][0], adt_name_of(d), found[0][1])
                for b, _p in found:
                    self.restorers[b.id] = d
            else:
                self.rep.bad("saveload.rebuild", "%s|no function rebuilds %s" % (d, ",".join(skip)), d, "the fields %s are left out when writing, but no function rebuilds them" % ",".join(skip))
        self.rep.floor("saveload.rebuild", "types with fields that are not written", len(self.skipped), 1)

    def restores(self, b, skip):
        """None: does not rebuild; otherwise the problems"""
        got = []
        AT, IDX = ("x", "at"), ("x", "idx")
        el = lambda v: ("x", "pipe", v)

        class C(Client):
            def field(s, ip, body, base, name, owner):
                if name == "[]" and sym(base, "fld") and base[3] not in skip:
                    return AT if owner == IDX else ("x", "at", owner)
                if sym(base, "at") and name == "0":
                    return base
                if sym(base, "at") and name == "@Some":
                    return SOME(base)
                return None

            def call(s, ip, body, bb, t, f, ast, args):
                if f is None:
                    return None
                own, _, m = short(f["n"]).rpartition("::")
                a0 = args[0] if args else None
                a1 = args[1] if len(args) > 1 else None
                if m == "len" and sym(a0, "fld"):
                    return [(ast, ("x", "len"))]
                if fget(a0, "end") == ("x", "len") and fget(a0, "start") == ("i", 0):
                    a0 = el(IDX)
                if sym(a0, "fld") and m in ("deref", "as_slice"):
                    return [(ast, a0)]
                if sym(a0, "fld") and a0[3] not in skip and m in ("iter", "into_iter"):
                    return [(ast, el(AT))]
                if m in ("extend", "insert", "push") and sym(a0, "fld") and a0[3] in skip:
                    if m == "extend":
                        x = a1[2] if sym(a1, "pipe") or sym(a1, "coll") else None
                        got.append((fget(x, "0"), fget(x, "1")))
                    else:
                        got.append(tuple(args[1:]))
                    return [(ast, None, "keep")]
                if m == "get" and sym(a0, "fld") and a0[3] not in skip:
                    return [(ast, SOME(AT if a1 == IDX else ("x", "at", a1)))]
                if m == "index" and sym(a0, "fld") and a0[3] not in skip:
                    return [(ast, AT if a1 == IDX else ("x", "at", a1))]
                if m in ("clone", "as_ref", "cloned", "unwrap", "into_iter", "iter") and sym(a0, "at"):
                    return [(ast, a0)]
                if m in ("map", "and_then") and sym(a0, "at"):
                    return ip.run_closure(a1, (a0,), ast)
                if sym(a0, "pipe"):
                    x = a0[2]
                    if m == "next":
                        return [(ast, SOME(x)), (ast, NONE)]
                    if m in ("into_iter", "iter", "by_ref"):
                        return [(ast, a0)]
                    if m == "enumerate":
                        return [(ast, el(struct([("0", IDX if x == AT else ("x", "rank")), ("1", x)])))]
                    if m == "zip":
                        y = a1[2] if sym(a1, "pipe") else IDX if fget(a1, "start") == ("i", 0) else None
                        return [(ast, el(struct([("0", x), ("1", y)])))]
                    if m == "flatten":
                        return [(ast, el(("x", "flat")))]
                    if m in ("map", "filter_map", "flat_map"):
                        out = []
                        for a, v in ip.run_closure(a1, (x,), ast) or []:
                            if m == "filter_map" and v == NONE:
                                continue
                            out.append((a, el(strip(v, ("Some",)) if m == "filter_map" else v)))
                        return out
                    if m == "filter":
                        return [(ast, a0)]
                    if m == "for_each":
                        return [(a, UNIT) for a, _v in ip.run_closure(a1, (x,), ast) or [(ast, None)]]
                    if m == "collect":
                        return [(ast, ("x", "coll", x))]
                return None

            def branch(s, ip, body, bb, ast, sv, taken):
                return ast
        init = struct([(n, ("x", "fld", ("x", "self"), n)) for n, _t in self.fields(b.selfty.d)])
        for _a, _v, m in Interp(self.prog, C()).run(b.id, (init,), frozenset()) or []:
            for n in skip:
                x = fget(m[0], n) if m else None
                if sym(x, "coll"):
                    got.append((fget(x[2], "0"), fget(x[2], "1")))
        if not got:
            return None
        at = [x[1] for x in got if x[0] == ("x", "at", x[1]) and (x[1] is None or x[1][0] == "i")]
        same = [x for x in got if x == (AT, IDX)] + [x for x in at if ("i", 0) in at]
        return [] if len(same) == len(got) else ["rebuilds something else than the written values and their positions"]

    def holes(self, ty, path, depth=0):
        """paths of values inside of a type which need to be rebuilt"""
        ty = ty.peel_refs()
        if ty.k != "adt" or depth > 4:
            return []
        if ty.d in self.skipped:
            return [path]
        if not ty.d.startswith(CRATE) or ty.d not in self.prog.adts:
            return []
        out = []
        for n, t in self.fields(ty.d):
            out += self.holes(t, ("x", "fld", path, n), depth + 1)
        return out

    # --- storages
    def pairs(self):
        n = 0
        for b in sorted(self.bodies, key=lambda x: x.id):
            if b.kind != "method" or b.trait is None or b.method not in ("save_to", "save_annotations_to"):
                continue
            d = b.selfty.d
            loaders = [x for x in self.bodies if x.kind == "method" and x.selfty is not None and x.selfty.is_adt(d)
                       and x.trait == b.trait and x.method == {"save_to": "load_from", "save_annotations_to": "load_annotations_from"}[b.method]]
            news = [x for x in self.bodies if x.kind == "method" and x.trait is None and x.selfty is not None and x.selfty.is_adt(d)
                    and x.argc == 1 and "Option<std::path::PathBuf>" in x.ltys[1].s and any(y.is_adt(d) for y in x.ltys[0].walk())]
            saves = self.saved(b)
            if not saves:
                self.rep.bad("saveload.table", "%s|no outcome" % b.name, loc(b), "saving has no known outcome")
                continue
            for ld in loaders:
                n += 1
                self.pair(d, b, saves, ld, LOC)
            for ld in news:
                n += 1
                self.pair(d, b, saves, ld, None)
                self.run(ld, d, NONE)
            if not loaders:
                self.rep.bad("saveload.table", "%s|no loader" % b.name, loc(b), "there is no function that loads what is saved")
        self.rep.floor("saveload.table", "pairs of saving and loading functions", n, 8)

    def saved(self, b):
        cl = Store(self.prog, self.mods, self.restorers)
        self.rep.fns([b.id])
        out = []
        for ast, v, _m in Interp(self.prog, cl).run(b.id, (("x", "self"), LOC), frozenset()) or []:
            if variant(v) != "Ok" or F.get(ast, "failed"):
                continue
            w = {x[0][1:]: x[1] for x in ast if isinstance(x[0], tuple) and x[0][0] == "w"}
            none = {x[0][1] for x in ast if isinstance(x[0], tuple) and x[0][0] == "var" and x[1] == "None"}
            if (w, none) not in out:
                out.append((w, none))
        return out

    def run(self, ld, d, arg):
        cl = Store(self.prog, self.mods, self.restorers)
        self.rep.fns([ld.id])
        if ld.argc == 2:
            init = struct([(n, ("x", "old", n)) for n, _t in self.fields(d)])
            res = [(a, m[0] if m else None, v) for a, v, m in Interp(self.prog, cl).run(ld.id, (init, arg), frozenset()) or []]
        else:
            res = [(a, fget(v, "0"), v) for a, v, _m in Interp(self.prog, cl).run(ld.id, (arg,), frozenset()) or []]
        out = []
        for a, s, v in res:
            if variant(v) == "Ok" and not F.get(a, "failed") and (a, s) not in out:
                out.append((a, s))
                for n, _t in self.fields(d):
                    x = fget(s, n)
                    if sym(x, "ld") and len(x) > 5 or sym(x, "newmap"):
                        self.cfgs.setdefault((d, n), set()).add((x[-1], ld.id))
        return out

    def pair(self, d, b, saves, ld, arg):
        prob, n = set(), 0
        for w, none in saves:
            paths = {k[1] for k in w}
            a = arg
            if a is None:
                dirs = {p[2] for p in paths if sym(p, "path")}
                a = SOME(list(dirs)[0]) if len(dirs) == 1 else None
            ok = False
            for ast, s in self.run(ld, d, a):
                ex = {x[0][1]: x[1] for x in ast if isinstance(x[0], tuple) and x[0][0] == "ex"}
                if any(v and p not in paths for p, v in ex.items()):
                    self.legacy(d, s, ast, prob)
                if any(v != (p in paths) for p, v in ex.items()):
                    continue
                ok = True
                used = set()
                self.compare(d, ("x", "self"), s, w, none, ast, prob, used)
                for k, v in w.items():
                    if k not in used and not (F.get(ast, "same") and k[0] == "map"):
                        prob.add("%s is written to %s but not restored from it" % (show(v), show(k[1])))
                n += len(used)
            if not ok:
                prob.add("what is saved cannot be loaded")
        self.report("saveload.table", ld, adt_name_of(d), sorted(prob), max(1, n))

    def legacy(self, d, s, ast, prob):
        """values taken from a file of an older version: only from the field with the same name"""
        for n, ty in self.fields(d):
            v = fget(s, n)
            if sym(v, "fld") and sym(v[2], "ld"):
                if v[3] != n:
                    prob.add("%s is restored from the %s of an older version" % (n, v[3]))
                for h in self.holes(ty, v):
                    if not F.get(ast, ("restored", h)) and not F.get(ast, ("restored", ("x", "fld", ("x", "self"), n) + h[3:])):
                        prob.add("the parts of %s that are not written are not rebuilt" % show(h))

    def compare(self, d, me, s, w, none, ast, prob, used):
        if sym(s, "ld"):
            self.loaded(me, None, s, w, prob, used, ast, d)
            return
        if s is None or s[0] != "a":
            prob.add("%s is restored from something unknown" % (show(me) if me != ("x", "self") else "the storage"))
            return
        for n, ty in self.fields(d):
            v = fget(s, n)
            f = ("x", "fld", me, n)
            tn = {adt_name(x) for x in ty.walk() if x.k == "adt"}
            if variant(v) == "Some" and sym(fget(v, "0"), "ld"):
                self.loaded(("x", "some", f), ty, fget(v, "0"), w, prob, used, ast)
            elif sym(v, "ld"):
                self.loaded(f, ty, v, w, prob, used, ast)
            elif v == NONE and f in none:
                continue
            elif v is not None and v[0] == "a" and ty.k == "adt" and ty.d.startswith(CRATE) and ty.d in self.prog.adts and len(self.prog.adts[ty.d]["variants"]) == 1:
                self.compare(ty.d, f, v, w, none, ast, prob, used)
            elif sym(v, "old") and (F.get(ast, "same") or tn & set(DERIVED)):
                continue
            elif sym(v, "len") and v[2] in {k[1] for k in w}:
                continue
            elif tn & set(DERIVED) or "PathBuf" in ty.s:
                continue
            else:
                prob.add("%s is not restored" % show(f))

    def loaded(self, f, ty, v, w, prob, used, ast, d=None):
        k = (v[2], v[3], v[4])
        if k not in w:
            near = [x for x in w if x[1] == v[3]]
            prob.add("%s is read from %s, %s" % (show(f), show(v[3]), "which is written in another way" if near else "which is not written"))
            return
        used.add(k)
        want = w[k]
        if want != f and not (sym(f, "some") and want == f[2]):
            prob.add("%s is restored from what was written for %s" % (show(f) if f != ("x", "self") else "the storage", show(want)))
        if v[2] == "bincode":
            t = ty
            hs = []
            if d is not None:
                for n, t2 in self.fields(d):
                    hs += self.holes(t2, ("x", "fld", v, n))
            elif t is not None:
                hs = self.holes(t, v)
            for h in hs:
                if not F.get(ast, ("restored", h)):
                    prob.add("the parts of %s that are not written are not rebuilt" % (show(f) if f != ("x", "self") else show(h)))

    def config(self):
        n = 0
        for (d, fld), cs in sorted(self.cfgs.items(), key=str):
            prob = []
            ty = dict(self.fields(d))[fld]
            va = ty.a[1] if ty.k == "adt" and len(ty.a) > 1 else None
            keys, vals = set(), set()
            for c, _id in cs:
                if not sym(c, "cfg"):
                    continue
                n += 1
                for m, x in c[2]:
                    sz = [size(self.prog, y) for y in ty.a[:2]] if ty.k == "adt" and len(ty.a) > 1 else [None, None]
                    if m == "fixed_key_size":
                        keys.add(x)
                        if sz[0] is not None and x is not None and x[0] == "i" and x[1] < sz[0]:
                            prob.append("keys need %d bytes, but a size of %d bytes is assumed" % (sz[0], x[1]))
                    if m == "fixed_value_size" and sz[1] is not None and x is not None and x[0] == "i" and x[1] < sz[1] + 1:
                        prob.append("optional values need %d bytes, but a size of %d bytes is assumed" % (sz[1] + 1, x[1]))
                    if m == "fixed_value_size":
                        vals.add(x)
                        if va is not None and any(adt_name(y) in ("String", "Vec", "ByteBuf", "SmartString") or y.k == "str" for y in va.walk()):
                            prob.append("a fixed size is assumed for values that have no fixed size")
            if len(keys) > 1:
                prob.append("different fixed sizes are assumed for the same keys")
            if len(vals) > 1:
                prob.append("different fixed sizes are assumed for the same values")
            b = self.prog.bodies[sorted(i for _c, i in cs)[0]]
            self.report("saveload.config", b, adt_name_of(d) + "." + fld, prob)
        self.rep.floor("saveload.config", "configurations of disk based maps", n, 6)

    def report(self, rule, b, cfg, prob, n=1):
        if prob:
            for p in sorted(set(prob)):
                self.rep.bad(rule, "%s|%s|%s" % (b.name, cfg, p), loc(b), "%s (%s)" % (p, cfg))
        else:
            for _ in range(n):
                self.rep.ok(rule, "%s %s" % (b.name, cfg))


def adt_name_of(d):
    return d.rsplit("::", 1)[1]


def check(pid, prog, rep):
    Check(pid, prog, rep)
