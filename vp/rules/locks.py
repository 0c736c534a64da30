"""C10 (and the lock states used by C11, C12): which locks are held where, and in which order they are taken.

A forward may-analysis over each function determines the lock guards (and pooled connections) that are alive at every call.
Together with the locks that the called functions may take (transitively, including dynamic calls, callbacks and destructors)
this gives the order in which locks are taken, by the kind of data they protect.
"""
import collections, functools
from ..facts import callee, short, plain
from ..report import loc

GUARDS = {"RwLockReadGuard": "r", "RwLockWriteGuard": "w", "MutexGuard": "w", "PooledConnection": "w", "MappedMutexGuard": "w"}
PRIM = {"RwLock::read": "r", "RwLock::write": "w", "RwLock::try_read": "r", "RwLock::try_write": "w", "Mutex::lock": "w", "Mutex::try_lock": "w",
        "Pool::get": "w", "Pool::get_timeout": "w", "Pool::try_get": "w"}
TRY = {"RwLock::try_read", "RwLock::try_write", "Mutex::try_lock", "Pool::try_get"}
WAITS = {"JoinHandle::join", "Condvar::wait", "Condvar::wait_while", "Condvar::wait_timeout", "Receiver::recv", "Barrier::wait", "ScopedJoinHandle::join",
         "Condvar::wait_timeout_while", "Receiver::recv_timeout", "thread::park", "thread::sleep"}
SPAWN = ("::spawn", "::spawn_fifo", "::spawn_blocking", "::spawn_local")


def cls(ty):
    """{(protected data, mode)} of the guards in a type"""
    r = set()
    for t in ty.walk():
        if t.k == "adt":
            n = t.d.rsplit("::", 1)[-1]
            if n in GUARDS and t.a:
                if n == "PooledConnection":
                    r.add(("database connection", "w"))
                else:
                    r.add((label(t.a[0]), GUARDS[n]))
    return frozenset(r)


@functools.lru_cache(maxsize=None)
def label(t):
    s = t.s
    if "LinkedHashMap" in s and "CacheEntry" in s:
        return "corpus cache"
    if s.endswith("CacheEntry"):
        return "cache entry"
    return s.replace("alloc::", "").replace("std::", "")


NONE = frozenset()


class Locks:
    def __init__(self, prog):
        self.prog = prog
        self._flow = {}
        self._dropacq = {}
        self.spawned = set()
        self.cb = collections.defaultdict(set)      # function -> closures it may call back
        self.scan()
        self.solve()

    # --- type helpers
    def clsty(self, ty):
        c = getattr(self, "_cls", None)
        if c is None:
            c = self._cls = {}
        k = id(ty)
        if k not in c:
            c[k] = cls(ty) if ty.k not in ("ref", "ptr") else NONE
        return c[k]

    def droppers(self, ty, d=0):
        """workspace Drop implementations that dropping a value of this type may run"""
        k = ty.s
        if k in self._dropacq:
            return self._dropacq[k]
        self._dropacq[k] = set()
        r = set()
        if d < 8 and ty.k not in ("ref", "ptr"):
            for t in ty.walk():
                if t.k == "adt":
                    for im in self.prog.impls_by_trait.get("core::ops::drop::Drop", []):
                        if im["selfty"].k == "adt" and im["selfty"].d == t.d:
                            r |= {i["id"] for i in im["items"] if i["id"] in self.prog.bodies}
                    a = self.prog.adts.get(t.d)
                    if a:
                        for v in a["variants"]:
                            for _n, ft, _p in v["f"]:
                                r |= self.droppers(ft, d + 1)
                if t.k in ("closure", "coroutine"):
                    pass
        self._dropacq[k] = r
        return r

    # --- what a call may run
    def closures_in(self, body, o):
        if "p" in o:
            return [t.d for t in body.ltys[o["p"][0]].walk() if t.k in ("closure", "coroutine") and t.d in self.prog.bodies]
        if "fn" in o:
            return self.prog.targets(body, o["fn"])
        if "ty" in o:
            return [t.d for t in body.tys[o["ty"]].walk() if t.k == "closure" and t.d in self.prog.bodies]
        return []

    def scan(self):
        prog = self.prog
        self.direct = collections.defaultdict(set)   # body -> {(class, mode)}
        self.calls = collections.defaultdict(set)    # body -> bodies run by it
        passes = []
        for b in prog.bodies.values():
            if b.kind == "promoted":
                continue
            for i, t in b.calls():
                f = callee(t)
                if f is None:
                    self.param_call(b, passes, t)
                    continue
                sh = short(f["n"])
                if sh in PRIM and len(t["d"]) == 1:
                    for c, m in cls(b.ltys[t["d"][0]]):
                        self.direct[b.id].add((c, m))
                tg = prog.targets(b, f, True)
                self.calls[b.id].update(tg)
                cl = [c for o in t["args"] for c in self.closures_in(b, o)]
                if plain(f["n"]).endswith(SPAWN):
                    self.spawned.update(cl)
                    continue
                for x in tg:
                    for c in cl:
                        self.cb[x].add(c)
                # a callback parameter that is handed on
                if f.get("tr", "").startswith("core::ops::function::Fn"):
                    self.param_call(b, passes, t)
                elif tg:
                    for o in t["args"]:
                        if "p" in o and b.ltys[o["p"][0]].peel().k in ("param", "dyn"):
                            for x in tg:
                                passes.append((b.id, x))
                else:
                    self.calls[b.id].update(cl)
            for bb in b.bbs:
                t = bb["t"]
                if t["k"] == "drop":
                    ty = b.ltys[t["p"][0]]
                    if len(t["p"]) == 1:
                        self.calls[b.id] |= self.droppers(ty)
                for s in bb["s"]:
                    if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"]["g"] in ("closure", "coroutine") and s["r"]["d"] in prog.bodies:
                        self.calls[b.id].add(s["r"]["d"])
        for b in self.calls:
            self.calls[b] -= self.spawned
        # callbacks: a function may run what it was given; so may the closures inside of it
        ch = True
        while ch:
            ch = False
            for a, x in passes:
                n = self.cb[a] - self.cb[x] if x is not None else None
                if n:
                    self.cb[x] |= n
                    ch = True
            for b in prog.bodies.values():
                if b.kind in ("closure", "coroutine") and self.cb.get(b.parent, NONE) - self.cb[b.id]:
                    self.cb[b.id] |= self.cb[b.parent]
                    ch = True
        # functions that call or hand on what they were given
        self.usescb = {a for a, _x in passes}

    def param_call(self, b, passes, t):
        passes.append((b.id, None))

    def solve(self):
        acq = {b: set(self.direct.get(b, ())) for b in self.prog.bodies}
        rev = collections.defaultdict(set)
        for a, xs in self.calls.items():
            for x in xs:
                rev[x].add(a)
        st = [b for b in acq if acq[b]]
        while st:
            x = st.pop()
            for a in rev.get(x, ()):
                n = acq[x] - acq[a]
                if n:
                    acq[a] |= n
                    st.append(a)
        self.acq = acq

    def callbacks(self, bid, seen=None):
        """locks that may be taken by what the function was given to call back"""
        seen = set() if seen is None else seen
        r = set()
        if bid in seen:
            return r
        seen.add(bid)
        for c in self.cb.get(bid, ()):
            r |= self.acq[c]
            r |= self.callbacks(c, seen)
        return r

    def call_acq(self, body, t):
        """locks that may be taken while this call runs"""
        f = callee(t)
        r = set()
        if f is not None and plain(f["n"]).endswith(SPAWN):
            return r
        if f is None or f.get("tr", "").startswith("core::ops::function::Fn"):
            r |= self.callbacks(body.id)
        if f is None:
            return r
        for o in t["args"]:
            if "p" in o and body.ltys[o["p"][0]].peel().k in ("param", "dyn") and self.cb.get(body.id) and any(x in self.usescb for x in self.prog.targets(body, f, True)):
                r |= self.callbacks(body.id)
            for c in self.closures_in(body, o):
                if c in self.usescb and c not in self.spawned:
                    r |= self.callbacks(c)
        if short(f["n"]) in PRIM:
            return set(cls(body.ltys[t["d"][0]])) if len(t["d"]) == 1 else r
        for x in self.prog.targets(body, f, True):
            r |= self.acq[x]
        for o in t["args"]:
            for c in self.closures_in(body, o):
                if c not in self.spawned:
                    r |= self.acq[c]
        return r

    # --- locks held inside of a function
    def flow(self, b):
        """block -> {(local, class, mode)} held when its terminator runs"""
        if b.id in self._flow:
            return self._flow[b.id]
        prog = self.prog
        res = {}
        if not any(self.clsty(t) for t in b.ltys):
            self._flow[b.id] = res
            return res
        start = frozenset((l, c, m) for l in range(1, b.argc + 1) for c, m in self.clsty(b.ltys[l]))
        inn = {0: start}
        st = [0]
        while st:
            i = st.pop()
            cur = set(inn[i])
            bb = b.bbs[i]
            for s in bb["s"]:
                if s["k"] == "dead":
                    l = s["p"][0]
                    cur = {x for x in cur if x[0] != l}
                elif s["k"] == "=":
                    moved = set()
                    for o in s["r"].get("o", []):
                        if o.get("k") == "m" and "p" in o and self.clsty(b.ltys[o["p"][0]]) and "*" not in o["p"]:
                            mv = {x for x in cur if x[0] == o["p"][0]}
                            cur -= mv
                            moved |= mv
                    d = s["p"][0]
                    if moved:
                        dc = {c for c, _m in self.clsty(b.ltys[d])}
                        cur |= {(d, c, m) for _l, c, m in moved if c in dc or len(s["p"]) > 1}
            t = bb["t"]
            res[i] = frozenset(cur)
            if t["k"] == "drop":
                if len(t["p"]) == 1:
                    cur = {x for x in cur if x[0] != t["p"][0]}
            elif t["k"] == "call":
                moved = set()
                for o in t["args"]:
                    if o.get("k") == "m" and "p" in o and "*" not in o["p"]:
                        mv = {x for x in cur if x[0] == o["p"][0]}
                        cur -= mv
                        moved |= mv
                d = t["d"][0]
                f = callee(t)
                dc = self.clsty(b.ltys[d])
                if dc:
                    got = {c for _l, c, _m in moved}
                    acq = {c for c, _m in self.call_acq(b, t)}
                    for c, m in dc:
                        if c in got or c in acq:
                            cur.add((d, c, m))
            out = frozenset(cur)
            for s in b.succ(i):
                if s not in inn:
                    inn[s] = out
                    st.append(s)
                elif not out <= inn[s]:
                    inn[s] = inn[s] | out
                    st.append(s)
        self._flow[b.id] = res
        return res


def get(prog):
    if not hasattr(prog, "_locks"):
        prog._locks = Locks(prog)
    return prog._locks


def c10(prog, rep):
    L = get(prog)
    edges = collections.defaultdict(list)
    rep.rule("lock-order", "locks (by the data they protect) are always taken in one order, and never again while they are held")
    rep.rule("no-wait-with-lock", "no function waits for another thread, a condition or an asynchronous operation while it holds a lock")
    nheld = nacq = 0
    for b in prog.bodies.values():
        if b.kind == "promoted" or "/tests" in b.file or "::tests" in b.id:
            continue
        if L.direct.get(b.id):
            nacq += len(L.direct[b.id])
            rep.functions.add(b.name)
        fl = L.flow(b)
        for i, held in fl.items():
            t = b.bbs[i]["t"]
            if not held:
                continue
            if t["k"] == "yield":
                rep.bad("no-wait-with-lock", "%s: await with %s" % (b.name, sorted({c for _l, c, _m in held})), loc(b, t.get("l")), "an asynchronous function waits while it holds a lock")
            if t["k"] == "drop" and len(t["p"]) == 1:
                for x in L.droppers(b.ltys[t["p"][0]]):
                    for c, m in L.acq[x]:
                        for _l, h, hm in held:
                            if _l != t["p"][0]:
                                edges[(h, c)].append((b, t.get("l"), "drop"))
            if t["k"] != "call":
                continue
            f = callee(t)
            nheld += 1
            sh = short(f["n"]) if f else ""
            moved = {o["p"][0] for o in t["args"] if o.get("k") == "m" and "p" in o}
            if sh in WAITS:
                rest = {c for l, c, _m in held if l not in moved}
                if rest:
                    rep.bad("no-wait-with-lock", "%s: %s" % (b.name, sh), loc(b, t.get("l")), "waits while holding the lock of %s" % ", ".join(sorted(rest)))
                else:
                    rep.ok("no-wait-with-lock", "%s: %s" % (b.name, sh))
            if sh in TRY:
                continue
            for c, m in L.call_acq(b, t):
                for l, h, hm in held:
                    if l in moved and sh not in PRIM and not (f and L.prog.targets(b, f, True)):
                        continue
                    edges[(h, c)].append((b, t.get("l"), sh))
    succ = collections.defaultdict(set)
    for a, c in edges:
        succ[a].add(c)

    def reach(a):
        seen, st = set(), [a]
        while st:
            x = st.pop()
            for y in succ[x]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen

    for (h, c), sites in sorted(edges.items(), key=lambda x: str(x[0])):
        back = h == c or h in reach(c)
        for b, l, n in sites:
            s = "%s: %s while holding %s" % (b.name, c, h)
            if back:
                why = "the lock is already held" if h == c else "elsewhere they are taken in the other order"
                rep.bad("lock-order", s, loc(b, l), "%s is locked by '%s' while %s is locked: %s" % (c, n, h, why))
            else:
                rep.ok("lock-order", s)
    rep.extra["lock_kinds"] = sorted({c for s in L.direct.values() for c, _m in s})
    rep.extra["order"] = sorted("%s -> %s" % e for e in edges)
    rep.floor("anchors", "lock acquisitions", nacq, 40)
    rep.floor("anchors", "calls made while a lock is held", nheld, 300)
    rep.floor("anchors", "nested acquisitions", len(edges), 2)


def check(pid, prog, rep):
    {"C10": c10}[pid](prog, rep)
