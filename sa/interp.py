"""Flow-, context- and (boundedly) path-sensitive abstract interpreter over the package's syntax trees.

Package callees are inlined (bounded depth), library callees are modelled in lib.py, unknown callees
return a value that depends on everything passed in.  No package code is ever executed.
"""
import ast, zlib
from fractions import Fraction
from .values import *
from .values import _EMPTY
from .project import Func, Cls, Mod, import_bindings, walk_own

MAXSTATES = 20
MAXFORK = 40
MAXDEPTH = 26
UNROLL = 8


class AbsDead(Exception):
    pass


class Budget(Exception):
    pass


class State:
    __slots__ = ("env", "heap", "facts")

    def __init__(self, env=None, heap=None, facts=_EMPTY):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.facts)

    def become(self, o):
        self.env, self.heap, self.facts = o.env, o.heap, o.facts


def sol_id(rid):
    return "sol:%s@%s:%s:%s:%s" % (rid[1], rid[2], rid[3], rid[5], rid[6])


def sol_ok(o):
    """the solver result is known to be a success on this path"""
    st, su = (o.keys or {}).get("status"), (o.attrs or {}).get("success")
    if st is not None:
        return st.const is not None and all(x[1] == "optimal" for x in st.const)
    if su is not None and su.const is not None and all(x[1] is True for x in su.const):
        return True
    st = (o.attrs or {}).get("status")
    return st is not None and st.const is not None and all(x[1] == 0 for x in st.const)


def rename_v(v, a, b, depth=0):
    """replace dependence source a by b"""
    if v is None or depth > 6:
        return v
    seq = v.seq
    if seq is not None:
        ns = tuple(rename_v(x, a, b, depth + 1) for x in seq)
        if any(x is not y for x, y in zip(ns, seq)):
            seq = ns
    el = rename_v(v.elem, a, b, depth + 1)
    if a not in v.may and a not in v.must and seq is v.seq and el is v.elem:
        return v
    r = lambda s: frozenset(b if x == a else x for x in s) if a in s else s
    return v.but(may=r(v.may), must=r(v.must), seq=seq, elem=el)


def rename_o(o, a, b):
    m = lambda d: {k: rename_v(x, a, b) for k, x in d.items()} if d else d
    r = lambda s: frozenset(b if x == a else x for x in s) if a in s else s
    return o.but(seq=tuple(rename_v(x, a, b) for x in o.seq) if o.seq is not None else None, elem=rename_v(o.elem, a, b), kelem=rename_v(o.kelem, a, b),
                 keys=m(o.keys), attrs=m(o.attrs), may=r(o.may), must=r(o.must))


def rename_state(st, a, b, skip=None):
    return State({k: rename_v(v, a, b) for k, v in st.env.items()}, {k: (rename_o(o, a, b) if k != skip else o) for k, o in st.heap.items()}, st.facts)


def sol_live(st, rid):
    sid = sol_id(rid)
    for v in st.env.values():
        if sid in v.may or rid in v.reg:
            return True
    for k, o in st.heap.items():
        if k == rid:
            continue
        for y in list(o.seq or ()) + list((o.keys or {}).values()) + list((o.attrs or {}).values()) + [o.elem]:
            if y is not None and (sid in y.may or rid in y.reg):
                return True
    return False


class Frame:
    def __init__(self, func, caller=None, site=None):
        self.func, self.caller, self.site = func, caller, site
        self.returns, self.raises = [], []
        self.closure_rid = None
        self.yield_cb = None
        self.loop = []  # stack of (breaks, continues)
        self.globs, self.nonlocs = set(), set()

    def stack(self):
        f, out = self, []
        while f is not None:
            out.append(f.func.full if f.func else "?")
            f = f.caller
        return tuple(reversed(out))


class Ctx:
    def __init__(self, prefix, cache, joinmode):
        self.prefix, self.cache, self.joinmode = prefix, cache, joinmode
        self.taken, self.width, self.seq = [], [], 0


def obj_join(a, b):
    if a is b:
        return a
    if a.kind != b.kind:
        kind = "ext"
    else:
        kind = a.kind
    seq = join_seq(a.seq, b.seq)
    es = []
    if seq is None:
        for o in (a, b):
            if o.elem is not None:
                es.append(o.elem)
            es.extend(o.seq or ())
    else:
        es = [e for e in (a.elem, b.elem) if e is not None]
    elem = join_all(es)
    keys = None
    if a.keys is not None or b.keys is not None:
        ka, kb = a.keys or {}, b.keys or {}
        keys = {}
        for k in list(ka) + [k for k in kb if k not in ka]:
            if k in ka and k in kb:
                keys[k] = join(ka[k], kb[k])
            else:
                v = ka.get(k, kb.get(k))
                keys[k] = v.but(must=_EMPTY, tags=v.tags | frozenset(["maybe-absent"])) if "maybe-absent" not in v.tags else v
    attrs = None
    if a.attrs is not None or b.attrs is not None:
        xa, xb = a.attrs or {}, b.attrs or {}
        attrs = {}
        for k in list(xa) + [k for k in xb if k not in xa]:
            attrs[k] = join(xa[k], xb[k]) if k in xa and k in xb else xa.get(k, xb.get(k))
    kel = a.kelem if b.kelem is None else (b.kelem if a.kelem is None else join(a.kelem, b.kelem))
    return Obj(kind, seq=seq, elem=elem, keys=keys, kelem=kel, attrs=attrs, cls=a.cls if a.cls is b.cls else None,
               nonempty=a.nonempty and b.nonempty, may=a.may | b.may, must=a.must & b.must, tags=a.tags & b.tags)


def obj_same(a, b):
    if a is b:
        return True
    if a.kind != b.kind or a.nonempty != b.nonempty or a.cls is not b.cls or a.may != b.may or a.must != b.must or a.tags != b.tags:
        return False
    if (a.seq is None) != (b.seq is None) or (a.seq is not None and (len(a.seq) != len(b.seq) or not all(same(x, y) for x, y in zip(a.seq, b.seq)))):
        return False
    for x, y in ((a.elem, b.elem), (a.kelem, b.kelem)):
        if (x is None) != (y is None) or (x is not None and not same(x, y)):
            return False
    for x, y in ((a.keys, b.keys), (a.attrs, b.attrs)):
        if (x is None) != (y is None):
            return False
        if x is not None and (set(x) != set(y) or not all(same(x[k], y[k]) for k in x)):
            return False
    return True


UNARY_FACTS = ("finite", "notnan", "notinf", "validated", "nonneg", "checked", "tested")


def state_join(a, b):
    if a is b:
        return a
    for k, o in a.heap.items():
        if o.kind == "sol":
            o2 = b.heap.get(k)
            if o2 is None or o2 is o:
                continue
            x, y = sol_ok(o), sol_ok(o2)
            if x and not y:
                a = rename_state(a, sol_id(k), "ok" + sol_id(k), k)
                a.heap[k] = o2
            elif y and not x:
                b = rename_state(b, sol_id(k), "ok" + sol_id(k), k)
                b.heap[k] = o
    facts = a.facts & b.facts
    env = {}
    extra = set()
    for k in list(a.env) + [k for k in b.env if k not in a.env]:
        x, y = a.env.get(k), b.env.get(k)
        if x is None or y is None:
            v = x if y is None else y
            env[k] = v.but(must=_EMPTY) if v.must else v
            continue
        j = join(x, y)
        env[k] = j
        if x.vid != y.vid:
            for p in UNARY_FACTS:
                if ((p, x.vid) in a.facts or x.none() == "y") and ((p, y.vid) in b.facts or y.none() == "y"):
                    extra.add((p, j.vid))
    heap = {}
    for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
        x, y = a.heap.get(k), b.heap.get(k)
        heap[k] = x if y is None else (y if x is None else obj_join(x, y))
        if x is not None and y is not None and x is not y and x.attrs and y.attrs:
            for n in x.attrs:
                u, w = x.attrs[n], y.attrs.get(n)
                if w is not None and u.vid != w.vid:
                    for p in UNARY_FACTS:
                        if ((p, u.vid) in a.facts or u.none() == "y") and ((p, w.vid) in b.facts or w.none() == "y"):
                            extra.add((p, vid_join(u.vid, w.vid)))
    return State(env, heap, facts | frozenset(extra))


def state_same(a, b):
    if set(a.env) != set(b.env) or a.facts != b.facts or set(a.heap) != set(b.heap):
        return False
    return all(same(a.env[k], b.env[k]) for k in a.env) and all(obj_same(a.heap[k], b.heap[k]) for k in a.heap)


def discr(v, level):
    if level == 0:
        c = None
        if v.const is not None and len(v.const) == 1:
            t, x = next(iter(v.const))
            if t in ("bool", "str", "None"):
                c = (t, x)
        t = v.ty if v.ty is not None and len(v.ty) == 1 else None
        s = None
        if v.seq is not None and v.is_("tuple") and len(v.seq) <= 8:
            s = tuple(x.none() for x in v.seq)
        return (v.none(), c, t, s)
    if level == 1:
        c = None
        if v.const is not None and len(v.const) == 1:
            t, x = next(iter(v.const))
            if t == "bool":
                c = x
        return (v.none(), c)
    return None


def state_key(st, level):
    k = [(n, discr(v, level)) for n, v in sorted(st.env.items())]
    if level <= 1:
        for rid, o in st.heap.items():
            if o.kind == "sol":
                k.append((rid, tuple(sorted((o.keys or {}).get("status", NONE).const or (), key=repr)), tuple(sorted((o.attrs or {}).get("success", NONE).const or (), key=repr))))
            elif o.kind == "obj" and o.attrs and level == 0:
                k.append((rid, tuple((n, v.none()) for n, v in sorted(o.attrs.items()))))
            elif o.kind in ("list", "dict") and level == 0:
                k.append((rid, len(o.seq) if o.seq is not None else None, o.nonempty))
        k.append(tuple(sorted(f for f in st.facts if f[0] == "must-part")))
    return tuple(map(repr, k))


CAP = [MAXSTATES, MAXFORK]


def merge_states(states, cap=None):
    cap = CAP[0] if cap is None else min(cap, CAP[0])
    if len(states) <= 1:
        return states
    for level in (0, 1, 2):
        groups = {}
        for s in states:
            k = state_key(s, level) if level < 2 else 0
            groups[k] = s if k not in groups else state_join(groups[k], s)
        states = list(groups.values())
        if len(states) <= cap:
            return states
    return states


EXC_PARENTS = {
    "ValueError": "Exception", "TypeError": "Exception", "RuntimeError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError",
    "LookupError": "Exception", "AttributeError": "Exception", "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
    "NotImplementedError": "RuntimeError", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "OverflowError": "ArithmeticError",
    "FloatingPointError": "ArithmeticError", "StopIteration": "Exception", "AssertionError": "Exception", "OSError": "Exception", "LinAlgError": "ValueError",
    "UnicodeError": "ValueError", "RecursionError": "RuntimeError", "Warning": "Exception", "UserWarning": "Warning", "Exception": "BaseException", "BaseException": None,
    "KeyboardInterrupt": "BaseException",
}


class Interp:
    def __init__(self, proj, opts=None):
        from . import lib
        self.lib = lib
        self.P = proj
        self.events = []
        self.tested, self.choice = set(), set()      # sources read by the conditions being evaluated / by branches both of whose sides go on
        self.ctxs = []
        self.frame = None
        self.modcache = {}
        self.nrid = 0
        self.steps = 0
        self.depth = 0
        self.cms = []
        self.set_comp = False
        self.nanchk, self.labchk = set(), set()     # values tested for (or cleared of) missing entries; pairs of label orders compared
        self.visited = set()
        self.opts = opts or {}
        self.picks, self.masks = {}, {}
        self.site_node = None
        self.hooks = {}      # func.full -> callable(I, st, func, bound) -> V or None
        self.unknown = {}
        self.maxsteps = self.opts.get("maxsteps", 400000)
        CAP[0] = self.opts.get("maxstates", MAXSTATES)
        self.maxfork = self.opts.get("maxfork", MAXFORK)

    # ---------------------------------------------------------------- events
    def emit(self, kind, **kw):
        kw["kind"] = kind
        kw["stack"] = self.frame.stack() if self.frame else ()
        kw["cms"] = tuple(self.cms)
        n = self.site_node
        kw["line"] = getattr(n, "lineno", 0)
        kw["file"] = self.frame.func.mod.path if self.frame and self.frame.func else "?"
        self.events.append(kw)

    def where(self):
        f = self.frame.func
        return "%s:%s" % (f.full, getattr(self.site_node, "lineno", "?"))

    # ---------------------------------------------------------------- forking
    def fork(self, st, fn):
        out, pend, cache, n = [], [()], {}, 0
        while pend:
            prefix = pend.pop()
            n += 1
            s = st.copy()
            ctx = Ctx(prefix, cache, n + len(pend) > self.maxfork)
            self.ctxs.append(ctx)
            try:
                r = fn(s)
                out.append((s, r))
            except AbsDead:
                pass
            finally:
                self.ctxs.pop()
            for i in range(len(prefix), len(ctx.taken)):
                for alt in range(1, ctx.width[i]):
                    pend.append(tuple(ctx.taken[:i]) + (alt,))
        return out

    def choose(self, k):
        """index of the alternative to take, or -1: join all"""
        if k == 1:
            return 0
        if not self.ctxs:
            return -1
        c = self.ctxs[-1]
        pos = len(c.taken)
        if pos < len(c.prefix):
            i = c.prefix[pos]
            c.taken.append(i)
            c.width.append(k)
            return i
        if c.joinmode:
            c.taken.append(-1)
            c.width.append(1)
            return -1
        c.taken.append(0)
        c.width.append(k)
        return 0

    def pick(self, st, alts):
        """alts: list[(State, V)] -> V, with st becoming the chosen state"""
        if not alts:
            raise AbsDead()
        i = self.choose(len(alts))
        if i >= 0:
            s, v = alts[i]
            st.become(s.copy())
            return v
        s = alts[0][0]
        v = alts[0][1]
        for s2, v2 in alts[1:]:
            s = state_join(s, s2)
            v = join(v, v2)
        st.become(s.copy())
        return v

    # ---------------------------------------------------------------- entry
    def run(self, func, args, st, self_v=None, kwargs=None):
        """Interpret func from state st. Returns (list[(State,V)], list[(State,V exc)])."""
        old = self.frame
        fr = Frame(None, None)
        self.frame = None
        try:
            bound = self.bind(func, ([self_v] if self_v is not None else []) + list(args), kwargs or {}, st, None)
            if bound is None:
                return [], []
            return self.body(func, bound, st, None)
        finally:
            self.frame = old

    def body(self, func, bound, st, closure, yield_cb=None):
        fr = Frame(func, self.frame, self.site_node)
        fr.closure_rid = closure
        fr.yield_cb = yield_cb
        old, oldnode = self.frame, self.site_node
        self.frame = fr
        self.depth += 1
        self.visited.add(func.full)
        ctxs, self.ctxs = self.ctxs, []
        try:
            s0 = State(bound, dict(st.heap), st.facts)
            if isinstance(func.node, ast.Lambda):
                outs = self.fork(s0, lambda s: self.ev(func.node.body, s))
                return [(s, v) for s, v in outs], fr.raises
            ys = None
            if func.is_gen and yield_cb is None:
                ys = []
                fr.yield_cb = lambda s, v: (ys.append(v), [s])[1]
            end = self.block(func.node.body, [s0])
            rets = list(fr.returns) + [(s, NONE) for s in end]
            if ys is not None:
                g = V(ty=frozenset(["other"]), elem=join_all(ys) if ys else None, may=_EMPTY, vid=vn("gen", func.full))
                rets = [(s, g) for s, _ in rets]
            return self.group_returns(rets), fr.raises
        finally:
            self.ctxs = ctxs
            self.depth -= 1
            self.frame, self.site_node = old, oldnode

    def group_returns(self, rets):
        if len(rets) <= 1:
            return rets
        for level in (0, 1, 2):
            g = {}
            for s, v in rets:
                k = repr(self.ret_key(s, v, level))
                if k in g:
                    s0, v0 = g[k]
                    s1 = State({}, s.heap, s.facts)
                    g[k] = (state_join(State({}, s0.heap, s0.facts), s1), join(v0, v))
                    if v0.vid != v.vid:
                        ex = {(p, vid_join(v0.vid, v.vid)) for p in UNARY_FACTS if ((p, v0.vid) in s0.facts or v0.none() == "y") and ((p, v.vid) in s.facts or v.none() == "y")}
                        if v0.seq is not None and v.seq is not None and len(v0.seq) == len(v.seq):
                            for a, b in zip(v0.seq, v.seq):
                                if a.vid != b.vid:
                                    ex |= {(p, vid_join(a.vid, b.vid)) for p in UNARY_FACTS if ((p, a.vid) in s0.facts or a.none() == "y") and ((p, b.vid) in s.facts or b.none() == "y")}
                        if ex:
                            g[k] = (State({}, g[k][0].heap, g[k][0].facts | ex), g[k][1])
                else:
                    g[k] = (State({}, s.heap, s.facts), v)
            rets = list(g.values())
            if len(rets) <= (12 if level == 0 else 6):
                break
        return rets

    def ret_key(self, s, v, level):
        if level == 2:
            return 0
        k = [discr(v, level)]
        if v.seq is not None and len(v.seq) <= 12:
            k.append(tuple(discr(x, level) for x in v.seq))
        for rid, o in s.heap.items():
            if o.kind == "sol":
                k.append((rid, tuple(sorted((o.keys or {}).get("status", NONE).const or (), key=repr)), tuple(sorted((o.attrs or {}).get("success", NONE).const or (), key=repr))))
            elif o.kind == "obj" and o.attrs and level == 0:
                k.append((rid, tuple((n, x.none()) for n, x in sorted(o.attrs.items()))))
        return k

    # ---------------------------------------------------------------- binding
    def bind(self, func, args, kwargs, st, closure, defaults_env=None):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        b = {}
        args = list(args)
        star = None
        if args and isinstance(args[-1], tuple):   # ('*', V) unknown-length star
            star = args.pop()[1]
        for n in names:
            if args:
                b[n] = args.pop(0)
        if a.vararg:
            e = self.elem_of(star, st) if star is not None else None
            if star is None:
                b[a.vararg.arg] = V(ty=frozenset(["tuple"]), seq=tuple(args), vid=vn("tup", *[x.vid for x in args]))
            else:
                for x in args:
                    e = x if e is None else join(e, x)
                b[a.vararg.arg] = V(ty=frozenset(["tuple"]), elem=e, may=e.may if e else _EMPTY, vid=vn("star", e.vid if e else 0))
        elif args:
            self.raise_exc(st, "TypeError")
            return None
        kw = dict(kwargs)
        starstar = kw.pop("**", None)
        allk = names + [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in allk:
                if k in b:
                    self.raise_exc(st, "TypeError")
                    return None
                b[k] = v
            else:
                rest[k] = v
        dv = {}
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            dv[n] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dv[x.arg] = d
        for n in allk:
            if n not in b:
                if star is not None and n in names:
                    b[n] = self.elem_of(star, st)
                elif n in dv:
                    v = self.module_eval(func.mod, dv[n], ("default", func.full, n))
                    if starstar is not None:
                        v = join(v, self.elem_of(starstar, st))
                    b[n] = v
                elif starstar is not None:
                    b[n] = self.elem_of(starstar, st)
                else:
                    self.raise_exc(st, "TypeError")
                    return None
        if a.kwarg:
            rid = self.new_rid(func.node, "kw")
            o = Obj("dict", keys=rest, elem=self.elem_of(starstar, st) if starstar is not None else None, nonempty=bool(rest))
            st.heap[rid] = o
            b[a.kwarg.arg] = V(ty=frozenset(["dict"]), reg=frozenset([rid]), vid=vn("kw", rid))
        elif rest:
            self.raise_exc(st, "TypeError")
            return None
        if isinstance(func.node, ast.FunctionDef):
            pass
        return b

    def new_rid(self, node, tag=""):
        """allocation-site region; inside loops the same site is one region per calling context depth"""
        return ("new", tag, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), self.ctxkey(3), self.unroll_idx())

    def ctxkey(self, k=99):
        """the calling context: the innermost k functions and, in client programs, the client's call"""
        f, out, n = self.frame, [], 0
        while f is not None:
            if n < k:
                out.append(f.func.full if f.func else "?")
            if f.site is not None and (self.opts.get("sites") or self.opts.get("client") and f.caller is not None and f.caller.caller is None):
                out.append((getattr(f.site, "lineno", 0), getattr(f.site, "col_offset", 0)))
            n += 1
            f = f.caller
        return zlib.crc32(repr(out).encode()) & 0xffffff

    def unroll_idx(self):
        f, out = self.frame, []
        while f is not None:
            for l in f.loop:
                if l[2] is not None:
                    out.append(l[2])
            f = f.caller
        return tuple(out)

    # ---------------------------------------------------------------- module scope
    def module_eval(self, mod, node, key):
        k = (mod.name, key)
        if k in self.modcache:
            return self.modcache[k]
        self.modcache[k] = V()
        old, on, oc, fr = self.frame, self.site_node, self.ctxs, None
        try:
            f = Func.__new__(Func)
            f.node, f.mod, f.cls, f.outer, f.name, f.qual, f.full, f.is_gen, f.decos = node, mod, None, None, "<module>", "<module>", mod.short + ":<module>", False, []
            self.frame = Frame(f, None)
            self.ctxs = []
            st = State({}, {}, _EMPTY)
            outs = self.fork(st, lambda s: self.ev(node, s))
            v = join_all([x for _, x in outs]) or V()
            glob = "glob:%s:%s" % (mod.short, key if isinstance(key, str) else ".".join(map(str, key)))
            # freeze heap contents into the value: module-level containers are read through seq/elem/keys
            v = self.freeze(v, outs[0][0] if outs else st, glob)
        except (Budget, RecursionError):
            v = V()
        finally:
            self.frame, self.site_node, self.ctxs = old, on, oc
        self.modcache[k] = v
        return v

    def freeze(self, v, st, glob):
        """module-level container: keep it in a shared read-only heap overlay"""
        if not v.reg:
            return v
        rid = ("glob", glob)
        objs = [st.heap[r] for r in sorted(v.reg, key=repr) if r in st.heap]
        if objs:
            o = objs[0]
            for x in objs[1:]:
                o = obj_join(o, x)
            self.globheap = getattr(self, "globheap", {})
            self.globheap[rid] = o
            for r, ob in st.heap.items():
                self.globheap.setdefault(r, ob)
        return v.but(reg=frozenset([rid]))

    def nid(self, n):
        """a stable identity of a piece of source"""
        return (self.frame.func.mod.short, n.lineno, n.col_offset)

    def obj(self, st, rid):
        o = st.heap.get(rid)
        if o is None:
            o = getattr(self, "globheap", {}).get(rid)
        return o

    def objs(self, st, v):
        out = []
        for r in sorted(v.reg, key=repr) if len(v.reg) > 1 else v.reg:
            o = self.obj(st, r)
            if o is not None:
                out.append((r, o))
        return out

    def name(self, n, st, node):
        if n in st.env:
            return st.env[n]
        fr = self.frame
        rid = fr.closure_rid
        seen = 0
        while rid is not None and seen < 10:
            o = self.obj(st, rid)
            if o is None:
                break
            if n in (o.attrs or {}):
                return o.attrs[n]
            p = (o.attrs or {}).get("\0parent")
            rid = p.one()[0] if p is not None else None
            seen += 1
        return self.global_name(fr.func.mod, n)

    def global_name(self, mod, n):
        r = self.P.lookup(mod, n)
        if r is None:
            if n in ("True", "False", "None"):
                return K({"True": True, "False": False, "None": None}[n])
            return V(ty=frozenset(["callable"]), fn=frozenset([("lib", "builtins." + n)]), vid=vn("g", n))
        return self.ref(r, mod, n)

    def ref(self, r, mod=None, n=None):
        if r[0] == "func":
            f = r[1]
            return V(ty=frozenset(["callable"]), fn=frozenset([("func", f, None)]), vid=vn("f", f.full))
        if r[0] == "cls":
            return V(ty=frozenset(["callable"]), fn=frozenset([("cls", r[1])]), vid=vn("c", r[1].name))
        if r[0] == "mod":
            return V(ty=frozenset(["other"]), fn=frozenset([("mod", r[1])]), vid=vn("m", r[1].name))
        if r[0] == "lib":
            return V(fn=frozenset([("lib", r[1])]), nty=frozenset(["None"]), vid=vn("g", r[1]))
        if r[0] == "assign":
            return self.module_eval(r[1], r[1].assigns[r[2]], r[2])
        return V()

    # ---------------------------------------------------------------- raising
    def raise_exc(self, st, name, v=None, explicit=False):
        if self.frame is not None:
            self.frame.raises.append((st.copy(), name, self.frame.func.full, getattr(self.site_node, "lineno", 0)))

    def exc_isa(self, name, handler):
        """True / False / None(unknown): may exception `name` be caught by `handler`"""
        if name == "?" or handler == "?":
            return None
        if handler in ("Exception", "BaseException"):
            return True
        n, k = name, 0
        cls = None
        while n is not None and k < 12:
            if n == handler:
                return True
            if n in EXC_PARENTS:
                n = EXC_PARENTS[n]
            else:
                c = self.find_class(n)
                if c is None:
                    return None
                bases = [ast.unparse(b).split(".")[-1] for b in c.bases]
                if handler in self.P.base_names(c):
                    return True
                n = bases[0] if bases else None
            k += 1
        return False

    def find_class(self, name):
        for m in self.P.mods.values():
            if name in m.classes:
                return m.classes[name]
        return None

    # ---------------------------------------------------------------- statements
    def block(self, stmts, states):
        for s in stmts:
            if not states:
                return []
            states = self.stmt(s, states)
            if len(states) > 1:
                states = merge_states(states)
        return states

    def stmt(self, node, states):
        self.steps += len(states)
        if self.steps > self.maxsteps:
            raise Budget("step budget exhausted in %s" % (self.frame.func.full,))
        m = getattr(self, "s_" + type(node).__name__, None)
        out = []
        for st in states:
            self.site_node = node
            if m is None:
                out.append(st)
            else:
                out.extend(m(node, st))
        return out

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Yield):
            return self.do_yield(n.value, st)
        return [s for s, _ in self.fork(st, lambda s: self.ev(n.value, s))]

    def do_yield(self, y, st):
        outs = self.fork(st, lambda s: self.ev(y.value, s) if y.value is not None else NONE)
        res = []
        for s, v in outs:
            if self.frame.yield_cb is not None:
                res.extend(self.frame.yield_cb(s, v))
            else:
                res.append(s)
        return res

    def s_Pass(self, n, st):
        return [st]

    def s_Global(self, n, st):
        self.frame.globs.update(n.names)
        return [st]

    def s_Nonlocal(self, n, st):
        self.frame.nonlocs.update(n.names)
        return [st]

    def s_Assert(self, n, st):
        return [s for t, s in self.test_states(n.test, st) if t]

    def s_Import(self, n, st):
        for k, d in import_bindings(n, self.frame.func.mod).items():
            st.env[k] = self.ref(self.P.resolve(d))
        return [st]

    s_ImportFrom = s_Import

    def s_FunctionDef(self, n, st):
        f = Func(n, self.frame.func.mod, None, self.frame.func)
        rid = ("clos", self.nid(n), self.unroll_idx())
        at = dict(st.env)
        if self.frame.closure_rid is not None:
            at["\0parent"] = V(const=frozenset([("other", self.frame.closure_rid)]))
        v = V(ty=frozenset(["callable"]), fn=frozenset([("func", f, rid)]), vid=vn("lf", f.full, self.nid(n)))
        at[n.name] = v
        st.heap[rid] = Obj("clos", attrs=at, cls=self.frame.func)
        st.env[n.name] = v
        return [st]

    def s_ClassDef(self, n, st):
        c = Cls(n, self.frame.func.mod)
        st.env[n.name] = V(ty=frozenset(["callable"]), fn=frozenset([("cls", c)]), vid=vn("c", c.name))
        return [st]

    def s_Return(self, n, st):
        outs = self.fork(st, lambda s: self.ev(n.value, s) if n.value is not None else NONE)
        for s, v in outs:
            self.frame.returns.append((s, v))
        return []

    def s_Raise(self, n, st):
        def f(s):
            if n.exc is None:
                return None
            e = n.exc
            if isinstance(e, ast.Call):
                # argument expressions are messages: evaluate for effects only
                nm = self.ev(e.func, s)
            else:
                nm = self.ev(e, s)
            return nm
        for s, v in self.fork(st, f):
            name = "?"
            if v is None:
                name = s.env.get("\0exc", V()).one()[0] if s.env.get("\0exc") is not None and s.env["\0exc"].one() else "?"
            else:
                name = self.exc_name(v)
            self.emit("raise", exc=name)
            self.frame.raises.append((s, name, self.frame.func.full, n.lineno))
        return []

    def exc_name(self, v):
        for f in v.fn:
            if f[0] == "lib":
                return f[1].split(".")[-1]
            if f[0] == "cls":
                return f[1].name
        if v.attrs and "exc" in v.attrs:
            return v.attrs["exc"]
        return "?"

    def s_Delete(self, n, st):
        def f(s):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    s.env.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    b = self.ev(t.value, s)
                    self.ev_index(t.slice, s)
                    self.mutate(s, b, "del item")
                elif isinstance(t, ast.Attribute):
                    b = self.ev(t.value, s)
                    self.mutate(s, b, "del attribute")
        return [s for s, _ in self.fork(st, f)]

    def s_Assign(self, n, st):
        def f(s):
            if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(n.targets[0].elts) == len(n.value.elts) \
                    and not any(isinstance(e, ast.Starred) for e in list(n.targets[0].elts) + list(n.value.elts)):
                vs = [self.ev(e, s) for e in n.value.elts]
                for t, v in zip(n.targets[0].elts, vs):
                    self.assign(t, v, s)
                return
            v = self.ev(n.value, s)
            for t in n.targets:
                self.assign(t, v, s)
        return [s for s, _ in self.fork(st, f)]

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [st]

        def f(s):
            self.assign(n.target, self.ev(n.value, s), s)
        return [s for s, _ in self.fork(st, f)]

    def s_AugAssign(self, n, st):
        def f(s):
            load = ast.copy_location(ast.parse(ast.unparse(n.target), mode="eval").body, n.target)
            old = self.ev(load, s)
            v = self.ev(n.value, s)
            # list += iterable
            if old.is_("list") and isinstance(n.op, ast.Add):
                self.list_extend(s, old, v)
                return
            new = self.lib.binop(self, s, type(n.op).__name__, old, v)
            mutable = old.ty is None and old.reg or (old.ty is not None and not old.ty <= (IMM | frozenset(["tuple"])))
            if isinstance(n.target, ast.Name):
                if mutable and old.reg:
                    self.mutate(s, old, "augmented assignment", new)
                    new = new.but(reg=old.reg | new.reg)
                self.set_name(n.target.id, new, s)
            else:
                if mutable and old.reg:
                    self.mutate(s, old, "augmented assignment", new)
                    new = new.but(reg=old.reg | new.reg)
                self.assign(n.target, new, s, aug=True)
        return [s for s, _ in self.fork(st, f)]

    def set_name(self, n, v, s):
        fr = self.frame
        if n in fr.globs:
            self.emit("globalwrite", target="%s.%s" % (fr.func.mod.name, n), value=v)
        elif n in fr.nonlocs:
            rid, k = fr.closure_rid, 0
            while rid is not None and k < 10:
                o = self.obj(s, rid)
                if o is None:
                    break
                p = (o.attrs or {}).get("\0parent")
                if n in (o.attrs or {}) or p is None:
                    at = dict(o.attrs or {})
                    at[n] = v
                    s.heap[rid] = o.but(attrs=at)
                    return
                rid = p.one()[0]
                k += 1
        s.env[n] = v

    def assign(self, t, v, s, aug=False):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, s)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.known_items(v, s)
            starred = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if items is not None and not starred and len(items) == len(t.elts):
                for e, x in zip(t.elts, items):
                    self.assign(e, x, s)
            else:
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        if items is not None:
                            k = len(items) - (len(t.elts) - 1)
                            lv = self.new_list(s, items[i:i + k], t)
                        else:
                            el = self.elem_of(v, s)
                            lv = self.new_list(s, None, t, el)
                        self.assign(e.value, lv, s)
                    elif items is not None and len(items) >= len(t.elts) - 1 and starred:
                        x = items[i] if i < starred[0] else items[len(items) - len(t.elts) + i]
                        self.assign(e, x, s)
                    else:
                        if v.vid and v.elem is None and not self.objs(s, v):
                            x = self.lib.getitem(self, s, v, K(i))
                        else:
                            x = self.elem_of(v, s)
                            x = x.but(vid=vn("unp", v.vid, i))
                        self.assign(e, x, s)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, s)
            self.setattr(s, b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, s)
            k = self.ev_index(t.slice, s)
            self.setitem(s, b, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s)

    def setattr(self, s, b, attr, v, how="attribute store"):
        os = [(r, o) for r, o in self.objs(s, b) if o.kind in ("obj", "sol", "clos")]
        self.emit("setattr", reg=b.reg, attr=attr, value=v, cls=[o.cls.name if isinstance(o.cls, Cls) else None for _, o in os])
        for r, o in os:
            at = dict(o.attrs or {})
            at[attr] = v if len(os) == 1 else (join(at[attr], v) if attr in at else v)
            s.heap[r] = o.but(attrs=at)
        for r in sorted(b.reg, key=repr):
            self.emit("mutate", reg=r, how="%s .%s" % (how, attr), attr=attr)
        for f in b.fn:
            if f[0] in ("mod", "lib", "cls", "func"):
                self.emit("globalwrite", target="%s.%s" % (f[1] if f[0] == "lib" else f[1].name, attr))
            if f[0] == "lib":
                self.lib.state_assign(self, s, "%s.%s" % (f[1], attr), v)

    def fkey(self, k, v, s):
        if k.attrs and "pattern" in k.attrs:
            self.emit("fkey", pattern=k.attrs["pattern"], value=v, state=s)

    def setitem(self, s, b, k, v):
        self.fkey(k, v, s)
        os = self.objs(s, b)
        done = False
        for r, o in os:
            if o.kind in ("dict", "sol"):
                c = ckey(k)
                keys = dict(o.keys or {})
                if c is not None:
                    keys[c[0]] = v if len(b.reg) == 1 else (join(keys[c[0]], v) if c[0] in keys else v)
                    s.heap[r] = o.but(keys=keys, nonempty=True)
                else:
                    ks = None
                    s.heap[r] = o.but(elem=v if o.elem is None else join(o.elem, v), kelem=k if o.kelem is None else join(o.kelem, k), nonempty=True,
                                      must=o.must | (v.must if len(b.reg) == 1 else _EMPTY))
                done = True
            elif o.kind == "list":
                c = k.one()
                if o.seq is not None and c is not None and isinstance(c[0], int) and -len(o.seq) <= c[0] < len(o.seq):
                    sq = list(o.seq)
                    sq[c[0]] = v
                    s.heap[r] = o.but(seq=tuple(sq))
                else:
                    e = v
                    for x in (o.seq or ()):
                        e = join(e, x)
                    if o.elem is not None:
                        e = join(e, o.elem)
                    s.heap[r] = o.but(seq=None, elem=e, must=o.must)
                done = True
        for f in b.fn:
            if f[0] == "lib":
                self.emit("globalwrite", target=f[1])
                self.lib.state_set(self, s, f[1], k, v)
        self.mutate(s, b.but(fn=_EMPTY) if b.fn else b, "item store", None if done else v, idx=k)

    def mutate(self, s, b, how, new=None, idx=None):
        for r in sorted(b.reg, key=repr):
            self.emit("mutate", reg=r, how=how, attr=None)
        for f in b.fn:
            if f[0] == "lib":
                self.emit("globalwrite", target=f[1])
        if new is None:
            return
        reg = b.reg
        if b.attrs and b.attrs.get("indexer") and not reg:
            b = b.attrs["base"]
        if not reg and not b.fn and (b.ty is None or b.ty & {"ndarray", "Series", "DataFrame", "matrix"}):
            reg = self.own_region(s, b)
        if reg:
            self.update_region(s, reg, new, idx)

    def own_region(self, s, b):
        """a value without a region (the result of an operation) is written to: give every variable holding that very value one"""
        n = self.site_node
        reg = frozenset([("new", "own", getattr(n, "lineno", 0), getattr(n, "col_offset", 0), self.depth, self.unroll_idx())])
        nb, hit = b.but(reg=reg), False
        same = lambda v: v is b or (v.vid == b.vid and v.vid and not v.reg and v.may == b.may and v.must == b.must and v.ty == b.ty and v.tags == b.tags and v.ax == b.ax and v.seq is b.seq)
        for k, v in list(s.env.items()):
            if isinstance(v, V) and v is b:
                s.env[k], hit = nb, True
        for r, o in list(s.heap.items()):
            for fld in ("keys", "attrs"):
                d = getattr(o, fld)
                if d and any(x is b for x in d.values()):
                    o = o.but(**{fld: {k: (nb if x is b else x) for k, x in d.items()}})
                    s.heap[r], hit = o, True
        if not hit:      # the base was refined or derived: fall back to equal values
            for k, v in list(s.env.items()):
                if isinstance(v, V) and same(v):
                    s.env[k] = v.but(reg=reg)
            for r, o in list(s.heap.items()):
                for fld in ("keys", "attrs"):
                    d = getattr(o, fld)
                    if d and any(same(x) for x in d.values()):
                        o = o.but(**{fld: {k: (x.but(reg=reg) if same(x) else x) for k, x in d.items()}})
                        s.heap[r] = o
        return reg

    def update_region(self, s, regs, new, idx=None):
        """array content of the regions now also holds `new`: update every alias"""
        nn = self.N(new, s)
        single = len(regs) == 1
        ntag = nn
        widx = idx.may if idx is not None else _EMPTY
        # a constant written where a test on the data holds (degenerate entries): the remaining entries keep their units
        fill = idx is not None and nn.one() is not None and not (idx.ty is not None and idx.ty <= {"int", "tuple", "slice", "list"}) and idx.cond is not None

        whole = idx is not None and all(x.attrs is not None and "slice" in x.attrs and all(z.is_("None") for z in x.attrs["slice"]) for x in ((idx.seq or ()) if idx.is_("tuple") else (idx,)))

        def weak(v, strong, new):
            """one of several arrays is written: the value may also be one that is not"""
            return new if strong or not self.opts.get("sites") or v.reg <= regs else vn("phi", v.vid, new)

        def upd(v):
            if v.reg & regs and not v.fn:
                strong = single and v.reg == regs
                if whole and strong:        # every entry is overwritten
                    return v.but(may=v.may | nn.may, must=nn.must, sign=nn.sign, pol=nn.pol, deg=nn.deg, const=None, ax=nn.ax or v.ax, tags=v.tags & (nn.tags | {"nonempty", "truthy"}) | (nn.tags & {"finite", "prob"}),
                                 vid=vn("upd", v.vid, nn.vid, idx.vid), seq=None if v.ty is None or "tuple" not in v.ty else v.seq)
                must = v.must | nn.must if strong else v.must
                ax = v.ax
                for x in (idx.seq or (idx,)) if idx is not None else ():
                    t = self.lib.ltag(x, "pos")
                    if t:       # stored at the position, in order t[1], of the label being processed
                        ax = ax | t[1] | self.lib.apply_perm(self, s, nn.ax, ("pos", t[2], t[1]), "store")
                return v.but(may=v.may | nn.may | widx, must=must, sign=s_join(v.sign, nn.sign), pol=pol_add(v.pol, nn.pol), deg=v.deg if fill else deg_same(v, nn), const=None,
                             ax=ax, tags=v.tags & (nn.tags | {"nonempty", "truthy"}), vid=weak(v, strong, vn("upd", v.vid, nn.vid, idx.vid if idx is not None else 0)), seq=None if v.ty is None or "tuple" not in v.ty else v.seq)
            if v.seq is not None or v.elem is not None:
                sq = tuple(upd(x) for x in v.seq) if v.seq is not None else None
                el = upd(v.elem) if v.elem is not None else None
                if (sq is not None and any(a is not b for a, b in zip(sq, v.seq))) or el is not v.elem:
                    return v.but(seq=sq, elem=el)
            return v
        for k, v in list(s.env.items()):
            nv = upd(v)
            if nv is not v:
                s.env[k] = nv
        for r, o in list(s.heap.items()):
            ch = {}
            if o.seq is not None:
                sq = tuple(upd(x) for x in o.seq)
                if any(a is not b for a, b in zip(sq, o.seq)):
                    ch["seq"] = sq
            if o.elem is not None:
                e = upd(o.elem)
                if e is not o.elem:
                    ch["elem"] = e
            for fld in ("keys", "attrs"):
                d = getattr(o, fld)
                if d:
                    nd = {k: upd(x) for k, x in d.items()}
                    if any(nd[k] is not d[k] for k in d):
                        ch[fld] = nd
            if ch:
                s.heap[r] = o.but(**ch)

    # ---------------------------------------------------------------- containers
    def new_list(self, s, items, node, elem=None, nonempty=False, must=_EMPTY):
        rid = self.new_rid(node, "list")
        if items is not None:
            s.heap[rid] = Obj("list", seq=tuple(items), nonempty=bool(items))
        else:
            s.heap[rid] = Obj("list", elem=elem, nonempty=nonempty, must=must)
        return V(ty=frozenset(["list"]), reg=frozenset([rid]), vid=vn("list", rid, *([x.vid for x in items] if items is not None else [elem.vid if elem is not None else 0])))

    def new_dict(self, s, keys, node, elem=None, kelem=None, nonempty=False):
        rid = self.new_rid(node, "dict")
        s.heap[rid] = Obj("dict", keys=dict(keys), elem=elem, kelem=kelem, nonempty=nonempty or bool(keys))
        return V(ty=frozenset(["dict"]), reg=frozenset([rid]), vid=vn("dict", rid))

    def set_obj(self, items):
        """a set of the given items: exact only when equal ones can be told apart"""
        if all(x.one() is not None for x in items):
            u = {}
            for x in items:
                u.setdefault(x.one(), x)
            return Obj("set", seq=tuple(u.values()), nonempty=bool(u))
        u = {x.vid: x for x in items}
        if len(u) == 1:
            return Obj("set", seq=tuple(u.values()), nonempty=True)
        return Obj("set", elem=join_all(items), nonempty=True, must=frozenset().union(*[x.must for x in items]))

    def list_append(self, s, v, x, front=False):
        os = self.objs(s, v)
        for r, o in os:
            if o.kind in ("list", "set"):
                single = len(v.reg) == 1
                if single and o.kind == "set" and o.seq is not None and not self.in_summary_loop():
                    s.heap[r] = self.set_obj(list(o.seq) + [x])
                elif single and o.seq is not None and len(o.seq) < 64 and not self.in_summary_loop():
                    s.heap[r] = o.but(seq=((x,) + o.seq) if front else (o.seq + (x,)), nonempty=True)
                else:
                    e = x
                    for y in (o.seq or ()):
                        e = join(e, y)
                    if o.elem is not None:
                        e = join(e, o.elem)
                    sm = frozenset().union(*[y.must for y in o.seq]) if o.seq else _EMPTY
                    s.heap[r] = o.but(seq=None, elem=e, nonempty=o.nonempty or single, must=o.must | sm | (self.N(x, s).must if single else _EMPTY))
            elif o.kind == "ext":
                s.heap[r] = o.but(elem=x if o.elem is None else join(o.elem, x))
        self.mutate(s, v, "append")

    def list_extend(self, s, v, x):
        items = self.known_items(x, s)
        if items is not None:
            for y in items:
                self.list_append(s, v, y)
            if not items:
                self.mutate(s, v, "extend")
        else:
            e = self.elem_of(x, s)
            ne = self.nonempty(x, s)
            n = self.N(x, s)
            for r, o in self.objs(s, v):
                y = e
                for z in (o.seq or ()):
                    y = join(y, z)
                if o.elem is not None:
                    y = join(y, o.elem)
                sm = frozenset().union(*[z.must for z in o.seq]) if o.seq else _EMPTY
                s.heap[r] = o.but(seq=None, elem=y, nonempty=o.nonempty or ne, must=o.must | sm | n.must)
            self.mutate(s, v, "extend")

    def in_summary_loop(self):
        f = self.frame
        while f is not None:
            for l in f.loop:
                if l[2] is None:
                    return True
            f = f.caller
        return False

    def known_items(self, v, s):
        """exact list of items when statically known, else None"""
        if v.seq is not None and (v.ty is None or v.ty & {"tuple", "list", "set", "other"}):
            return list(v.seq)
        if v.reg and len(v.reg) == 1:
            o = self.obj(s, next(iter(v.reg)))
            if o is not None:
                if o.kind in ("list", "set") and o.seq is not None:
                    return list(o.seq)
                if o.kind == "dict" and o.keys is not None and o.elem is None and not any("maybe-absent" in x.tags for x in o.keys.values()):
                    kv = getattr(o, "kelem", None)
                    return [self.keyval(k, o) for k in o.keys]
        return None

    def keyval(self, k, o=None):
        if isinstance(k, V):
            return k
        if isinstance(k, (str, int, float, bool, type(None))):
            return K(k)
        if isinstance(k, tuple):
            q = tuple(self.keyval(x) for x in k)
            return V(ty=frozenset(["tuple"]), seq=q, vid=vn("tup", *[x.vid for x in q]))
        return V()

    def dict_items(self, v, s):
        if v.reg and len(v.reg) == 1:
            o = self.obj(s, next(iter(v.reg)))
            if o is not None and o.kind == "dict" and o.keys is not None and o.elem is None and not any("maybe-absent" in x.tags for x in o.keys.values()):
                return [(self.keyval(k), x) for k, x in o.keys.items()]
        return None

    def nonempty(self, v, s):
        if v.seq is not None:
            return len(v.seq) > 0
        if "nonempty" in v.tags:
            return True
        os = self.objs(s, v)
        return bool(os) and all(o.nonempty or (o.seq is not None and len(o.seq) > 0) for _, o in os)

    def definitely_empty(self, v, s):
        if v.seq is not None:
            return len(v.seq) == 0 and v.ty is not None and v.ty <= {"tuple", "list"}
        os = self.objs(s, v)
        if v.ty is not None and v.ty <= {"list", "dict", "set"} and os and len(os) == len(v.reg):
            return all(o.elem is None and not o.seq and not o.keys and (o.kind != "list" or o.seq is not None) for _, o in os)
        return False

    def elem_of(self, v, s):
        """summary of the values obtained by iterating v"""
        if v is None:
            return V()
        es = list(v.seq or ())
        if v.elem is not None:
            es.append(v.elem)
        found = False
        ext = [r for r in v.reg if self.obj(s, r) is None]
        for r, o in self.objs(s, v):
            found = True
            if o.kind == "dict":
                es.extend(self.keyval(k) for k in (o.keys or {}))
                if o.kelem is not None:
                    es.append(o.kelem)
                if o.kelem is None and o.elem is not None:
                    es.append(V(may=o.elem.may))
            else:
                es.extend(o.seq or ())
                if o.elem is not None:
                    es.append(o.elem)
        L = v.lab
        one = lambda l: l and len({x.split(":")[0] for x in l}) == 1
        if es and not ext:
            e = join_all(es)
            if one(L) and v.seq is None:
                e = e.but(tags=frozenset(t for t in e.tags if type(t) is not tuple) | {("item", L)})
            return e
        # unknown container: element depends on the container
        r = frozenset(self.sub(x, "[]") for x in v.reg)
        e = V(reg=r, may=v.may, must=v.must, pol=v.pol, deg=v.deg, sign=v.sign, ax=v.ax, vid=vn("el", v.vid), tags=frozenset(t for t in v.tags if t in ("finite", "prob")))
        pt = [t for t in v.tags if type(t) is tuple and t[0] == "pos"]
        if L:
            if one(L):
                e = e.but(tags=e.tags | {("item", L)})
        elif pt:
            e = e.but(tags=e.tags | set(pt), ty=frozenset(["int"]))
        elif one(v.ax) and v.is_("dict"):
            e = e.but(tags=e.tags | {("item", v.ax)})
        elif v.is_("DataFrame"):
            c = frozenset(x for x in v.ax if x.startswith("port:")) or frozenset(x for x in v.ax if x.startswith("asset:"))
            if c:
                e = e.but(tags=e.tags | {("item", c)})
        if es:
            e = join(e, join_all(es))
        return e

    def sub(self, r, what):
        if isinstance(r, tuple) and r and r[0] == "in":
            if len(r[1]) > 60:
                return r
            return ("in", r[1] + what if not r[1].endswith("[]") or what != "[]" else r[1])
        if isinstance(r, tuple) and r and r[0] == "self":
            return ("self", r[1] + what if not r[1].endswith("[]") else r[1])
        if isinstance(r, tuple) and r and r[0] == "glob":
            return r
        return ("sub", r) if not (isinstance(r, tuple) and r and r[0] == "sub") else r

    def deep(self, v, s, seen=None, depth=0):
        """(may, must) of a value including container contents"""
        may, must = v.may, v.must
        if depth > 6:
            return may, must
        seen = seen or set()
        for x in (v.seq or ()):
            a, b = self.deep(x, s, seen, depth + 1)
            may |= a
            must |= b
        if v.elem is not None:
            a, b = self.deep(v.elem, s, seen, depth + 1)
            may |= a
            if "nonempty" in v.tags:
                must |= b
        os = self.objs(s, v)
        omust = None
        for r, o in os:
            if r in seen:
                omust = _EMPTY if omust is None else omust & _EMPTY
                continue
            seen = seen | {r}
            m, mu = o.may, o.must
            for x in (o.seq or ()):
                a, b = self.deep(x, s, seen, depth + 1)
                m |= a
                mu |= b
            for x in list((o.keys or {}).values()) + (list((o.attrs or {}).values()) if o.kind == "obj" else []):
                a, b = self.deep(x, s, seen, depth + 1)
                m |= a
                if "maybe-absent" not in x.tags:
                    mu |= b
            for x in (o.elem, o.kelem):
                if x is not None:
                    a, b = self.deep(x, s, seen, depth + 1)
                    m |= a
                    if o.nonempty:
                        mu |= b
            may |= m
            omust = mu if omust is None else omust & mu
        if omust and len(os) == len(v.reg):
            must |= omust
        return may, must

    def N(self, v, s, depth=0):
        """numeric summary of a value or (nested) container"""
        if v.seq is None and v.elem is None and not any(self.obj(s, r) is not None for r in v.reg):
            return v
        es = list(v.seq or ())
        if v.elem is not None:
            es.append(v.elem)
        for r, o in self.objs(s, v):
            es.extend(o.seq or ())
            if o.kind == "dict":
                es.extend((o.keys or {}).values())
            if o.kind in ("obj", "sol", "clos"):
                continue
            if o.elem is not None:
                es.append(o.elem)
        may, must = self.deep(v, s)
        if not es or depth > 5:
            if not es and self.opts.get("sites") and len(v.reg) == 1 and v.seq is None:
                o = self.obj(s, next(iter(v.reg)))
                if o is not None and o.kind == "list" and o.seq == () and o.elem is None:
                    return v.but(may=may, must=must, vid=vn("Ns", v.vid))
            return v.but(may=may, must=must)
        es = [self.N(e, s, depth + 1) for e in es]
        e = es[0]
        for x in es[1:]:
            e = join(e, x)
        ax, lab, tags = e.ax, v.lab, e.tags - {"maybe-absent"}
        for t in e.tags:
            if type(t) is tuple:
                if t[0] != "pos":
                    tags = tags - {t}
                if v.seq is None and not any(o.seq is not None or o.keys for _, o in self.objs(s, v)):
                    if t[0] == "item":
                        lab = lab or t[1]
                elif t[0] == "pos":
                    tags = tags - {t}
        o1 = self.obj(s, next(iter(v.reg))) if len(v.reg) == 1 and v.seq is None else None
        ordered = v.elem is None and (v.seq is not None and not v.reg or o1 is not None and o1.kind == "list" and o1.seq is not None and o1.elem is None)
        return V(ty=None, nty=frozenset(["None"]), may=may | e.may, must=must, sign=e.sign, pol=e.pol, deg=e.deg, ax=ax | v.ax, lab=lab, tags=tags,
                 vid=vn("Ns", v.vid, *[x.vid for x in es]) if ordered else vn("N", v.vid, *sorted({x.vid for x in es})), reg=_EMPTY, seq=tuple(es) if v.seq is not None or any(o.seq is not None for _, o in self.objs(s, v)) else None)

    # ---------------------------------------------------------------- control flow
    def s_If(self, n, st):
        out = []
        t, f = [], []
        old, self.tested = self.tested, set()
        for truth, s in self.test_states(n.test, st):
            (t if truth else f).append(s)
        mine, self.tested = self.tested, old
        live = 0
        for side, blk in ((t, n.body), (f, n.orelse)):
            if side:
                k = self.exits()
                r = self.block(blk, merge_states(side)) if blk else side
                out += r
                live += bool(r) or self.exits() > k
        if live == 2 and mine:
            self.choice |= mine
        return out

    def exits(self):
        """number of non-exceptional ways out of the current blocks so far"""
        fr = self.frame
        return len(fr.returns) + (len(fr.loop[-1][0]) + len(fr.loop[-1][1]) if fr.loop else 0)

    def test_states(self, expr, st):
        """[(truth, State)] for a branch condition, with refinement"""
        res = []
        for s, alts in self.fork(st, lambda s: self.test(expr, s)):
            res.extend(alts)
        return res

    def s_For(self, n, st):
        out = []
        for s, it in self.fork(st, lambda s: self.iter_value(n.iter, s)):
            out.extend(self.loop_over(n, s, it))
        return out

    def iter_value(self, expr, s):
        return self.ev(expr, s)

    def loop_over(self, n, st, it, bind=None, body=None):
        self.choice |= it.may
        fr = self.frame
        items = self.known_items(it, st)
        if it.ty is not None and it.ty <= {"set"} or "setord" in it.tags:
            if any(isinstance(x, (ast.Yield, ast.Return, ast.Break)) or (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend", "insert")) for b in n.body for x in ast.walk(b)):
                if not (items is not None and all(x.one() and not isinstance(x.one()[0], str) for x in items)):
                    self.emit("setorder", value=it, how="order-dependent loop over a set")
        if items is not None and len(items) <= UNROLL:
            states, broke = [st], []
            for i, x in enumerate(items):
                nxt = []
                fr.loop.append(([], [], i))
                try:
                    for s in states:
                        for s2, _ in self.fork(s, lambda q: self.assign(n.target, x, q)):
                            nxt.extend(self.block(n.body, [s2]))
                    br, co = fr.loop[-1][0], fr.loop[-1][1]
                finally:
                    fr.loop.pop()
                broke += br
                states = merge_states(nxt + co)
                if not states:
                    break
            if n.orelse and states:
                states = self.block(n.orelse, states)
            return states + broke
        ne = self.nonempty(it, st)
        el = self.elem_of(it, st)
        cur = st
        breaks, exits = [], []
        fr.loop.append(([], [], None))
        try:
            for k in range(4):
                fr.loop[-1] = ([], [], None)
                nxt = []
                for s2, _ in self.fork(cur, lambda q: self.assign(n.target, el, q)):
                    nxt.extend(self.block(n.body, [s2]))
                br, co = fr.loop[-1][0], fr.loop[-1][1]
                breaks = br if k == 0 else breaks + br
                nxt = merge_states(nxt + co)
                exits = nxt
                if not nxt:
                    break
                j = nxt[0]
                for s in nxt[1:]:
                    j = state_join(j, s)
                new = state_join(cur, j) if k > 0 or True else j
                if state_same(new, cur):
                    break
                cur = new
        finally:
            fr.loop.pop()
        res = list(exits)
        if not ne:
            res.append(st)
        if n.orelse:
            res = self.block(n.orelse, merge_states(res))
        return merge_states(res + merge_states(breaks))

    def s_While(self, n, st):
        fr = self.frame
        cur = st
        done, breaks = [], []
        fr.loop.append(([], [], None))
        self.emit("while", node=n, func=fr.func.full)
        try:
            for k in range(4):
                fr.loop[-1] = ([], [], None)
                old, self.tested = self.tested, set()
                alts = self.test_states(n.test, cur)
                self.choice |= self.tested
                self.tested = old
                done = [s for t, s in alts if not t] if k == 0 else done + [s for t, s in alts if not t]
                body = [s for t, s in alts if t]
                if not body:
                    break
                nxt = self.block(n.body, merge_states(body))
                br, co = fr.loop[-1][0], fr.loop[-1][1]
                breaks += br
                nxt = nxt + co
                if not nxt:
                    break
                j = nxt[0]
                for s in nxt[1:]:
                    j = state_join(j, s)
                new = state_join(cur, j)
                if state_same(new, cur):
                    break
                cur = new
        finally:
            fr.loop.pop()
        if n.orelse:
            done = self.block(n.orelse, merge_states(done))
        return merge_states(done + breaks)

    def s_Break(self, n, st):
        if self.frame.loop:
            self.frame.loop[-1][0].append(st)
        return []

    def s_Continue(self, n, st):
        if self.frame.loop:
            self.frame.loop[-1][1].append(st)
        return []

    def s_Try(self, n, st):
        fr = self.frame
        outer = fr.raises
        outer_ret = fr.returns
        if n.finalbody:
            fr.returns = []
        inner = []
        fr.raises = inner
        loops = None
        mids = [st]
        states = [st]
        oldloop = fr.loop
        if n.finalbody and fr.loop:
            fr.loop = fr.loop[:-1] + [([], [], fr.loop[-1][2])]
        try:
            for s in n.body:
                if not states:
                    break
                mids.extend(states)
                states = merge_states(self.stmt(s, states))
        finally:
            fr.raises = outer
        if n.orelse and states:
            col = []
            fr.raises = col
            states = self.block(n.orelse, states)
            fr.raises = outer
            esc = col
        else:
            esc = []
        hout = []
        if n.handlers:
            # implicit exceptions from library calls: handler may start from any intermediate state
            names = []
            for h in n.handlers:
                names.append(self.handler_names(h, st))
            for (s, name, f, ln) in inner:
                caught = False
                for h, hn in zip(n.handlers, names):
                    r = [self.exc_isa(name, x) for x in hn]
                    if any(x is True for x in r):
                        hout += self.handle(h, s, name, outer, explicit=True)
                        caught = True
                        break
                    if any(x is None for x in r):
                        hout += self.handle(h, s, name, outer, explicit=False)
                if not caught:
                    esc.append((s, name, f, ln))
            mm = merge_states([m.copy() for m in mids], 6)
            for h, hn in zip(n.handlers, names):
                for m in mm:
                    hout += self.handle(h, m.copy(), "?", outer, explicit=False, names=hn)
        else:
            esc += inner
        col = []
        if n.finalbody:
            rets = fr.returns
            fr.returns = outer_ret
            innerloop = fr.loop[-1] if fr.loop else None
            fr.loop = oldloop
            normal = merge_states(states + hout)
            res = self.block(n.finalbody, normal)
            for s, v in rets:
                s2 = s.copy()
                s2.env["\0ret"] = v
                for s3 in self.block(n.finalbody, [s2]):
                    fr.returns.append((s3, s3.env.pop("\0ret", v)))
            if innerloop is not None and oldloop:
                for q in innerloop[0]:
                    oldloop[-1][0].extend(self.block(n.finalbody, [q]))
                for q in innerloop[1]:
                    oldloop[-1][1].extend(self.block(n.finalbody, [q]))
            final_esc = []
            for (s, name, f, ln) in esc:
                for s3 in self.block(n.finalbody, [s.copy()]):
                    final_esc.append((s3, name, f, ln))
            fr.raises.extend(final_esc)
            return res
        fr.raises.extend(esc)
        return merge_states(states + hout)

    def handler_names(self, h, st):
        if h.type is None:
            return ["BaseException"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [ast.unparse(t).split(".")[-1] for t in ts]

    def handle(self, h, s, name, outer, explicit, names=()):
        self.emit("handler", exc=name, handler=h, explicit=explicit, func=self.frame.func.full, names=tuple(names))
        s = s.copy()
        s.env["\0exc"] = K(name)
        if h.name:
            s.env[h.name] = V(nty=frozenset(["None"]), attrs={"exc": name}, ty=frozenset(["other"]))
        return self.block(h.body, [s])

    def s_With(self, n, st):
        return self.with_items(n, list(n.items), st)

    def with_items(self, n, items, st):
        if not items:
            return self.block(n.body, [st])
        item, rest = items[0], items[1:]
        e = item.context_expr
        out = []
        # package-defined generator context manager: inline around the body
        if isinstance(e, ast.Call):
            for s, fv in self.fork(st, lambda s: self.ev(e.func, s)):
                tgt = [f for f in fv.fn if f[0] == "func" and f[1].is_gen and any("contextmanager" in d for d in f[1].decos)]
                if tgt:
                    out.extend(self.with_gen(n, item, rest, s, tgt[0], e))
                    continue
                out.extend(self.with_plain(n, item, rest, s))
            return out
        return self.with_plain(n, item, rest, st)

    def with_plain(self, n, item, rest, st):
        out = []
        for s, v in self.fork(st, lambda s: self.ev(item.context_expr, s)):
            self.emit("with", value=v, expr=item.context_expr, func=self.frame.func.full)
            if item.optional_vars is not None:
                ent = v
                self.assign(item.optional_vars, ent, s)
            self.cms.append((v.attrs or {}).get("cm"))
            try:
                out.extend(self.with_items(n, rest, s))
            finally:
                self.cms.pop()
        return out

    def with_gen(self, n, item, rest, st, fref, call):
        res = []
        caller = self.frame
        for s, (args, kw) in self.fork(st, lambda s: self.ev_args(call, s)):
            bound = self.bind(fref[1], args, kw, s, fref[2])
            if bound is None:
                continue
            caller_env = s.env
            ret_mark = []

            def cb(gs, yv, caller_env=caller_env):
                gen_frame = self.frame
                genv = gs.env
                self.frame = caller
                cs = State(dict(caller_env), gs.heap, gs.facts)
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, yv, cs)
                r0, ra0 = len(caller.returns), len(caller.raises)
                oldr, oldx, oldl = caller.returns, caller.raises, caller.loop
                caller.returns, caller.raises = [], []
                if caller.loop:
                    caller.loop = caller.loop[:-1] + [([], [], caller.loop[-1][2])]
                try:
                    outs = self.with_items(n, rest, cs)
                finally:
                    rets, rais = caller.returns, caller.raises
                    brk = caller.loop[-1] if caller.loop else ([], [])
                    caller.returns, caller.raises, caller.loop = oldr, oldx, oldl
                    self.frame = gen_frame
                back = []

                def pack(o, tag, extra=None):
                    ns = State(dict(genv), o.heap, o.facts)
                    ns.env["\0body"] = V(attrs={"env": o.env, "tag": tag, "extra": extra})
                    return ns
                for o in outs:
                    back.append(pack(o, "norm"))
                for o, v in rets:
                    back.append(pack(o, "ret", v))
                for o in brk[0]:
                    back.append(pack(o, "brk"))
                for o in brk[1]:
                    back.append(pack(o, "cont"))
                for (o, nm, f, ln) in rais:
                    gen_frame.raises.append((pack(o, "exc", (nm, f, ln)), nm, f, ln))
                return back
            fr = Frame(fref[1], self.frame, self.site_node)
            fr.closure_rid = fref[2]
            fr.yield_cb = cb
            old, oldc, oldn = self.frame, self.ctxs, self.site_node
            self.frame, self.ctxs = fr, []
            self.visited.add(fref[1].full)
            try:
                ends = self.block_nomerge(fref[1].node.body, State(bound, s.heap, s.facts))
                ends += [x for x, _ in fr.returns]
                rais = fr.raises
            finally:
                self.frame, self.ctxs, self.site_node = old, oldc, oldn
            for g in ends:
                b = g.env.get("\0body")
                if b is None or b.attrs is None:
                    continue
                cs = State(dict(b.attrs["env"]), g.heap, g.facts)
                tag = b.attrs["tag"]
                if tag == "norm":
                    res.append(cs)
                elif tag == "ret":
                    caller.returns.append((cs, b.attrs["extra"]))
                elif tag == "brk" and caller.loop:
                    caller.loop[-1][0].append(cs)
                elif tag == "cont" and caller.loop:
                    caller.loop[-1][1].append(cs)
            for (g, nm, f, ln) in rais:
                b = g.env.get("\0body")
                env = dict(b.attrs["env"]) if b is not None and b.attrs else dict(caller_env)
                caller.raises.append((State(env, g.heap, g.facts), nm, f, ln))
        return merge_states(res)

    def block_nomerge(self, stmts, st):
        """like block, but states carrying different with-body results are never merged"""
        states = [st]
        for s in stmts:
            if not states:
                break
            nxt = []
            for x in states:
                nxt.extend(self.stmt(s, [x]))
            states = nxt
        return states

    # ---------------------------------------------------------------- conditions
    def test(self, e, s):
        """evaluate condition e in s -> [(truth, State)] (fresh states)"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not t, x) for t, x in self.test(e.operand, s)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur, out = [s], []
            for v in e.values:
                nxt = []
                for x in cur:
                    for t, y in self.test(v, x):
                        if t == isand:
                            nxt.append(y)
                        else:
                            out.append((t, y))
                cur = nxt
            if len(out) > 1:
                pass
            return out + [(isand, x) for x in cur]
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            parts = []
            l = e.left
            for op, r in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(l, [op], [r]), e))
                l = r
            return self.test(ast.copy_location(ast.BoolOp(ast.And(), parts), e), s)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, s)
            s.env[e.target.id] = v
            return self.truth(v, e.target, s)
        if isinstance(e, ast.Compare):
            return self.test_compare(e, s)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1:
            return self.test(e.args[0], s)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "callable", "hasattr") and e.func.id not in s.env:
            return self.test_type(e, s)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1 and e.func.id not in s.env:
            a = e.args[0]
            if isinstance(a, (ast.Tuple, ast.List)):
                return self.test(ast.copy_location(ast.BoolOp(ast.Or() if e.func.id == "any" else ast.And(), list(a.elts)), e), s)
        v = self.ev(e, s)
        return self.truth(v, e, s)

    def ambient(self, *vs):
        for v in vs:
            self.tested |= v.may
            for m in v.may:
                if m.startswith("ambient:"):
                    self.emit("ambientbranch", name=m[8:])

    def truth(self, v, e, s):
        self.ambient(v)
        c = self.const_truth(v, s)
        if c is not None:
            return [(c, s)]
        t, f = s.copy(), s.copy()
        # refine
        r = self.refine(v, True)
        if r is not None:
            self.store_ref(e, r, t)
        r = self.refine(v, False)
        if r is not None:
            self.store_ref(e, r, f)
        if v.cond is not None:
            self.apply_cond(v.cond, True, t)
            self.apply_cond(v.cond, False, f)
        for x in (t, f):
            self.add_tested(v, x)
        return [(True, t), (False, f)]

    def add_tested(self, v, s):
        pass

    def apply_cond(self, cond, truth, s):
        if cond and cond[0] == "and":
            if truth:
                for c in cond[1]:
                    self.apply_cond(c, True, s)
            return
        if cond and cond[0] == "or":
            if not truth:
                for c in cond[1]:
                    self.apply_cond(c, False, s)
            return
        pred, arg, pos, mode = cond
        if mode == "count":
            mode = "false" if pos else "both"
        if mode != "both" and (mode == "true") != truth:
            return
        if pos == truth:
            s.facts = s.facts | {(pred, arg)}
            if pred in ("notnan", "notinf") and {("notnan", arg), ("notinf", arg)} <= s.facts:
                s.facts = s.facts | {("finite", arg)}
            if pred == "finite":
                s.facts = s.facts | {("notnan", arg), ("notinf", arg)}
            if pred == "eqlab":
                pass
        else:
            s.facts = s.facts | {("not-" + pred, arg)}

    def const_truth(self, v, s):
        if v.const is not None:
            b = {bool(c[1]) for c in v.const if not (c[0] == "other")}
            if len(b) == 1 and all(c[0] != "other" for c in v.const):
                return next(iter(b))
            return None
        if v.is_("None"):
            return False
        if v.fn and not v.reg and not v.may:
            return True
        if v.none() == "n" and v.ty is not None and v.ty <= {"list", "dict", "tuple", "set"}:
            if self.nonempty(v, s) or self.opts.get("client") and v.lab and not any("#" in y for y in v.lab):
                return True
            if self.definitely_empty(v, s):
                return False
            return None
        if v.none() == "n" and v.ty is not None and v.ty <= {"obj"}:
            return True
        if v.none() == "n" and "truthy" in v.tags:
            return True
        return None

    def refine(self, v, truth):
        """value known truthy / falsy"""
        if truth:
            if v.ty is not None and "None" in v.ty:
                c = v.const
                if c is not None:
                    c = frozenset(x for x in c if x[1])
                return v.but(ty=v.ty - {"None"}, const=c or None, tags=v.tags | {"truthy"})
            if v.ty is None and "None" not in v.nty:
                return v.but(nty=v.nty | {"None"}, tags=v.tags | {"truthy"})
            if v.const is not None:
                c = frozenset(x for x in v.const if x[1])
                return v.but(const=c or None)
            if v.ty is not None and v.ty & {"list", "tuple", "dict"} and "nonempty" not in v.tags:
                return v.but(tags=v.tags | {"nonempty", "truthy"})
        else:
            if v.const is not None:
                c = frozenset(x for x in v.const if not x[1])
                return v.but(const=c or None, ty=frozenset(x[0] for x in c) if c else v.ty)
            if v.ty is not None and "None" in v.ty and v.ty <= {"None", "obj", "callable", "ndarray"}:
                return v.but(ty=frozenset(["None"]), const=frozenset([("None", None)]), reg=_EMPTY)
            if v.ty is not None and v.is_("bool"):
                return v.but(const=frozenset([("bool", False)]), vid=v.vid)
        if truth and v.is_("bool") and v.const is None:
            return v.but(const=frozenset([("bool", True)]))
        return None

    def store_ref(self, e, v, s):
        """write a refined value back through the expression it was read from"""
        if isinstance(e, ast.Name):
            if e.id in s.env:
                old = s.env[e.id]
                s.env[e.id] = v
                self.refine_aliases(old, v, s)
        elif isinstance(e, ast.Attribute):
            try:
                b = self.peek(e.value, s)
            except AbsDead:
                return
            if b is not None and len(b.reg) == 1:
                r = next(iter(b.reg))
                o = self.obj(s, r)
                if o is not None and o.attrs is not None and e.attr in o.attrs:
                    at = dict(o.attrs)
                    at[e.attr] = v
                    s.heap[r] = o.but(attrs=at)
        elif isinstance(e, ast.Subscript) or (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get" and e.args):
            base = e.value if isinstance(e, ast.Subscript) else e.func.value
            ix = e.slice if isinstance(e, ast.Subscript) else e.args[0]
            b = self.peek(base, s)
            c = ix.value if isinstance(ix, ast.Constant) else None
            if b is not None and c is not None and len(b.reg) == 1:
                r = next(iter(b.reg))
                o = self.obj(s, r)
                if o is not None and o.keys is not None and c in o.keys:
                    ks = dict(o.keys)
                    ks[c] = v
                    s.heap[r] = o.but(keys=ks)
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
            self.store_ref(ast.Attribute(e.args[0], e.args[1].value, ast.Load()), v, s)
        elif isinstance(e, ast.NamedExpr):
            self.store_ref(e.target, v, s)

    def refine_aliases(self, old, new, s):
        """other variables / sol fields holding the very same value (same value number) are refined with it"""
        if not old.vid:
            return
        for k, x in list(s.env.items()):
            if x is not new and x.vid == old.vid and x.ty == old.ty and x.const == old.const and x.nty == old.nty:
                s.env[k] = x.but(ty=new.ty, nty=new.nty, const=new.const, tags=new.tags, reg=new.reg)
        for r, o in list(s.heap.items()):
            for fld in ("keys", "attrs"):
                d = getattr(o, fld)
                if d and o.kind in ("sol", "obj"):
                    hit = {k: x.but(ty=new.ty, nty=new.nty, const=new.const, tags=new.tags, reg=new.reg) for k, x in d.items()
                           if x.vid == old.vid and x.ty == old.ty and x.const == old.const and x.nty == old.nty}
                    if hit:
                        nd = dict(d)
                        nd.update(hit)
                        o = o.but(**{fld: nd})
                        s.heap[r] = o

    def peek(self, e, s):
        if isinstance(e, ast.Name):
            try:
                return self.name(e.id, s, e)
            except AbsDead:
                return None
        if isinstance(e, ast.Attribute):
            b = self.peek(e.value, s)
            if b is None or len(b.reg) != 1:
                return None
            o = self.obj(s, next(iter(b.reg)))
            if o is not None and o.attrs is not None:
                return o.attrs.get(e.attr)
        return None

    def test_type(self, e, s):
        fn = e.func.id
        args = [self.ev(a, s) for a in e.args]
        v = args[0]
        if fn == "callable":
            if v.fn and v.none() == "n" and (v.ty is None or v.ty <= {"callable"}):
                return [(True, s)]
            if v.ty is not None and v.ty <= {"None", "bool", "int", "float", "str", "list", "tuple", "dict", "ndarray", "Series", "DataFrame"}:
                return [(False, s)]
            return [(True, s.copy()), (False, s.copy())]
        if fn == "hasattr":
            nm = args[1].one()
            r = None
            if nm:
                r = self.has_attr(v, nm[0], s)
            if r is not None:
                return [(r, s)]
            return [(True, s.copy()), (False, s.copy())]
        tys, exact = self.type_names(args[1], s)
        if tys is None:
            return [(True, s.copy()), (False, s.copy())]
        if v.ty is not None:
            yes = v.ty & tys
            no = v.ty - tys
            if "obj" in v.ty and "obj" in tys:
                cls = {o.cls.name for _, o in self.objs(s, v) if isinstance(o.cls, Cls)}
                want = exact
                hit = {c for c in cls if any(w in self.P.base_names(self.find_class(c)) for w in want)}
                if cls and hit == cls:
                    no = no - {"obj"}
                elif cls and not hit:
                    yes = yes - {"obj"}
                    no = no | {"obj"}
                else:
                    no = no | {"obj"}
            elif "other" in yes:
                no = no | {"other"}
            out = []
            if yes:
                t = s.copy() if no else s
                if no:
                    self.store_ref(e.args[0], v.but(ty=yes, const=self.fconst(v, yes)), t)
                out.append((True, t))
            if no:
                f = s.copy() if yes else s
                if yes:
                    self.store_ref(e.args[0], v.but(ty=no, const=self.fconst(v, no), reg=v.reg if not no <= IMM else _EMPTY), f)
                out.append((False, f))
            return out
        pos = frozenset(t for t in tys if t not in v.nty)
        out = []
        if pos:
            t = s.copy()
            self.store_ref(e.args[0], v.but(ty=pos, nty=_EMPTY, reg=v.reg if not pos <= IMM else _EMPTY), t)
            out.append((True, t))
        f = s.copy()
        self.store_ref(e.args[0], v.but(nty=v.nty | (tys - {"obj", "other"})), f)
        out.append((False, f))
        return out

    def fconst(self, v, tys):
        if v.const is None:
            return None
        c = frozenset(x for x in v.const if x[0] in tys)
        return c or None

    def has_attr(self, v, nm, s):
        objs = [o for _, o in self.objs(s, v) if o.kind == "obj" and isinstance(o.cls, Cls)]
        if objs and v.ty is not None and v.ty <= {"obj"}:
            r = {nm in (o.attrs or {}) or self.P.find_method(o.cls, nm) is not None or any(nm in k.attrs for k in self.P.mro(o.cls)) for o in objs}
            if len(r) == 1:
                return next(iter(r))
        if v.ty is not None and v.ty <= {"None", "int", "float", "bool", "str", "tuple", "list", "dict"}:
            if nm in ("index", "count"):
                return None
            known = {"dict": ("items", "keys", "get", "values", "update", "pop")}
            r = {nm in known.get(t, ()) or (nm in ("__len__", "__iter__") and t in ("tuple", "list", "dict", "str")) for t in v.ty}
            return next(iter(r)) if len(r) == 1 else None
        if v.ty is not None and v.ty <= {"ndarray", "Series", "DataFrame", "Index", "matrix"}:
            return self.lib.hasattr_model(v.ty, nm)
        return None

    TYPEMAP = {"str": ["str"], "int": ["int", "bool"], "float": ["float"], "bool": ["bool"], "list": ["list"], "tuple": ["tuple"], "dict": ["dict"], "set": ["set"],
               "ndarray": ["ndarray"], "Series": ["Series"], "DataFrame": ["DataFrame"], "Index": ["Index"], "Mapping": ["dict"], "Real": ["int", "float", "bool"],
               "Number": ["int", "float", "bool"], "Integral": ["int", "bool"], "integer": ["other"], "floating": ["other"], "Sequence": ["list", "tuple", "str"], "NDFrame": ["Series", "DataFrame"],
               "Iterable": ["list", "tuple", "dict", "ndarray", "Series", "DataFrame", "Index", "set", "str"], "matrix": ["matrix"], "MultiIndex": ["other"], "generic": ["other"]}

    def type_names(self, v, s):
        items = list(v.seq) if v.seq is not None else [v]
        out, exact = set(), set()
        for x in items:
            if not x.fn:
                return None, None
            for f in x.fn:
                if f[0] == "lib":
                    n = f[1].split(".")[-1]
                    if n not in self.TYPEMAP:
                        out.add("other")
                        continue
                    out.update(self.TYPEMAP[n])
                elif f[0] == "cls":
                    out.add("obj")
                    exact.add(f[1].name)
                else:
                    return None, None
        return frozenset(out), exact

    def test_compare(self, e, s):
        op = e.ops[0]
        le, re_ = e.left, e.comparators[0]
        a = self.ev(le, s)
        b = self.ev(re_, s)
        self.ambient(a, b)
        neg = isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn))
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a.is_("None") and not b.is_("None"):
                a, b, le, re_ = b, a, re_, le
            if b.is_("None"):
                nn = a.none()
                if nn == "y":
                    return [(not neg, s)]
                if nn == "n":
                    return [(neg, s)]
                t, f = s.copy(), s.copy()
                self.store_ref(le, NONE.but(vid=a.vid), t)
                self.store_ref(le, a.but(ty=(a.ty - {"None"}) if a.ty is not None else None, nty=a.nty | {"None"} if a.ty is None else _EMPTY, const=self.fconst(a, (a.ty or frozenset()) - {"None"})), f)
                return [(not neg, t), (neg, f)]
            ca, cb = a.one(), b.one()
            if ca and cb and tyname(ca[0]) in ("bool", "None") and tyname(cb[0]) in ("bool", "None"):
                return [((ca[0] is cb[0]) != neg, s)]
            if cb and tyname(cb[0]) == "bool" and a.ty is not None and "bool" not in a.ty:
                return [(neg, s)]
            return [(True, s.copy()), (False, s.copy())]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if b.const is None and a.const is not None:
                a, b, le, re_ = b, a, re_, le
            r = self.eq_split(a, b, s)
            if r is not None:
                out = []
                yes, no = r
                if yes is not None:
                    t = s.copy()
                    if no is not None:
                        self.store_ref(le, yes, t)
                    out.append((not neg, t))
                if no is not None:
                    f = s.copy()
                    if yes is not None:
                        self.store_ref(le, no, f)
                    out.append((neg, f))
                return out
        if isinstance(op, (ast.In, ast.NotIn)):
            items = self.known_items(b, s)
            if items is not None and all(x.one() for x in items):
                consts = frozenset((tyname(x.one()[0]), x.one()[0]) for x in items)
                r = self.eq_split(a, V(const=consts), s, multi=True)
                if r is not None:
                    out = []
                    yes, no = r
                    if yes is not None:
                        t = s.copy()
                        if no is not None:
                            self.store_ref(le, yes, t)
                        out.append((not neg, t))
                    if no is not None:
                        f = s.copy()
                        if yes is not None:
                            self.store_ref(le, no, f)
                        out.append((neg, f))
                    return out
            ca = ckey(a)
            if ca and len(b.reg) == 1:
                o = self.obj(s, next(iter(b.reg)))
                if o is not None and o.kind == "dict" and o.keys is not None and (o.elem is None or ca[0] in o.keys):
                    if ca[0] in o.keys:
                        if "maybe-absent" not in o.keys[ca[0]].tags:
                            return [(not neg, s)]
                    else:
                        return [(neg, s)]
        v = self.lib.compare(self, s, type(op).__name__, a, b)
        return self.truth(v, e, s)

    def eq_split(self, a, b, s, multi=False):
        """a == const(s) b: (refined-if-equal or None, refined-if-different or None); None if undecidable"""
        if b.const is None:
            return None
        if a.const is not None:
            if not multi and len(b.const) > 1:
                return None
            num = lambda cs: {(("num", float(c[1])) if c[0] in ("int", "float", "bool") else c) for c in cs}
            bn = num(b.const)
            yes = frozenset(c for c in a.const if next(iter(num([c]))) in bn)
            no = a.const - yes
            return (a.but(const=yes, ty=frozenset(c[0] for c in yes)) if yes else None, a.but(const=no, ty=frozenset(c[0] for c in no)) if no else None)
        # an "unknown literal" never equals a known constant
        if "fresh-literal" in a.tags:
            return (None, a)
        if all(c[0] in ("str", "None", "bool") for c in b.const) and (a.ty is None or a.ty & {c[0] for c in b.const}):
            if not multi and len(b.const) > 1:
                return None
            if all(c[0] == "str" for c in b.const) or multi:
                ty = frozenset(c[0] for c in b.const)
                if a.ty is not None:
                    ty = ty & a.ty
                    cs = frozenset(c for c in b.const if c[0] in ty)
                else:
                    cs = b.const
                return (a.but(const=cs, ty=ty, reg=_EMPTY), a)
        if a.ty is not None and a.ty <= {"str", "None"} and not any(c[0] in a.ty for c in b.const):
            return (None, a)
        return None

    # ---------------------------------------------------------------- expressions
    def ev(self, e, s):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            vs = [self.ev(c, s) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)]
            return self.lib.unknown(self, s, vs)
        old = self.site_node
        if hasattr(e, "lineno"):
            self.site_node = e
        try:
            return m(e, s)
        finally:
            self.site_node = old

    def e_Constant(self, e, s):
        return K(e.value) if not isinstance(e.value, (bytes, complex)) and e.value is not Ellipsis else V(nty=frozenset(["None"]))

    def e_Name(self, e, s):
        return self.name(e.id, s, e)

    def e_NamedExpr(self, e, s):
        v = self.ev(e.value, s)
        s.env[e.target.id] = v
        return v

    def e_JoinedStr(self, e, s):
        vs = [self.ev(v.value, s) for v in e.values if isinstance(v, ast.FormattedValue)]
        may = frozenset().union(*[v.may for v in vs]) if vs else _EMPTY
        cs = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                cs.append(str(v.value))
            else:
                x = self.ev(v.value, s).one()
                if x is None or v.format_spec is not None or v.conversion != -1:
                    cs = None
                    break
                cs.append(str(x[0]))
        if cs is not None:
            return K("".join(cs))
        pat = "".join(str(v.value) if isinstance(v, ast.Constant) else "{}" for v in e.values)
        return V(ty=frozenset(["str"]), may=may, vid=vn("fs", pat, *[v.vid for v in vs]), attrs={"pattern": pat})

    def e_Tuple(self, e, s):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.star_seq(e, s, "tuple")
        vs = tuple(self.ev(x, s) for x in e.elts)
        return V(ty=frozenset(["tuple"]), seq=vs, vid=vn("tup", *[v.vid for v in vs]))

    def e_List(self, e, s):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.star_seq(e, s, "list")
        vs = [self.ev(x, s) for x in e.elts]
        return self.new_list(s, vs, e)

    def e_Set(self, e, s):
        vs = [self.ev(x, s) for x in e.elts]
        rid = self.new_rid(e, "set")
        s.heap[rid] = self.set_obj(vs)
        return V(ty=frozenset(["set"]), reg=frozenset([rid]), vid=vn("set", *[v.vid for v in vs]))

    def star_seq(self, e, s, kind):
        items, summ, ne = [], None, False
        must = _EMPTY
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, s)
                k = self.known_items(v, s)
                if k is not None:
                    if items is not None:
                        items.extend(k)
                    must |= self.N(v, s).must
                    for y in k:
                        summ = y if summ is None else join(summ, y)
                else:
                    items = None
                    el = self.elem_of(v, s)
                    must |= self.N(v, s).must
                    summ = el if summ is None else join(summ, el)
                    ne = ne or self.nonempty(v, s)
            else:
                v = self.ev(x, s)
                if items is not None:
                    items.append(v)
                must |= self.N(v, s).must
                summ = v if summ is None else join(summ, v)
                ne = True
        if kind == "tuple":
            if items is not None:
                return V(ty=frozenset(["tuple"]), seq=tuple(items), vid=vn("tup", *[v.vid for v in items]))
            return V(ty=frozenset(["tuple"]), elem=summ, must=must, may=summ.may if summ else _EMPTY, tags=frozenset(["nonempty"]) if ne else _EMPTY, vid=vn("tups", summ.vid if summ else 0))
        return self.new_list(s, items, e, summ, ne, must)

    def e_Dict(self, e, s):
        keys, elem, kel = {}, None, None
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, s)
            if k is None:
                lib = [f[1] for f in vv.fn if f[0] == "lib"]
                if lib and len(e.keys) == 1:
                    return V(ty=frozenset(["dict"]), vid=vn("snap", lib[0], self.lib.state_ver(self, s, lib[0]).vid))
                for r, o in self.objs(s, vv):
                    if o.kind == "dict":
                        keys.update(o.keys or {})
                        if o.elem is not None:
                            elem = o.elem if elem is None else join(elem, o.elem)
                if not self.objs(s, vv):
                    x = self.elem_of(vv, s)
                    elem = x if elem is None else join(elem, x)
                continue
            kv = self.ev(k, s)
            c = ckey(kv)
            if c is not None:
                keys[c[0]] = vv
            else:
                self.fkey(kv, vv, s)
                elem = vv if elem is None else join(elem, vv)
                kel = kv if kel is None else join(kel, kv)
        return self.new_dict(s, keys, e, elem, kel, nonempty=bool(e.keys))

    def e_Starred(self, e, s):
        return self.ev(e.value, s)

    def e_Lambda(self, e, s):
        f = Func(e, self.frame.func.mod, None, self.frame.func)
        rid = ("clos", self.nid(e), self.unroll_idx())
        at = dict(s.env)
        if self.frame.closure_rid is not None:
            at["\0parent"] = V(const=frozenset([("other", self.frame.closure_rid)]))
        s.heap[rid] = Obj("clos", attrs=at, cls=self.frame.func)
        return V(ty=frozenset(["callable"]), fn=frozenset([("func", f, rid)]), vid=vn("lam", self.nid(e)))

    def e_Yield(self, e, s):
        self.do_yield(e, s)
        return V()

    def e_IfExp(self, e, s):
        alts = []
        old, self.tested = self.tested, set()
        tests = self.test(e.test, s)
        self.choice |= self.tested
        self.tested = old
        for t, x in tests:
            y = x.copy()
            try:
                v = self.ev(e.body if t else e.orelse, y)
                alts.append((y, v))
            except AbsDead:
                pass
        return self.pick(s, alts)

    def e_BoolOp(self, e, s):
        isand = isinstance(e.op, ast.And)
        # value semantics with path-sensitive forking
        def rec(vals, st):
            if len(vals) == 1:
                if self.refinable(vals[0]):
                    return [(x, K(t)) for t, x in self.test(vals[0], st)]
                return [(st, self.ev(vals[0], st))]
            out = []
            head = vals[0]
            if self.refinable(head):
                for t, x in self.test(head, st):
                    if t == isand:
                        out.extend(rec(vals[1:], x))
                    else:
                        out.append((x, K(t)))
                return out
            v = self.ev(head, st)
            for t, x in self.truth(v, head, st):
                if t == isand:
                    out.extend(rec(vals[1:], x))
                else:
                    r = self.refine(v, t)
                    out.append((x, r if r is not None else v))
            return out
        old, self.tested = self.tested, set()
        alts = rec(e.values, s.copy())
        self.choice |= self.tested
        self.tested = old
        # group identical outcomes to limit forking
        conds = None
        if len(alts) > 4:
            g = {}
            for x, v in alts:
                k = repr(discr(v, 0))
                g[k] = (x, v) if k not in g else (state_join(g[k][0], x), join(g[k][1], v))
            alts = list(g.values())
        return self.pick(s, alts)

    def refinable(self, e):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return True
        if isinstance(e, ast.Compare):
            if len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)):
                return True
            if len(e.ops) == 1 and isinstance(e.ops[0], (ast.Eq, ast.NotEq, ast.In, ast.NotIn)) and (isinstance(e.comparators[0], ast.Constant) or isinstance(e.comparators[0], (ast.Tuple, ast.List, ast.Set))):
                return True
            return False
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "bool", "callable", "hasattr"):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and e.args and isinstance(e.args[0], (ast.Tuple, ast.List)):
            return True
        if isinstance(e, ast.BoolOp):
            return all(self.refinable(v) for v in e.values)
        return False

    def e_Compare(self, e, s):
        if self.refinable(e):
            alts = [(x, K(t)) for t, x in self.test(e, s)]
            return self.pick(s, alts)
        a = self.ev(e.left, s)
        res = None
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r, s)
            v = self.lib.compare(self, s, type(op).__name__, a, b)
            if res is None:
                res = v
            else:
                cs = tuple(c for c in (res.cond, v.cond) if c)
                res = V(ty=frozenset(["bool"]), may=res.may | v.may, must=res.must | v.must, vid=vn("and", res.vid, v.vid), cond=("and", cs) if cs else None)
            a = b
        return res

    def e_UnaryOp(self, e, s):
        if isinstance(e.op, ast.Not):
            if self.refinable(e.operand):
                alts = [(x, K(not t)) for t, x in self.test(e.operand, s)]
                return self.pick(s, alts)
            v = self.ev(e.operand, s)
            c = self.const_truth(v, s)
            if c is not None:
                return K(not c)
            return V(ty=frozenset(["bool"]), may=v.may, must=v.must, vid=vn("not", v.vid), cond=self.lib.cond_not(v.cond))
        v = self.ev(e.operand, s)
        return self.lib.unop(self, s, type(e.op).__name__, v)

    def e_BinOp(self, e, s):
        a = self.ev(e.left, s)
        b = self.ev(e.right, s)
        return self.lib.binop(self, s, type(e.op).__name__, a, b, e)

    def ev_index(self, e, s):
        if isinstance(e, ast.Slice):
            parts = [self.ev(x, s) if x is not None else NONE for x in (e.lower, e.upper, e.step)]
            return V(ty=frozenset(["other"]), attrs={"slice": tuple(parts)}, may=frozenset().union(*[p.may for p in parts]), must=frozenset().union(*[p.must for p in parts]),
                     vid=vn("slice", *[p.vid for p in parts]), tags=frozenset(["slice"]))
        if isinstance(e, ast.Tuple):
            vs = tuple(self.ev_index(x, s) for x in e.elts)
            return V(ty=frozenset(["tuple"]), seq=vs, vid=vn("ix", *[v.vid for v in vs]), may=frozenset().union(*[v.may for v in vs]) if vs else _EMPTY,
                     must=frozenset().union(*[v.must for v in vs]) if vs else _EMPTY)
        return self.ev(e, s)

    e_Slice = ev_index

    def e_Subscript(self, e, s):
        b = self.ev(e.value, s)
        k = self.ev_index(e.slice, s)
        return self.lib.getitem(self, s, b, k)

    def e_Attribute(self, e, s):
        b = self.ev(e.value, s)
        return self.getattr(s, b, e.attr)

    def getattr(self, s, b, attr):
        alts = []
        for f in b.fn:
            if f[0] == "mod":
                r = self.P.lookup(f[1], attr)
                alts.append(self.ref(r, f[1], attr) if r else V())
            elif f[0] == "lib":
                alts.append(self.lib.lib_attr(self, f[1] + "." + attr))
            elif f[0] == "cls":
                m = self.P.find_method(f[1], attr)
                if m is not None:
                    if "classmethod" in m.decos:
                        alts.append(V(ty=frozenset(["callable"]), fn=frozenset([("bound", m, V(ty=frozenset(["callable"]), fn=frozenset([f]), vid=vn("c", f[1].name)))]), vid=vn("cm", m.full)))
                    else:
                        alts.append(V(ty=frozenset(["callable"]), fn=frozenset([("func", m, None)]), vid=vn("f", m.full)))
                else:
                    for k in self.P.mro(f[1]):
                        if attr in k.attrs:
                            alts.append(self.module_eval(k.mod, k.attrs[attr], ("cattr", k.name, attr)))
                            break
                    else:
                        alts.append(K(f[1].name) if attr == "__name__" else V())
        if alts:
            return join_all(alts)
        found = False
        ext = False
        for r, o in self.objs(s, b):
            if o.kind in ("obj", "sol"):
                found = True
                if o.attrs is not None and attr in o.attrs:
                    alts.append(o.attrs[attr])
                    continue
                if isinstance(o.cls, Cls):
                    m = self.P.find_method(o.cls, attr)
                    if m is not None:
                        bv = b.but(reg=frozenset([r]))
                        if "property" in m.decos or any(d.endswith("cached_property") for d in m.decos):
                            alts.append(self.call_func(m, [bv], {}, s, None))
                        elif "staticmethod" in m.decos:
                            alts.append(V(ty=frozenset(["callable"]), fn=frozenset([("func", m, None)]), vid=vn("f", m.full)))
                        elif "classmethod" in m.decos:
                            alts.append(V(ty=frozenset(["callable"]), fn=frozenset([("bound", m, V(ty=frozenset(["callable"]), fn=frozenset([("cls", o.cls)])))]), vid=vn("cm", m.full)))
                        else:
                            alts.append(V(ty=frozenset(["callable"]), fn=frozenset([("bound", m, bv)]), vid=vn("bm", m.full, bv.vid)))
                        continue
                    if attr == "__class__":
                        alts.append(V(ty=frozenset(["callable"]), fn=frozenset([("cls", o.cls)]), vid=vn("c", o.cls.name)))
                        continue
                    for k in self.P.mro(o.cls):
                        if attr in k.attrs and not k.is_dataclass:
                            alts.append(self.module_eval(k.mod, k.attrs[attr], ("cattr", k.name, attr)))
                            break
                    else:
                        alts.append(V(vid=vn("attr", b.vid, attr), may=b.may, reg=frozenset([self.sub(r, "." + attr)])))
                else:
                    alts.append(V(vid=vn("attr", b.vid, attr), may=b.may, must=b.must, nty=frozenset(["None"]) if o.kind == "sol" else _EMPTY))
        if alts:
            return join_all(alts)
        return self.lib.attr(self, s, b, attr)

    # ---------------------------------------------------------------- comprehensions
    def comp(self, e, s, make):
        """evaluate comprehension generators; returns (known item list or None, summary, nonempty, must)"""
        env0 = dict(s.env)

        def rec(gens, st):
            """-> (items|None, summary, nonempty)"""
            if not gens:
                v = make(st)
                return [v], v, True, (self.N(v, st).must if isinstance(v, V) else _EMPTY)
            g = gens[0]
            it = self.ev(g.iter, st)
            if it.ty is not None and it.ty <= {"set"} or "setord" in it.tags:
                self.set_comp = True
            items = self.known_items(it, st)
            out, summ, ne, must = [], None, False, _EMPTY
            vals = items if items is not None and len(items) <= UNROLL else None
            fr = self.frame
            if vals is None:
                el = self.elem_of(it, st)
                seq = [el]
                out = None
                ne0 = self.nonempty(it, st)
            else:
                seq = vals
                ne0 = len(vals) > 0
            for i, x in enumerate(seq):
                fr.loop.append(([], [], i if vals is not None else None))
                try:
                    self.assign(g.target, x, st)
                    sure = True
                    for c in g.ifs:
                        old, self.tested = self.tested, set()
                        alts = self.test(c, st.copy())
                        self.choice |= self.tested
                        self.tested = old
                        ts = [y for t, y in alts if t]
                        if not ts:
                            sure = None
                            break
                        if len(ts) < len(alts):
                            sure = False
                        j = ts[0]
                        for y in ts[1:]:
                            j = state_join(j, y)
                        st.become(j.copy())
                    if sure is None:
                        continue
                    r_items, r_s, r_ne, r_m = rec(gens[1:], st)
                finally:
                    fr.loop.pop()
                if out is not None:
                    if r_items is None or sure is False:
                        out = None
                    else:
                        out = out + r_items
                if r_s is not None:
                    summ = r_s if summ is None else self.pjoin(summ, r_s)
                if sure and r_ne and ne0:
                    ne = True
                    must |= r_m
            return out, summ, ne, must
        r = rec(list(e.generators), s)
        s.env = env0
        return r

    def pjoin(self, a, b):
        if isinstance(a, tuple):
            return tuple(join(x, y) for x, y in zip(a, b))
        return join(a, b)

    def e_ListComp(self, e, s):
        self.set_comp = False
        items, summ, ne, must = self.comp(e, s, lambda st: self.ev(e.elt, st))
        so, self.set_comp = self.set_comp, False
        v = self.new_list(s, items, e, summ, ne, must)
        return v.but(tags=v.tags | {"setord"}) if so else v

    def e_GeneratorExp(self, e, s):
        items, summ, ne, must = self.comp(e, s, lambda st: self.ev(e.elt, st))
        if items is not None:
            return V(ty=frozenset(["other"]), seq=tuple(items), vid=vn("gen", *[x.vid for x in items]))
        return V(ty=frozenset(["other"]), elem=summ, must=must, may=summ.may if summ is not None else _EMPTY, tags=frozenset(["nonempty"]) if ne else _EMPTY, vid=vn("gen", summ.vid if summ is not None else 0))

    def e_SetComp(self, e, s):
        items, summ, ne, must = self.comp(e, s, lambda st: self.ev(e.elt, st))
        rid = self.new_rid(e, "set")
        s.heap[rid] = self.set_obj(items) if items is not None else Obj("set", elem=summ, nonempty=ne)
        return V(ty=frozenset(["set"]), reg=frozenset([rid]), may=summ.may if summ is not None else _EMPTY, vid=vn("setc", rid))

    def e_DictComp(self, e, s):
        def mk(st):
            return (self.ev(e.key, st), self.ev(e.value, st))
        rid = None

        def rec(st):
            return mk(st)
        env0 = dict(s.env)
        pairs = []

        def make(st):
            k, v = mk(st)
            pairs.append((k, v))
            return V(ty=frozenset(["tuple"]), seq=(k, v), vid=vn("kv", k.vid, v.vid), may=v.may, must=v.must)
        items, summ, ne, must = self.comp(e, s, make)
        if items is not None and all(ckey(p.seq[0]) for p in items):
            return self.new_dict(s, {ckey(p.seq[0])[0]: p.seq[1] for p in items}, e)
        if summ is None:
            return self.new_dict(s, {}, e)
        ks = join_all([p[0] for p in pairs])
        vs = join_all([p[1] for p in pairs])
        d = self.new_dict(s, {}, e, vs, ks, ne)
        r = next(iter(d.reg))
        s.heap[r] = s.heap[r].but(must=must)
        return d

    # ---------------------------------------------------------------- calls
    def ev_args(self, e, s):
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, s)
                k = self.known_items(v, s)
                if k is not None:
                    args.extend(k)
                else:
                    args.append(("*", v))
            else:
                args.append(self.ev(a, s))
        if any(isinstance(a, tuple) for a in args):
            i = next(i for i, a in enumerate(args) if isinstance(a, tuple))
            if i != len(args) - 1:
                el = self.elem_of(args[i][1], s)
                for x in args[i + 1:]:
                    el = join(el, x[1] if isinstance(x, tuple) else x)
                args = args[:i] + [("*", V(elem=el, may=el.may, ty=frozenset(["tuple"])))]
        for k in e.keywords:
            v = self.ev(k.value, s)
            if k.arg is None:
                r = [o for _, o in self.objs(s, v) if o.kind == "dict"]
                if len(v.reg) == 1 and r:
                    for n, x in (r[0].keys or {}).items():
                        if isinstance(n, str):
                            kw[n] = x
                    if r[0].elem is not None:
                        kw["**"] = V(elem=r[0].elem, may=r[0].elem.may, ty=frozenset(["dict"]))
                elif v.is_("None"):
                    pass
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return args, kw

    def e_Call(self, e, s):
        f = e.func
        # super()
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            cls = self.frame.func.cls or (self.frame.func.outer.cls if self.frame.func.outer else None)
            if cls is not None:
                selfn = self.frame.func.node.args.args[0].arg
                sv = s.env.get(selfn)
                dyn = cls
                m = None
                for r, o in self.objs(s, sv) if sv is not None else []:
                    if isinstance(o.cls, Cls):
                        dyn = o.cls
                m = self.P.find_method(dyn, f.attr, after=cls)
                args, kw = self.ev_args(e, s)
                if m is not None:
                    a = args if "staticmethod" in m.decos else [sv] + args
                    return self.call_func(m, a, kw, s, None)
                return V()
        # logging / docstring noise
        if isinstance(f, ast.Attribute):
            base = self.ev(f.value, s)
            fv = None
            if base.fn or self.objs(s, base):
                fv = self.getattr(s, base, f.attr)
            if fv is None or (not fv.fn):
                args, kw = self.ev_args(e, s)
                return self.lib.method(self, s, base, f.attr, args, kw, e, fv)
            args, kw = self.ev_args(e, s)
            # also remember the receiver expression for refinement of x.get(..)
            return self.call_value(fv, args, kw, s, e, base)
        fv = self.ev(f, s)
        args, kw = self.ev_args(e, s)
        return self.call_value(fv, args, kw, s, e)

    def call_value(self, fv, args, kw, s, e, base=None):
        alts = []
        fns = list(fv.fn)
        if not fns:
            self.emit("extcall", fn=fv, args=args, kw=kw)
            if self.opts.get("implicit"):
                self.raise_exc(s, "?")
            return self.lib.unknown(self, s, [fv] + [a[1] if isinstance(a, tuple) else a for a in args] + list(kw.values()))
        if len(fns) == 1:
            return self.call_one(fns[0], args, kw, s, e)
        outs = []
        for f in sorted(fns, key=lambda f: repr(f[1])):
            s2 = s.copy()
            try:
                v = self.call_one(f, args, kw, s2, e)
                outs.append((s2, v.but(may=v.may | fv.may) if fv.may else v))
            except AbsDead:
                pass
        return self.pick(s, outs)

    def call_one(self, f, args, kw, s, e):
        if f[0] == "func":
            return self.call_func(f[1], args, kw, s, f[2])
        if f[0] == "bound":
            return self.call_func(f[1], [f[2]] + list(args), kw, s, None)
        if f[0] == "partial":
            pa, pk = f[2], dict(f[3])
            pk.update(kw)
            return self.call_value(f[1], list(pa) + list(args), pk, s, e)
        if f[0] == "cls":
            return self.construct(f[1], args, kw, s, e)
        if f[0] == "lib":
            return self.lib.call(self, s, f[1], args, kw, e)
        return self.lib.unknown(self, s, [a[1] if isinstance(a, tuple) else a for a in args] + list(kw.values()))

    def call_func(self, func, args, kw, s, closure):
        h = self.hooks.get(func.full)
        if h is not None:
            r = h(self, s, func, args, kw)
            if r is not None:
                return r
        f, n = self.frame, 0
        while f is not None:
            if f.func is not None and f.func.node is func.node:
                n += 1
            f = f.caller
        if self.depth > MAXDEPTH or n > 1:
            return self.lib.unknown(self, s, [a[1] if isinstance(a, tuple) else a for a in args] + list(kw.values()))
        c = self.ctxs[-1] if self.ctxs else None
        key = None
        if c is not None:
            c.seq += 1
            key = (c.seq, tuple(c.taken))
            hit = c.cache.get(key)
            if hit is not None:
                outs, rais = hit
                return self.finish_call(s, outs, rais)
        # enclosing function still active: closures see its current bindings
        if closure is not None:
            fr = self.frame
            o = self.obj(s, closure)
            depth_env = None
            if o is not None and isinstance(o.cls, Func) and fr is not None and fr.func is not None and fr.func.node is o.cls.node:
                at = dict(o.attrs)
                at.update(s.env)
                s.heap[closure] = o.but(attrs=at)
        caller_env = s.env
        bound = self.bind(func, args, kw, s, closure)
        if bound is None:
            raise AbsDead()
        node_before = self.site_node
        pre = s.heap
        outs, rais = self.body(func, bound, s, closure)
        self.site_node = node_before
        if any(o.kind == "sol" for x in outs + rais for o in x[0].heap.values()):
            outs = self.drop_sols(pre, outs, "ret")
            rais = [(x,) + tuple(r[1:]) for (x, _), r in zip(self.drop_sols(pre, [(r[0], None) for r in rais], "raise"), rais)]
        nl = [x for w in walk_own(func.node) if isinstance(w, ast.Nonlocal) for x in w.names] if closure is not None else []
        sync = lambda x: caller_env
        if nl:
            o0 = self.obj(s, closure)
            if o0 is not None and isinstance(o0.cls, Func) and self.frame is not None and self.frame.func is not None and self.frame.func.node is o0.cls.node:
                def sync(x):
                    at = (self.obj(x, closure) or o0).attrs or {}
                    return dict(caller_env, **{n: at[n] for n in nl if n in at})
                outs = [(State(sync(x), x.heap, x.facts), v) for x, v in outs]
                rais = [(State(sync(x), x.heap, x.facts), nm, fn, ln) for x, nm, fn, ln in rais]
                rais = self.merge_raises(rais)
                if key is not None:
                    c.cache[key] = (outs, rais)
                return self.finish_call(s, outs, rais, own=True)
        outs = [(State(caller_env, x.heap, x.facts), v) for x, v in outs]
        rais = [(State(caller_env, x.heap, x.facts), nm, fn, ln) for x, nm, fn, ln in rais]
        rais = self.merge_raises(rais)
        if key is not None:
            c.cache[key] = (outs, rais)
        return self.finish_call(s, outs, rais)

    def drop_sols(self, pre, ends, kind):
        """at a call's end: data of a solver result known to have succeeded is settled; a result nothing depends on is forgotten"""
        out = []
        for x, v in ends:
            for r, o in list(x.heap.items()):
                if o.kind != "sol" or r in pre:
                    continue
                sid = sol_id(r)
                if kind == "ret" and sol_ok(o):
                    x = rename_state(x, sid, "ok" + sid, r)
                    v = rename_v(v, sid, "ok" + sid)
                    x.heap.pop(r)
                    continue
                live = kind == "ret" and (sid in self.deep(v, x)[0] or r in v.reg)
                if not live and not sol_live(State({}, x.heap, x.facts), r):
                    x = State(x.env, {k: w for k, w in x.heap.items() if k != r}, x.facts)
            out.append((x, v))
        return out

    def merge_raises(self, rais):
        if len(rais) <= 24:
            return rais
        g = {}
        for (x, nm, fn, ln) in rais:
            k = (nm, fn, ln)
            g[k] = (x, nm, fn, ln) if k not in g else (state_join(g[k][0], x), nm, fn, ln)
        return list(g.values())

    def finish_call(self, s, outs, rais, own=False):
        if own:
            if self.frame is not None:
                self.frame.raises.extend(rais)
            return self.pick(s, [(x.copy(), v) for x, v in outs])
        if self.frame is not None:
            for (x, nm, fn, ln) in rais:
                self.frame.raises.append((State(dict(s.env), x.heap, x.facts), nm, fn, ln))
        outs = [(State(dict(s.env), x.heap, x.facts), v) for x, v in outs]
        return self.pick(s, outs)

    def construct(self, cls, args, kw, s, e):
        names = self.P.base_names(cls)
        if names & {"Exception", "BaseException", "ValueError", "RuntimeError", "TypeError"}:
            return V(ty=frozenset(["other"]), attrs={"exc": cls.name}, vid=vn("exc", cls.name))
        rid = self.new_rid(e, "obj:" + cls.name)
        init = self.P.find_method(cls, "__init__")
        self_v = V(ty=frozenset(["obj"]), reg=frozenset([rid]), vid=vn("obj", cls.name, rid, *([a.vid for a in args if isinstance(a, V)] + [k for n in sorted(kw) for k in (n, kw[n].vid)])))
        s.heap[rid] = Obj("obj", attrs={}, cls=cls, nonempty=True)
        if init is not None:
            self.emit("construct", cls=cls.name, args=args, kw=kw, state=s)
            self.call_func(init, [self_v] + list(args), kw, s, None)
            return self_v
        if cls.is_dataclass or any(k.is_dataclass for k in self.P.mro(cls)):
            fields = self.P.dc_fields(cls)
            vals = {}
            args = list(args)
            star = None
            if args and isinstance(args[-1], tuple):
                star = args.pop()[1]
            kw = dict(kw)
            ss = kw.pop("**", None)
            for (n, a, d, k) in fields:
                if args:
                    vals[n] = args.pop(0)
                elif n in kw:
                    vals[n] = kw.pop(n)
                elif star is not None:
                    vals[n] = self.elem_of(star, s)
                elif d is not None:
                    v = self.dc_default(d, k, n, s)
                    if v is None:
                        continue
                    if ss is not None:
                        v = join(v, self.elem_of(ss, s))
                    vals[n] = v
                elif ss is not None:
                    vals[n] = self.elem_of(ss, s)
                else:
                    self.raise_exc(s, "TypeError")
                    raise AbsDead()
            if args or kw:
                self.raise_exc(s, "TypeError")
                raise AbsDead()
            s.heap[rid] = Obj("obj", attrs=vals, cls=cls, nonempty=True)
            post = self.P.find_method(cls, "__post_init__")
            if post is not None:
                self.call_func(post, [self_v], {}, s, None)
            self.emit("construct", cls=cls.name, args=[], kw=dict(vals), state=s.copy(), obj=s.heap.get(rid))
            return self_v
        self.emit("construct", cls=cls.name, args=args, kw=kw, state=s)
        return self_v

    def dc_default(self, d, k, n, s):
        if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "field":
            for w in d.keywords:
                if w.arg == "default":
                    return self.module_eval(k.mod, w.value, ("dcd", k.name, n))
                if w.arg == "default_factory":
                    nm = ast.unparse(w.value)
                    if nm == "dict":
                        return self.new_dict(s, {}, d)
                    if nm == "list":
                        return self.new_list(s, [], d)
                    if isinstance(w.value, ast.Lambda):
                        return self.module_eval(k.mod, w.value.body, ("dcd", k.name, n))
                    return V(nty=frozenset(["None"]))
                if w.arg == "init" and isinstance(w.value, ast.Constant) and w.value.value is False:
                    return None
            return None
        return self.module_eval(k.mod, d, ("dcd", k.name, n))
