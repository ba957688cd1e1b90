"""Verification-condition generator: symbolic execution of LLVM IR with contracts.

The IR is clang's output for /repo's current sources plus the contract drivers of
/verif/contracts.  See DESIGN.md ("Verifier") for the semantics and what is trusted.
"""
import re
import sys
import time
import itertools
from fractions import Fraction
import z3
from terms import *

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class NeedInvariant(Exception):
    def __init__(self, h, fn):
        self.h, self.fn = h, fn


class Fork(Exception):
    """re-execute the current instruction under each of the alternatives"""

    def __init__(self, term, values):
        self.term, self.values = term, values


class ForkCond(Exception):
    def __init__(self, cond):
        self.cond = cond


class Thrown(Exception):
    """raised by models: the C++ code throws"""

    def __init__(self, ti, st=None):
        self.ti = ti
        self.st = st


class Ptr:
    __slots__ = ("rid", "idx", "off")

    def __init__(self, rid, idx=(), off=0):
        self.rid, self.idx, self.off = rid, idx, off

    def at(self, d):
        return Ptr(self.rid, self.idx, self.off + d)

    def key(self):
        return (self.rid, tuple(i if conc(i) else ('z', i.get_id()) for i in self.idx), self.off)

    def __repr__(self):
        return "Ptr(%s,%s,%s)" % (self.rid, self.idx, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.rid == o.rid and self.off == o.off and len(self.idx) == len(o.idx) \
            and all(same(a, b) for a, b in zip(self.idx, o.idx))

    def __hash__(self):
        return hash((self.rid, self.off))


NULL = Ptr(None)


class FnPtr:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnPtr) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "Fn(%s)" % self.name


class PtrInt:
    def __init__(self, p):
        self.p = p


class VecVal:
    __slots__ = ("rid", "idx")

    def __init__(self, rid, idx=()):
        self.rid, self.idx = rid, idx

    def __eq__(self, o):
        return isinstance(o, VecVal) and o.rid == self.rid and len(o.idx) == len(self.idx) and \
            all(same(a, b) for a, b in zip(self.idx, o.idx))

    def __hash__(self):
        return hash(self.rid)

    def __repr__(self):
        return "Vec(%s,%s)" % (self.rid, self.idx)


class Bits:
    """a value loaded with another type of the same size; only movable"""

    def __init__(self, v, tag):
        self.v, self.tag = v, tag


class ModelVal:
    """base class of STL model values stored in leaves (immutable)"""


class Reg:
    __slots__ = ("kind", "ndim", "ov", "root", "ranges", "len", "stride", "ety", "name", "size", "x", "freed")

    def __init__(self, kind, name, root=None, ndim=0, size=None):
        self.kind, self.name, self.root, self.ndim, self.size = kind, name, root, ndim, size
        self.ov = {}
        self.ranges = ()
        self.len = None
        self.stride = None
        self.ety = None
        self.x = None
        self.freed = False

    def copy(self):
        r = Reg(self.kind, self.name, self.root, self.ndim, self.size)
        r.ov = dict(self.ov)
        r.ranges, r.len, r.stride, r.ety, r.x, r.freed = self.ranges, self.len, self.stride, self.ety, self.x, self.freed
        return r


class State:
    __slots__ = ("pc", "mem", "eqs", "nd", "inv", "owned")

    def __init__(self):
        self.pc, self.mem, self.eqs, self.nd, self.inv = [], {}, {}, [], ()
        self.owned = set()

    def fork(self):
        s = State()
        s.pc, s.mem, s.eqs, s.nd, s.inv = list(self.pc), dict(self.mem), dict(self.eqs), list(self.nd), self.inv
        self.owned = set()
        return s

    def wreg(self, rid):
        """region for writing (copy on write)"""
        r = self.mem[rid]
        if rid not in self.owned:
            r = r.copy()
            self.mem[rid] = r
            self.owned.add(rid)
        return r

    def add(self, t, kind='f'):
        t = simp(t)
        if t is True:
            return
        self.pc.append((zbool(t), kind))


class Outcome:
    __slots__ = ("st", "ret", "exc")

    def __init__(self, st, ret=None, exc=None):
        self.st, self.ret, self.exc = st, ret, exc


class Oblig:
    __slots__ = ("name", "kind", "where", "status", "time", "backend", "detail", "nd", "model", "abstract")


HEAP = 'heap'


def tag_of(ty):
    k = ty.k
    if k == 'int':
        return 'i%d' % ty.bits
    if k in ('double', 'float'):
        return 'd'
    if k == 'x86_fp80':
        return 'd'
    if k == 'ptr':
        return 'p'
    raise Unsupported("leaf type " + k)


def tagsize(tag):
    if tag == 'p' or tag == 'd':
        return 8
    if tag[0] == 'i':
        return max(1, int(tag[1:]) // 8)
    return 8


def flatten(ty, off=0, out=None):
    """leaf layout [(off, tag)] of an LLVM type"""
    if out is None:
        out = []
    if ty.k == 'struct':
        if ty.name and ty.name.startswith('class.std::vector'):
            out.append((off, 'vec'))
        elif ty.name and ty.name.startswith(('class.std::__cxx11::basic_string', 'class.std::basic_string')):
            out.append((off, 'str'))
        elif ty.name and ty.name.startswith(('class.std::map', 'class.std::set', 'class.std::multimap')):
            out.append((off, 'map'))
        else:
            for e, o in zip(ty.elems, ty.offs):
                flatten(e, off + o, out)
    elif ty.k == 'array':
        if ty.elems[0].k == 'int' and ty.elems[0].bits == 8:
            return out      # padding / raw storage
        for i in range(ty.n):
            flatten(ty.elems[0], off + i * ty.elems[0].size, out)
    elif ty.k == 'vector':
        for i in range(ty.n):
            flatten(ty.elems[0], off + i * ty.elems[0].size, out)
    elif ty.size:
        out.append((off, tag_of(ty)))
    return out


def shortname(dem):
    """(qualified name without template arguments and parameters, list of template-argument strings of the class)"""
    s = dem
    # mask operators containing <, >, (
    s = s.replace("operator()", "operator@call").replace("operator<<=", "operator@shle").replace("operator<<", "operator@shl") \
        .replace("operator->*", "operator@pm").replace("operator->", "operator@arrow").replace("operator>>", "operator@shr") \
        .replace("operator<=", "operator@le").replace("operator>=", "operator@ge") \
        .replace("operator<", "operator@lt").replace("operator>", "operator@gt")
    s = s.replace("(anonymous namespace)", "@anon")
    out = []
    args = []
    d = 0
    cur = ""
    par = 0
    for c in s:
        if c == '<' and par == 0:
            d += 1
            if d == 1:
                cur = ""
                continue
        elif c == '>' and par == 0:
            d -= 1
            if d == 0:
                args.append(cur)
                continue
        elif c == '(' and d == 0:
            break
        if d == 0:
            out.append(c)
        else:
            cur += c
    n = "".join(out).strip()
    # drop return type
    if "operator new" in n or "operator delete" in n or "operator bool" in n:
        pass
    elif re.search(r"operator [a-zA-Z]", n):
        n = n[n.rfind(' ', 0, n.find('operator')) + 1:] if ' ' in n[:n.find('operator')] else n
    elif ' ' in n:
        n = n.split(' ')[-1]
    return n, args


class Engine:
    def __init__(self, module, mode='real', opts=None):
        self.m = module
        self.opts = opts or {}
        self.inited, self.initing = {}, set()
        self.dom = RealDom() if mode == 'real' else FpDom()
        self.mode = mode
        self.cnt = itertools.count()
        self.obligs = []
        self.quiet = 0
        self.scout_depth = 0
        self.fs = z3.Solver()
        self.fs.set("timeout", 1500)
        self.fstack = []
        self.memo_short = {}
        self.executed = {}
        self.tyids = {}
        self.assumed = set()
        self.models = {}
        self.stubs = {}
        self.active_stubs = {}
        self.rootvals = {}
        self.ufs = {}
        self.vecty = {}
        self.depth = 0
        self.budget = 400000
        self.steps = 0
        self.deadline = None
        self.spec = 0
        self.nqueries = 0
        self.qtime = 0.0
        self.loops_inv = []
        self.inv_used = {}
        self.abstract = 0
        self.covers = []
        self.bvstack = []
        self.solver_cfg = self.opts.get('solver', {})
        self.addrs = {}
        self._annot()

    # ------------------------------------------------------------ utilities
    def fresh(self, base, sort):
        n = "%s!%d" % (base, next(self.cnt))
        if sort == 'd':
            return self.dom.fresh(n)
        if sort == 'i1':
            return z3.Bool(n)
        if sort[0] == 'i':
            return z3.Int(n)
        raise Unsupported("fresh " + sort)

    def sort(self, tag):
        if tag == 'd':
            return self.dom.sort
        if tag == 'i1':
            return BOOL
        return INT

    def uf(self, name, *sorts):
        k = (name,) + tuple(s.name() for s in sorts)
        f = self.ufs.get(k)
        if f is None:
            f = z3.Function(name, *sorts)
            self.ufs[k] = f
        return f

    def short(self, name):
        r = self.memo_short.get(name)
        if r is None:
            r = shortname(self.m.dem.get(name, name))
            self.memo_short[name] = r
        return r

    def _annot(self):
        self.annot = {}
        v, _, _ = self.m.ginit("llvm.global.annotations")
        if v is None:
            return
        for e in v.ops:
            f = e.ops[0].v
            s = self.cstr(e.ops[1])
            self.annot.setdefault(f, []).append(s)
            if s.startswith("vc.stub:"):
                for d in s[8:].split(";"):
                    self.stubs[d.strip()] = f

    def cstr(self, val):
        nm = val.v if val.k == 'global' else None
        if nm is None and val.k == 'cexpr':
            nm = val.ops[0].v
        i, _, _ = self.m.ginit(nm)
        if i.k == 'zero':
            return ""
        return "".join(chr(o.v & 255) for o in i.ops if o.v)

    # ------------------------------------------------------------ solver
    def _hasq(self, t):
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                return True
            todo.extend(x.children())
        return False

    def feasible(self, pc, extra=None):
        """False only if the quantifier-free part of pc /\\ extra is unsatisfiable"""
        if extra is not None:
            extra = simp(extra)
            if extra is False:
                return False
            if extra is True:
                extra = None
        terms = [t for t, _ in pc]
        # common prefix
        k = 0
        while k < len(self.fstack) and k < len(terms) and self.fstack[k] is terms[k]:
            k += 1
        while len(self.fstack) > k:
            self.fs.pop()
            self.fstack.pop()
        for t in terms[k:]:
            self.fs.push()
            if not self._hasq_c(t):
                self.fs.add(t)
            self.fstack.append(t)
        t0 = time.time()
        self.nqueries += 1
        if extra is not None:
            self.fs.push()
            if not self._hasq_c(extra):
                self.fs.add(extra)
            r = self.fs.check()
            self.fs.pop()
        else:
            r = self.fs.check()
        self.qtime += time.time() - t0
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        return r != z3.unsat

    _hq = {}

    def _hasq_c(self, t):
        k = t.get_id()
        r = Engine._hq.get(k)
        if r is None or r[0] is not t and not r[0].eq(t):
            r = (t, self._hasq(t))
            Engine._hq[k] = r
        return r[1]

    def prove(self, pc, goal, timeout=8000, model=False):
        """'proved' | 'failed' (counter-model) | 'unknown'; returns (status, model, seconds, reason, backend)"""
        import prover
        return prover.prove(self, [t for t, _ in pc], goal, timeout, model)

    def entails(self, pc, goal, timeout=2000):
        goal = simp(goal)
        if goal is True:
            return True
        if goal is False:
            goal = z3.BoolVal(False)
        return self.prove(pc, goal, timeout)[0] == 'proved'

    def oblige(self, st, name, goal, kind, where):
        """record and discharge one proof obligation; the path continues assuming it"""
        goal = simp(goal)
        if self.spec:
            st.add(goal)
            return
        if self.quiet:
            st.add(goal)
            return
        o = Oblig()
        o.name, o.kind, o.where = name, kind, where
        o.model = None
        o.nd = None
        o.detail = ""
        o.abstract = self.abstract
        t0 = time.time()
        if goal is True:
            o.status, o.backend = 'proved', 'simplifier'
        else:
            if goal is False:
                goal = z3.BoolVal(False)
            s, model, dt, reason, be = self.prove(st.pc, goal, self.opts.get('timeout', 20000), True)
            o.status, o.backend, o.detail = s, be, reason
            if s != 'proved':
                o.model = model
                o.nd = list(st.nd)
        o.time = time.time() - t0
        self.obligs.append(o)
        if self.opts.get('verbose') and o.status != 'proved':
            print("  [%s] %s %s %s %.1fs %s" % (o.status, o.name, o.kind, o.where, o.time, o.detail[:300]), flush=True)
            if self.opts['verbose'] > 1:
                print("    goal:", str(goal)[:2000])
                for t, _ in st.pc:
                    print("    pc:", str(t)[:400])
        st.add(goal)

    def where(self, ins, fn=None):
        f = ins.file
        i = f.find('/repo/')
        if i >= 0:
            f = f[i + 6:]
        return "%s:%d" % (f.split('/verif/')[-1], ins.line)

    # ------------------------------------------------------------ memory
    def new_region(self, st, kind, name, root=('undef',), ndim=0, size=None):
        rid = "%s#%d" % (name, next(self.cnt))
        r = Reg(kind, name, root, ndim, size)
        if root and root[0] in ('sym', 'undef') and len(root) == 1:
            r.root = (root[0], rid)
        st.mem[rid] = r
        st.owned.add(rid)
        return rid

    def heap(self, st):
        if HEAP not in st.mem:
            r = Reg('svec', HEAP, ('sym', HEAP), 1)
            st.mem[HEAP] = r
        return HEAP

    def glob(self, st, name):
        rid = '@' + name
        if rid not in st.mem:
            f = self.dyninit().get(name)
            if f and name not in self.initing:
                self.run_init(name, f)
                for k, r in self.inited[name].items():
                    if k not in st.mem:
                        st.mem[k] = r
                if rid in st.mem:
                    return Ptr(rid)
            init, isc, ty = self.m.ginit(name)
            r = Reg('flat', rid, ('sym', rid), 0, ty.size if ty else None)
            if name == '__libc_single_threaded':
                r.root = ('zero',)
                r.ov[0] = (1, 'i8')
            if init is not None:
                r.root = ('init', name)
                r.x = isc
            st.mem[rid] = r
        return Ptr(rid)

    def dyninit(self):
        """global -> function that initialises it at start up"""
        if not hasattr(self.m, 'dyn'):
            d = {}
            for n in self.m.funcs:
                if n.startswith('__cxx_global_var_init'):
                    fn = self.m.func(n)
                    if not fn.defined:
                        continue
                    for b in fn.blocks:
                        for i in b.ins:
                            for o in i.ops:
                                g = o.v if o.k == 'global' else None
                                if o.k == 'global' and g in self.m.globals and not g.startswith(('_ZGV', '__dso')) and g not in d:
                                    if i.op == 'store' and o is i.ops[0]:
                                        continue
                                    d[g] = n
                                    break
            self.m.dyn = d
        return self.m.dyn

    def run_init(self, name, f):
        """the start up code of a global object, run once from the initial state"""
        if name in self.inited:
            return
        self.initing.add(name)
        st = State()
        keep = (self.cur, self.depth)
        outs = self.inline(st, f, [])
        self.cur, self.depth = keep
        self.initing.discard(name)
        outs = [o for o in outs if o.exc is None]
        if len(outs) != 1 or outs[0].st.pc:
            raise Unsupported("initialisation of " + name)
        mem = outs[0].st.mem
        # guard variables are re-read as initial
        self.inited[name] = {k: r for k, r in mem.items() if not k.startswith('@_ZGV') and k != HEAP}

    def const_at(self, st, val, off, tag):
        """leaf of a constant initialiser"""
        if val.k == 'agg':
            if val.ty.k in ('array', 'vector'):
                es = val.ty.elems[0].size
                return self.const_at(st, val.ops[off // es], off % es, tag)
            for i in range(len(val.ops) - 1, -1, -1):
                if val.ty.offs[i] <= off and (val.ops[i].ty.size or 0) > off - val.ty.offs[i]:
                    return self.const_at(st, val.ops[i], off - val.ty.offs[i], tag)
            return self.zero(tag)
        if val.k in ('zero', 'null'):
            return self.zero(tag)
        if off != 0:
            raise Unsupported("constant offset")
        return self.value(st, None, val)

    def zero(self, tag):
        if tag == 'd':
            return self.dom.const(0.0)
        if tag == 'p':
            return NULL
        if tag == 'i1':
            return False
        if tag == 'vec':
            raise Unsupported("zero vec")
        return 0

    def rootval(self, st, rid, root, off, tag, ndim, ln=None):
        """lazily created leaf of a symbolic region"""
        if root is None:
            raise Unsupported("read of unknown leaf %s+%d" % (rid, off))
        if root[0] == 'zero':
            return self.zero(tag)
        if root[0] == 'init':
            init, isc, ty = self.m.ginit(root[1])
            return self.const_at(st, init, off, tag)
        base = root[1]
        if ndim == 0:
            k = (base, off, tag)
            v = self.rootvals.get(k)
            if v is None:
                n = "%s.%d" % (base, off)
                if tag == 'p':
                    v = Ptr(HEAP, (z3.Int(n + ".p"),), 0)
                elif tag == 'd':
                    v = self.dom.fresh(n)
                elif tag == 'i1':
                    v = z3.Bool(n)
                elif tag[0] == 'i':
                    v = z3.Int(n)
                elif tag == 'str':
                    v = z3.Int(n + ".str")
                elif tag == 'vec':
                    v = ('newvec', base, n)
                else:
                    raise Unsupported("lazy leaf " + tag)
                self.rootvals[k] = v
            if isinstance(v, tuple):
                r2 = v[2] + ".data"
                if r2 not in st.mem:
                    r = Reg('svec', r2, ('sym', r2), 1)
                    r.len = z3.Int(r2 + ".len")
                    st.mem[r2] = r
                    st.add(r.len >= 0)
                return VecVal(r2)
            if tag == 'p':
                self.heap(st)
            if isz(v) and tag[0] == 'i' and tag != 'i1':
                self.range_fact(st, v, tag)
            return v
        n = "%s[].%d" % (base, off)
        k = (base, off, tag, ndim)
        v = self.rootvals.get(k)
        if v is None:
            if tag in ('vec', 'map'):
                raise Unsupported("nested container leaf in symbolic array")
            s = self.sort('i64' if tag in ('p', 'str') else tag)
            for _ in range(ndim):
                s = z3.ArraySort(INT, s)
            v = z3.Const(n, s)
            self.rootvals[k] = v
        return v

    def range_fact(self, st, v, tag):
        b = int(tag[1:])
        lo, hi = -(1 << (b - 1)), (1 << (b - 1)) - 1
        for t, _ in st.pc:
            pass
        st.add(z3.And(v >= lo, v <= hi))

    def leaf_read(self, st, rid, off, tag, reg=None):
        """leaf term (array term if ndim>0)"""
        r = reg or st.mem[rid]
        if off in r.ov:
            return r.ov[off]
        for lo, hi, snap, delta in reversed(r.ranges):
            if lo <= off < hi:
                if snap == 'zero':
                    v = (self.zero(tag), tag)
                else:
                    v = self.leaf_read(st, rid, off + delta, tag, snap)
                return v
        v = (self.rootval(st, rid, r.root, off, tag, r.ndim), tag)
        if reg is None and rid in st.mem:
            # cache (not a semantic write)
            w = st.wreg(rid)
            w.ov[off] = v
        return v

    def norm(self, st, p):
        """normalise a pointer into vector data"""
        r = st.mem.get(p.rid)
        if r is None:
            raise Unsupported("dangling pointer to " + str(p.rid))
        if r.kind in ('cvec', 'svec') and p.rid != HEAP and r.stride:
            s = r.stride
            if p.off >= s or p.off < 0:
                q, o = divmod(p.off, s)
                i = p.idx[-1]
                return Ptr(p.rid, p.idx[:-1] + (iadd(i, q),), o), r
        return p, r

    def concretize(self, st, t, what="index", limit=24):
        t = simp(t)
        if conc(t):
            return t
        k = t.get_id()
        for kk, (tt, v) in st.eqs.items():
            if tt.eq(t):
                return v
        if os_debug:
            print("concretize", what, t)
        # enumerate feasible values
        vals = []
        s = z3.Solver()
        s.set("timeout", 3000)
        for x, _ in st.pc:
            if not self._hasq_c(x):
                s.add(x)
        while True:
            c = s.check()
            if c == z3.unsat:
                break
            if c != z3.sat or len(vals) >= limit:
                raise Unsupported("cannot enumerate %s: %s" % (what, str(t)[:80]))
            v = s.model().eval(t, True).as_long()
            vals.append(v)
            s.add(t != v)
        if not vals:
            vals = [0]
        raise Fork(t, vals)

    def check_access(self, st, p, r, size):
        """memory safety obligation for vector data accesses"""
        if r.kind in ('cvec', 'svec') and r.len is not None and p.rid != HEAP:
            i = p.idx[-1]
            ln = self.veclen(st, r, p.idx[:-1])
            c = And(cmpi('sge', i, 0), cmpi('slt', i, ln))
            if c is True:
                return
            if self.spec:
                return
            self.oblige(st, "in-bounds access", c, 'memory', self.curwhere())
        elif r.freed:
            self.oblige(st, "no use of released memory", False, 'memory', self.curwhere())
            raise PathDead()
        elif r.kind == 'flat' and r.size is not None:
            if p.off < 0 or p.off + size > r.size:
                self.oblige(st, "in-bounds access", False, 'memory', self.curwhere())

    def curwhere(self):
        return self.where(self.cur) if self.cur else "?"

    def load(self, st, p, ty):
        if isinstance(p, Bits):
            p = p.v
        if not isinstance(p, Ptr):
            raise Unsupported("load through %r" % (p,))
        if p.rid is None:
            self.oblige(st, "null dereference", False, 'memory', self.curwhere())
            raise PathDead()
        if ty.k in ('struct', 'array', 'vector'):
            es = list(zip(ty.elems, ty.offs)) if ty.k == 'struct' else [(ty.elems[0], i * ty.elems[0].size) for i in range(ty.n)]
            return tuple(self.load(st, p.at(o), e) for e, o in es)
        tag = tag_of(ty)
        p, r = self.norm(st, p)
        self.check_access(st, p, r, ty.size)
        return self.loadtag(st, p, r, tag)

    def loadtag(self, st, p, r, tag):
        if p.off is not None and isz(p.off):
            p = Ptr(p.rid, p.idx, self.concretize(st, p.off, "offset"))
        if r.kind == 'cvec':
            i = self.concretize(st, p.idx[0], "vector index")
            v = r.ov.get((i, p.off))
            if v is None:
                v = self.cvec_lazy(st, p.rid, r, i, p.off, tag)
            return self.coerce(st, v, tag)
        if r.ndim == 0:
            v = self.leaf_read(st, p.rid, p.off, tag)
            return self.coerce(st, v, tag)
        leaf, lt = self.leaf_read(st, p.rid, p.off, tag)
        t = leaf
        for i in p.idx:
            t = lit(z3.Select(t, zint(i)))
        if isz(t):
            t = lit(z3.simplify(t)) if any(conc(i) for i in p.idx) else t
        if lt == 'p':
            if conc(t) and t == 0:
                return NULL
            if conc(t) and t in self.addrs_r():
                return self.addrs_r()[t]
            self.heap(st)
            return Ptr(HEAP, (t,), 0)
        return self.coerce(st, (t, lt), tag)

    def addrs_r(self):
        return self._ar if hasattr(self, '_ar') else {}

    def cvec_lazy(self, st, rid, r, i, off, tag):
        if r.root and r.root[0] == 'zero':
            return (self.zero(tag), tag)
        if r.root and r.root[0] in ('sym', 'undef'):
            v = self.rootval(st, rid, (r.root[0], "%s[%d]" % (r.root[1], i)), off, tag, 0)
            w = st.wreg(rid)
            w.ov[(i, off)] = (v, tag)
            return (v, tag)
        raise Unsupported("read of uninitialised vector element")

    def coerce(self, st, leaf, tag):
        v, t = leaf
        if t == tag:
            return v
        if isinstance(v, Bits):
            return v.v if v.tag == tag else v
        if t == 'i8' and tag == 'i1':
            return i2b(v)
        if t == 'i1' and tag == 'i8':
            return b2i(v)
        if t[0] == 'i' and tag[0] == 'i' and t != 'i1' and tag != 'i1':
            bt, bw = int(t[1:]), int(tag[1:])
            if conc(v):
                return wrap(v, bw)
            if bw < bt:
                return self.trunc(st, v, bw)
            raise Unsupported("load of i%d from i%d leaf" % (bw, bt))
        if tagsize(t) == tagsize(tag):
            return Bits(v, t)
        raise Unsupported("load %s from leaf %s" % (tag, t))

    def trunc(self, st, v, bits):
        if conc(v):
            return wrap(v, bits)
        lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        if bits >= 32:
            self.assumed.add("integer truncation to %d bits preserves the value (machine arithmetic treated as mathematical)" % bits)
            return v
        m = 1 << bits
        return z3.If(z3.And(v >= lo, v <= hi), v, (v - lo) % m + lo)

    def store(self, st, p, ty, v):
        if isinstance(p, Bits):
            p = p.v
        if not isinstance(p, Ptr):
            raise Unsupported("store through %r" % (p,))
        if p.rid is None:
            self.oblige(st, "null dereference", False, 'memory', self.curwhere())
            raise PathDead()
        if ty.k in ('struct', 'array', 'vector'):
            es = list(zip(ty.elems, ty.offs)) if ty.k == 'struct' else [(ty.elems[0], i * ty.elems[0].size) for i in range(ty.n)]
            for (e, o), x in zip(es, v):
                self.store(st, p.at(o), e, x)
            return
        tag = tag_of(ty)
        if isinstance(v, Bits):
            v, tag = v.v, v.tag
        p, r = self.norm(st, p)
        self.check_access(st, p, r, ty.size)
        self.storetag(st, p, tag, v)

    def ptrcode(self, st, p):
        """Int code of a pointer stored in a symbolic array"""
        if isinstance(p, Ptr):
            if p.rid is None:
                return z3.IntVal(0)
            if p.rid == HEAP and p.off == 0:
                return zint(p.idx[0])
        raise Unsupported("pointer to a concrete object stored in a symbolic array")

    def storetag(self, st, p, tag, v):
        r = st.wreg(p.rid)
        if isz(p.off):
            p = Ptr(p.rid, p.idx, self.concretize(st, p.off, "offset"))
        if r.kind == 'cvec':
            i = self.concretize(st, p.idx[0], "vector index")
            self.kill(r, (i, p.off), tag)
            r.ov[(i, p.off)] = (v, tag)
            return
        if r.ndim == 0:
            self.kill(r, p.off, tag)
            r.ov[p.off] = (v, tag)
            return
        leaf, lt = self.leaf_read(st, p.rid, p.off, tag)
        r = st.wreg(p.rid)
        if lt == 'p':
            v = self.ptrcode(st, v)
        elif lt != tag:
            if lt in ('i8', 'i1') and tag in ('i1', 'i8'):
                v = b2i(v) if tag == 'i1' else i2b(v)
            else:
                raise Unsupported("store %s over leaf %s" % (tag, lt))
        r.ov[p.off] = (self.nstore(leaf, p.idx, v), lt)

    def nstore(self, arr, idx, v):
        i = zint(idx[0])
        if len(idx) == 1:
            s = arr.sort().range()
            return z3.Store(arr, i, tosort(v, s))
        return z3.Store(arr, i, self.nstore(z3.Select(arr, i), idx[1:], v))

    def kill(self, r, off, tag):
        """remove leaves partially overlapped by a store of another width"""
        key = off
        o = off[1] if isinstance(off, tuple) else off
        n = tagsize(tag)
        if key in r.ov and tagsize(r.ov[key][1]) == n:
            return
        for d in range(-7, n):
            k2 = (off[0], o + d) if isinstance(off, tuple) else o + d
            if d != 0 and k2 in r.ov:
                w = tagsize(r.ov[k2][1])
                if o + d + w > o:
                    del r.ov[k2]

    def memcpy(self, st, dst, src, n, deep=False):
        """copies n bytes (concrete n)"""
        if isz(n):
            n = simp(n)
            if isz(n):
                raise Unsupported("memcpy of symbolic size")
        if n == 0:
            return
        dst, rd = self.norm(st, dst)
        src, rs = self.norm(st, src)
        self.check_access(st, src, rs, 1)
        self.check_access(st, dst, rd, 1)
        items = []
        lazy = None
        if rs.kind == 'cvec':
            i = self.concretize(st, src.idx[0], "vector index")
            for (j, o), v in rs.ov.items():
                b = (j - i) * (rs.stride or 0) + o - src.off
                if 0 <= b < n:
                    items.append((b, v))
            if not items and rs.ety is not None and rs.root:
                for o, tag in flatten(rs.ety):
                    items.append((o - src.off, self.cvec_lazy(st, src.rid, rs, i, o, tag)))
        elif rs.ndim == 0:
            so = src.off
            if isz(so):
                so = self.concretize(st, so, "offset")
            for o, v in rs.ov.items():
                if so <= o < so + n:
                    items.append((o - so, v))
            lazy = (rs, so)
        else:
            offs = set(o for o in rs.ov)
            lay = flatten(rs.ety) if rs.ety is not None else []
            if not lay:
                lay = self.layout_hint(st, rd, n)
            for o, tag in lay:
                if o not in rs.ov and src.off <= o < src.off + n:
                    self.leaf_read(st, src.rid, o, tag)
            rs = st.mem[src.rid]
            for o, (leaf, lt) in rs.ov.items():
                if src.off <= o < src.off + n:
                    t = leaf
                    for i in src.idx:
                        t = lit(z3.simplify(z3.Select(t, zint(i))))
                    if lt == 'p':
                        self.heap(st)
                        t = Ptr(HEAP, (t,), 0) if not (conc(t) and t == 0) else NULL
                    items.append((o - src.off, (t, lt)))
            if not items:
                raise Unsupported("copy from symbolic array with unknown layout")
        if deep:
            items = [(b, self.deepcopy(st, v)) for b, v in items]
        if rd.kind == 'flat':
            w = st.wreg(dst.rid)
            do = dst.off
            if isz(do):
                do = self.concretize(st, do, "offset")
            for o in [o for o in w.ov if do <= o < do + n]:
                del w.ov[o]
            if lazy is not None and (lazy[0].root and lazy[0].root[0] != 'undef' or lazy[0].ranges):
                w.ranges = w.ranges + ((do, do + n, lazy[0].copy(), lazy[1] - do),)
            for b, v in items:
                w.ov[do + b] = v
        else:
            if lazy is not None and rd.ety is not None:
                have = set(b for b, _ in items)
                for o, tag in flatten(rd.ety):
                    b = o - dst.off
                    if 0 <= b < n and b not in have:
                        if lazy[0].root and lazy[0].root[0] == 'undef' and not lazy[0].ranges:
                            continue
                        items.append((b, self.leaf_read(st, src.rid, lazy[1] + b, tag)))
            s = rd.stride or n
            for b, (v, t) in items:
                q, o = divmod(dst.off + b, s)
                p = Ptr(dst.rid, dst.idx[:-1] + (iadd(dst.idx[-1], q),), o)
                if isinstance(v, Ptr) or not isinstance(v, (VecVal, ModelVal)):
                    self.storetag(st, p, t, v)
                elif st.mem[dst.rid].kind == 'cvec':
                    w = st.wreg(dst.rid)
                    w.ov[(self.concretize(st, p.idx[0]), o)] = (v, t)
                else:
                    raise Unsupported("container stored in symbolic array")

    def layout_hint(self, st, rd, n):
        return []

    def deepcopy(self, st, leaf):
        v, t = leaf
        if isinstance(v, VecVal):
            return (self.vec_clone(st, v), t)
        return leaf

    # ------------------------------------------------------------ vectors
    def vec_at(self, st, p, elem=None):
        """VecVal of the std::vector object at p"""
        p, r = self.norm(st, p)
        if r.kind == 'cvec':
            i = self.concretize(st, p.idx[0], "vector index")
            v = r.ov.get((i, p.off))
            if v is None:
                v = (self.rootval(st, p.rid, ('sym', "%s[%d]" % (r.root[1], i)), p.off, 'vec', 0), 'vec')
                st.wreg(p.rid).ov[(i, p.off)] = v
        elif r.ndim == 0:
            off = p.off
            if isz(off):
                off = self.concretize(st, off, "offset")
            v = self.leaf_read(st, p.rid, off, 'vec')
        else:
            raise Unsupported("vector inside symbolic array")
        if not isinstance(v[0], VecVal):
            raise Unsupported("not a vector: %r" % (v,))
        rr = st.mem[v[0].rid]
        if elem is not None and rr.stride is None:
            w = st.wreg(v[0].rid)
            w.stride, w.ety = elem
        return v[0]

    def vec_put(self, st, p, vv):
        p, r = self.norm(st, p)
        if r.kind == 'cvec':
            i = self.concretize(st, p.idx[0], "vector index")
            st.wreg(p.rid).ov[(i, p.off)] = (vv, 'vec')
        elif r.ndim == 0:
            off = p.off
            if isz(off):
                off = self.concretize(st, off, "offset")
            w = st.wreg(p.rid)
            for d in (8, 16):
                w.ov.pop(off + d, None)
            w.ov[off] = (vv, 'vec')
        else:
            raise Unsupported("vector inside symbolic array")

    def vec_new(self, st, name, elem, n=0, root=('undef',)):
        rid = self.new_region(st, 'cvec' if conc(n) else 'svec', name, root, 1)
        r = st.mem[rid]
        r.len = n
        r.stride, r.ety = elem
        return VecVal(rid)

    def vec_clone(self, st, vv):
        r = st.mem[vv.rid].copy()
        rid = "%s#%d" % (r.name.split('#')[0] + "'", next(self.cnt))
        st.mem[rid] = r
        st.owned.add(rid)
        for k, v in list(r.ov.items()):
            if isinstance(v[0], VecVal):
                r.ov[k] = (self.vec_clone(st, v[0]), 'vec')
        return VecVal(rid)

    def veclen(self, st, r, idx=()):
        t = r.len
        return t

    def vlen(self, st, vv):
        return st.mem[vv.rid].len

    def to_svec(self, st, rid, lay=None):
        """turn a concretely indexed vector into a symbolic array vector"""
        r = st.mem[rid]
        if r.kind == 'svec':
            return
        w = st.wreg(rid)
        old = dict(w.ov)
        w.ov = {}
        w.kind = 'svec'
        offs = {}
        for (i, o), (v, t) in old.items():
            if isinstance(v, (VecVal, ModelVal)):
                raise Unsupported("vector of containers made symbolic")
            offs.setdefault(o, t)
        if r.root and r.root[0] == 'zero':
            lay = (lay or (flatten(w.ety) if w.ety else []))
        for o, t in (lay or ()):
            offs.setdefault(o, t)
        for o, t in offs.items():
            s = self.sort('i64' if t in ('p', 'str') else t)
            if r.root and r.root[0] == 'zero':
                z = self.zero(t)
                arr = z3.K(INT, tosort(0 if t == 'p' else z, s))
            else:
                arr = z3.Const("%s[].%d!%d" % (rid, o, next(self.cnt)), z3.ArraySort(INT, s))
            for (i, oo), (v, tt) in sorted(old.items()):
                if oo == o:
                    arr = z3.Store(arr, i, tosort(self.ptrcode(st, v) if t == 'p' else v, s))
            w.ov[o] = (arr, t)
        if r.root and r.root[0] == 'zero':
            w.root = ('undef', rid + "z")

    def elem(self, targ):
        """(size, Ty) of a vector element type from the IR"""
        targ = targ.strip()
        r = self.vecty.get(targ)
        if r is not None:
            return r
        pre = ("std::vector<%s, " % targ, "std::_Vector_base<%s, " % targ)
        alt = ("__gnu_cxx::__normal_iterator<%s*," % targ, "__gnu_cxx::__normal_iterator<%s const*," % targ)
        scal = {'double': 8, 'int': 4, 'unsigned long': 8, 'unsigned int': 4, 'char': 1, 'long': 8, 'float': 4, 'bool': 1}
        res = None
        if targ == 'bool':
            pre = alt = ()
        for group in (pre, alt):
            for n, fn in self.m.funcs.items():
                if not fn.defined:
                    continue
                d = fn.dem
                if not any(d.startswith(q) for q in group):
                    continue
                f = self.m.func(n)
                for b in f.blocks:
                    for i in b.ins:
                        if i.op == 'gep' and len(i.ops) == 2 and not (i.x.k == 'int' and i.x.bits == 8 and targ != 'char'):
                            if i.x.name and (i.x.name.startswith(('class.std::vector', 'struct.std::_Vector', 'class.__gnu_cxx')) and not targ.startswith('std::vector')):
                                continue
                            res = (i.x.size, i.x)
                            break
                    if res:
                        break
                if res:
                    break
            if res:
                break
        if res is None:
            if targ in scal:
                res = (scal[targ], None)
            elif targ.endswith('*') or targ.endswith('* const'):
                res = (8, None)
            else:
                raise Unsupported("element layout of vector<%s>" % targ)
        self.vecty[targ] = res
        return res

    # ------------------------------------------------------------ values
    def value(self, st, env, o):
        k = o.k
        if k == 'local':
            return env[o.v]
        if k == 'int':
            return o.v
        if k == 'fp':
            return self.dom.const(o.v)
        if k == 'null':
            return NULL
        if k == 'func':
            return FnPtr(o.v)
        if k == 'global':
            return self.glob(st, o.v)
        if k == 'undef':
            if o.ty.k in ('struct', 'array', 'vector'):
                n = len(o.ty.elems) if o.ty.k == 'struct' else o.ty.n
                return (None,) * n
            if o.ty.k == 'ptr':
                return NULL
            return self.fresh('undef', tag_of(o.ty))
        if k == 'zero':
            return self.zeroagg(o.ty)
        if k == 'agg':
            return tuple(self.value(st, env, x) for x in o.ops)
        if k == 'cexpr':
            if o.v == 'gep':
                base = self.value(st, env, o.ops[0])
                ty = o.ops[-1]
                idx = [x.v for x in o.ops[1:-1]]
                off = idx[0] * ty.size
                t = ty
                for i in idx[1:]:
                    if t.k == 'struct':
                        off += t.offs[i]
                        t = t.elems[i]
                    else:
                        t = t.elems[0]
                        off += i * t.size
                return base.at(off)
            if o.v == 'ptrtoint':
                return PtrInt(self.value(st, env, o.ops[0]))
            if o.v in ('bitcast', 'inttoptr'):
                v = self.value(st, env, o.ops[0])
                return v.p if isinstance(v, PtrInt) else v
        raise Unsupported("operand %s %s" % (k, o.v))

    def zeroagg(self, ty):
        if ty.k == 'struct':
            return tuple(self.zeroagg(e) for e in ty.elems)
        if ty.k in ('array', 'vector'):
            return tuple(self.zeroagg(ty.elems[0]) for _ in range(ty.n))
        return self.zero(tag_of(ty))

    # ------------------------------------------------------------ functions
    def call(self, st, name, args, ins=None):
        """list of Outcomes"""
        name = self.m.aliases.get(name, name)
        fn = self.m.funcs.get(name)
        dem = self.m.dem.get(name, name)
        stub = self.active_stubs.get(dem)
        if stub is not None and not self.spec:
            self.inv_used[dem] = self.inv_used.get(dem, 0) + 1
            name = stub
            n = len(st.nd)
            outs = self.inline(st, name, args)
            for o in outs:
                del o.st.nd[n:]     # a contract's havoc is not an input of the driver
            return outs
        else:
            r = self.model(st, name, dem, args, ins, fn)
            if r is not None:
                return r
        if fn is None or not fn.defined:
            raise Unsupported("call to external function " + dem)
        return self.inline(st, name, args)

    def inline(self, st, name, args, top=False):
        fn = self.m.func(name)
        if self.depth > 60:
            raise Unsupported("recursion too deep in " + fn.dem)
        self.executed[name] = self.executed.get(name, 0) + 1
        env = {}
        for (i, ty, nm), a in zip(fn.params, args):
            env[i] = a
        base = len(st.pc)
        before = set(st.mem)
        self.depth += 1
        savecur = self.cur
        frame = []
        try:
            outs = self.run(fn, [(st, env, 0, None)], None, frame)
        finally:
            self.depth -= 1
            self.cur = savecur
        res = outs.rets
        if not top:
            for o in res:
                for rid in frame:
                    o.st.mem.pop(rid, None)
            if len(res) > 1 and not self.split_fn(fn):
                res = self.merge(res, base, fn)
        return res

    def split_fn(self, fn):
        """driver option split=<substring>: keep the paths through these functions apart"""
        x = self.opts.get('split')
        return x and not self.spec and x in fn.dem

    def merge(self, outs, base, fn=None):
        """merge the normal outcomes of a call into one state where values allow it"""
        norm = [o for o in outs if o.exc is None]
        exc = [o for o in outs if o.exc is not None]
        if len(norm) < 2:
            return outs
        # group greedily
        groups = []
        for o in norm:
            for g in groups:
                m = self.merge2(g[0], o, base, g[1])
                if m is not None:
                    g[0] = m
                    break
            else:
                groups.append([o, None])
        return [g[0] for g in groups] + exc

    def branch_cond(self, st, base):
        bs, fs = [], []
        for t, k in st.pc[base:]:
            if k == 'b':
                bs.append(t)
            else:
                fs.append(Implies(And(*bs), t) if bs else t)
        return And(*bs), fs

    def merge2(self, a, b, base, _):
        if a.st.inv is not b.st.inv:
            return None
        if len(a.st.nd) != len(b.st.nd):
            return None
        ca, fa = self.branch_cond(a.st, base)
        cb, fb = self.branch_cond(b.st, base)
        if ca is True or cb is True:
            return None
        c = ca

        def mv(x, y):
            if x is None and y is None:
                return (None,)
            if x is None:
                return (y,)
            if y is None:
                return (x,)
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                l = []
                for p, q in zip(x, y):
                    r = mv(p, q)
                    if r is None:
                        return None
                    l.append(r[0])
                return (tuple(l),)
            ok = (bool, int, Fraction)
            if (isz(x) or isinstance(x, ok)) and (isz(y) or isinstance(y, ok)):
                if same(x, y):
                    return (x,)
                return (ite(c, x, y),)
            if isinstance(x, Bits) and isinstance(y, Bits) and x.tag == y.tag:
                r = mv(x.v, y.v)
                return (Bits(r[0], x.tag),) if r else None
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x == y:
                    return (x,)
                if x.rid == y.rid and x.rid is not None and x.off == y.off and len(x.idx) == len(y.idx):
                    return (Ptr(x.rid, tuple(ite(c, i, j) for i, j in zip(x.idx, y.idx)), x.off),)
                if x.rid == HEAP and y.rid is None and x.off == 0:
                    return (Ptr(HEAP, (ite(c, x.idx[0], 0),), 0),)
                if y.rid == HEAP and x.rid is None and y.off == 0:
                    return (Ptr(HEAP, (ite(c, 0, y.idx[0]),), 0),)
                return None
            if type(x) == type(y) and x == y:
                return (x,)
            return None
        if isinstance(a.ret, int) and isinstance(b.ret, int) and not isinstance(a.ret, bool) and not isinstance(b.ret, bool) \
                and a.ret != b.ret and not self.spec:
            return None
        r = mv(a.ret, b.ret)
        if r is None:
            return None
        ma, mb = a.st.mem, b.st.mem
        changes = {}
        for rid in set(ma) | set(mb):
            x, y = ma.get(rid), mb.get(rid)
            if x is y:
                continue
            if x is None or y is None:
                changes[rid] = x or y
                continue
            if x.kind != y.kind or x.root != y.root or x.ranges != y.ranges or x.stride != y.stride:
                return None
            n = x.copy()
            if not same(x.len, y.len) and x.len is not None:
                if x.kind == 'cvec':
                    return None
                n.len = ite(c, x.len, y.len)
            for k in set(x.ov) | set(y.ov):
                u, v = x.ov.get(k), y.ov.get(k)
                if u is None or v is None:
                    if x.kind == 'cvec' or (x.root and x.root[0] == 'undef'):
                        n.ov[k] = u or v
                        continue
                    try:
                        if u is None:
                            u = self.leaf_read(a.st, rid, k, v[1], x)
                        else:
                            v = self.leaf_read(b.st, rid, k, u[1], y)
                    except Unsupported:
                        return None
                if u is v:
                    continue
                if u[1] != v[1]:
                    if u[1] in ('i8', 'i1') and v[1] in ('i8', 'i1'):
                        u, v = (b2i(u[0]) if u[1] == 'i1' else u[0], 'i8'), (b2i(v[0]) if v[1] == 'i1' else v[0], 'i8')
                    else:
                        return None
                w = mv(u[0], v[0])
                if w is None:
                    return None
                n.ov[k] = (w[0], u[1])
            changes[rid] = n
        s = State()
        s.pc = list(a.st.pc[:base])
        for f in fa + fb:
            s.add(f)
        orc = simp(Or(ca, cb))
        if orc is not True:
            if z3.is_or(orc) and False:
                pass
            s.pc.append((zbool(orc), 'b'))
        s.mem = dict(ma)
        s.mem.update(changes)
        s.nd = a.st.nd
        if not all(p is q or p == q for p, q in zip(a.st.nd, b.st.nd)):
            return None
        s.inv = a.st.inv
        s.eqs = {k: v for k, v in a.st.eqs.items() if k in b.st.eqs and b.st.eqs[k][1] == v[1]}
        return Outcome(s, r[0])

    # ------------------------------------------------------------ blocks
    class Res:
        def __init__(self):
            self.rets, self.exits, self.backs = [], [], []

    def run(self, fn, items, loop, frame, inv=False):
        """execute paths; loop: header whose body bounds this run (None: whole function)"""
        res = Engine.Res()
        body = fn.loops[loop] if loop is not None else None
        work = [(st, env, b, prev, 0) for st, env, b, prev in items]
        first = loop is not None
        while work:
            st, env, b, prev, iters = work.pop()
            # transition checks
            while True:
                if body is not None and not first:
                    if b not in body:
                        res.exits.append((st, env, b, prev))
                        break
                    if b == loop:
                        if inv:
                            res.backs.append((st, env, prev))
                            break
                        iters += 1
                        left = len(res.exits) + len(res.rets) + len(work)
                        if iters > self.opts.get('unroll', 40) or (iters > 8 and left >= iters - 3):
                            self.force_inv = self.force_inv | {(fn.name, loop)}
                            raise NeedInvariant(loop, fn)
                elif body is not None and first and b != loop:
                    raise AssertionError
                if b in fn.loops and b != loop:
                    # entering a nested loop
                    ex, rt = self.run_loop(fn, b, st, env, prev, frame)
                    res.rets += rt
                    for (s2, e2, b2, p2) in ex:
                        work.append((s2, e2, b2, p2, iters))
                    break
                first = False
                nxt = self.block(fn, st, env, b, prev, res, frame, loop, inv)
                if not nxt:
                    break
                if len(nxt) > 1:
                    for (s2, e2, b2) in nxt[1:]:
                        work.append((s2, e2, b2, b, iters))
                st, env, b2 = nxt[0]
                prev, b = b, b2
            if len(work) > 3000:
                raise Unsupported("path explosion in " + fn.dem)
        return res

    def counted(self, fn, h):
        """a header variable is compared with a small constant: the loop may be unrolled to its end although other exits are symbolic"""
        c = fn.__dict__.setdefault('_counted', {})
        if h not in c:
            ph = set(i.id for i in fn.blocks[h].ins if i.op == 'phi')
            c[h] = any(i.op == 'icmp' and any(a.k == 'int' and 1 < a.v <= 16 and o.k == 'local' and o.v in ph for a, o in (i.ops, i.ops[::-1]))
                       for b in fn.loops[h] for i in fn.blocks[b].ins)
        return c[h]

    def run_loop(self, fn, h, st, env, prev, frame):
        key = (fn.name, h)
        mark = len(self.obligs)
        if key not in self.force_inv:
            nfr = len(frame)
            try:
                r = self.run(fn, [(st.fork(), dict(env), h, prev)], h, frame)
                return r.exits, r.rets
            except NeedInvariant as e:
                if e.h != h or e.fn is not fn:
                    raise
                del self.obligs[mark:]
        import loops
        return loops.invariant_loop(self, fn, h, st, env, prev, frame)

    def phis(self, fn, st, env, b, prev):
        blk = fn.blocks[b]
        vals = []
        for i in blk.ins:
            if i.op != 'phi':
                break
            vals.append((i.id, self.value(st, env, i.x[prev])))
        for k, v in vals:
            env[k] = v
        return len(vals)

    def block(self, fn, st, env, b, prev, res, frame, loop, inv):
        """executes one block; returns [(state, env, next block)]"""
        blk = fn.blocks[b]
        n = 0
        if prev is not None and not env.get(('phidone', b)):
            n = self.phis(fn, st, env, b, prev)
        else:
            while blk.ins[n].op == 'phi':
                n += 1
            env.pop(('phidone', b), None)
        paths = [(st, env, n)]
        out = []
        while paths:
            st, env, i = paths.pop()
            dead = False
            while True:
                ins = blk.ins[i]
                self.steps += 1
                if self.steps > self.budget:
                    raise Unsupported("step budget exhausted")
                self.cur = ins
                op = ins.op
                try:
                    if op == 'br':
                        if not ins.ops:
                            out.append((st, env, ins.x[0]))
                            break
                        c = i2b(self.value(st, env, ins.ops[0]))
                        t, f = ins.x[0], ins.x[1]
                        if t == f:
                            out.append((st, env, t))
                            break
                        c = simp(c)
                        if conc(c):
                            out.append((st, env, t if c else f))
                            break
                        ct = self.feasible(st.pc, c)
                        cf = self.feasible(st.pc, Not(c))
                        if not ct and not cf:
                            break
                        if ct and not cf:
                            out.append((st, env, t))
                            break
                        if cf and not ct:
                            out.append((st, env, f))
                            break
                        L = fn.inloop[b]
                        if L is not None and not (inv and L == loop):
                            bodyL = fn.loops[L]
                            if (t in bodyL) != (f in bodyL) and (b == L or L in blk.succ) and not self.counted(fn, L):
                                raise NeedInvariant(L, fn)
                        s2 = st.fork()
                        s2.add(Not(c), 'b')
                        st.add(c, 'b')
                        out.append((s2, dict(env), f))
                        out.append((st, env, t))
                        break
                    elif op == 'switch':
                        v = simp(self.value(st, env, ins.ops[0]))
                        if conc(v):
                            d = ins.x[0]
                            for cv, cb in ins.x[1]:
                                if cv == v:
                                    d = cb
                            out.append((st, env, d))
                            break
                        rest = []
                        for cv, cb in ins.x[1]:
                            cc = zint(v) == cv
                            if self.feasible(st.pc, cc):
                                s2 = st.fork()
                                s2.add(cc, 'b')
                                s2.eqs[v.get_id()] = (v, cv)
                                out.append((s2, dict(env), cb))
                            rest.append(Not(cc))
                        rc = And(*rest)
                        if self.feasible(st.pc, rc):
                            st.add(rc, 'b')
                            out.append((st, env, ins.x[0]))
                        break
                    elif op == 'ret':
                        v = self.value(st, env, ins.ops[0]) if ins.ops else None
                        res.rets.append(Outcome(st, v))
                        break
                    elif op == 'unreachable':
                        break
                    elif op == 'resume':
                        v = self.value(st, env, ins.ops[0])
                        res.rets.append(Outcome(st, None, env.get('exc') or ('unknown', v)))
                        break
                    elif op in ('call', 'invoke'):
                        outs = self.do_call(fn, st, env, ins)
                        k = 0
                        nx = []
                        for o in outs:
                            e2 = env if len(outs) == 1 else dict(env)
                            if o.exc is not None:
                                if op == 'invoke':
                                    e2['exc'] = o.exc
                                    nx.append((o.st, e2, ins.x[2]))
                                else:
                                    res.rets.append(Outcome(o.st, None, o.exc))
                                continue
                            e2[ins.id] = o.ret
                            if op == 'invoke':
                                nx.append((o.st, e2, ins.x[1]))
                            else:
                                paths.append((o.st, e2, i + 1))
                        out.extend(nx)
                        break
                    else:
                        env[ins.id] = self.instr(fn, st, env, ins, frame)
                        i += 1
                        continue
                except Fork as f:
                    vals = [v for v in f.values]
                    for v in vals:
                        s2 = st.fork()
                        s2.add(f.term == v, 'b')
                        s2.eqs[f.term.get_id()] = (f.term, v)
                        paths.append((s2, dict(env), i))
                    break
                except ForkCond as f:
                    c = f.cond
                    for cc in (c, Not(c)):
                        if self.feasible(st.pc, cc):
                            s2 = st.fork()
                            s2.add(cc, 'b')
                            s2.eqs[c.get_id()] = (c, cc is c)
                            paths.append((s2, dict(env), i))
                    break
                except PathDead:
                    break
                except Unsupported as u:
                    if not getattr(u, 'tagged', False):
                        u.tagged = True
                        u.args = ("%s [at %s in %s]" % (u.args[0], self.where(ins), fn.dem[:90]),)
                    raise
        return out

    def decide(self, st, c):
        """boolean under the path condition, forking if open"""
        c = simp(c)
        if conc(c):
            return c
        for kk, (tt, v) in st.eqs.items():
            if tt.eq(c):
                return v
        t, f = self.feasible(st.pc, c), self.feasible(st.pc, Not(c))
        if t and not f:
            return True
        if f and not t:
            return False
        raise ForkCond(c)

    def do_call(self, fn, st, env, ins):
        cal = ins.x[0]
        if cal.k == 'func':
            name = cal.v
        else:
            f = self.value(st, env, cal)
            if not isinstance(f, FnPtr):
                return self.symcall(st, f, [self.value(st, env, a) for a in ins.ops], ins)
            name = f.name
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.experimental.noalias'):
            return [Outcome(st)]
        args = [self.value(st, env, a) if a.k != 'meta' else None for a in ins.ops]
        # a model may fork after partial effects: give it a private state
        s2 = st.fork()
        self.cur = ins
        return self.call(s2, name, args, ins)

    def symcall(self, st, f, args, ins):
        raise Unsupported("indirect call through %r" % (f,))

    def gep(self, st, base, ty, idx):
        if isinstance(base, Bits):
            base = base.v
        if not isinstance(base, Ptr):
            raise Unsupported("gep on %r" % (base,))
        off = 0
        t = ty
        first = True
        rest = []
        for k, i in enumerate(idx):
            if k == 0:
                sz = ty.size
            elif t.k == 'struct':
                off += t.offs[i]
                t = t.elems[i]
                continue
            else:
                t = t.elems[0]
                sz = t.size
            if isz(i):
                rest.append((i, sz))
            else:
                off += i * sz
        p = base
        if p.rid is None:
            if off == 0 and not rest:
                return p
            return Ptr(None, (), p.off + off)
        r = st.mem.get(p.rid)
        vecp = r is not None and r.kind in ('svec', 'cvec') and p.rid != HEAP
        if vecp and r.stride is None and len(idx) == 1 and ty.size:
            w = st.wreg(p.rid)
            w.stride = ty.size
            r = w
        for i, sz in rest:
            if vecp and r.stride and sz % r.stride == 0:
                m = sz // r.stride
                p = Ptr(p.rid, p.idx[:-1] + (iadd(p.idx[-1], imul(i, m)),), p.off)
            else:
                v = self.concretize(st, i, "pointer offset")
                off += v * sz
        if vecp and r.stride and len(idx) >= 1 and not rest and isinstance(idx[0], int) and idx[0] and ty.size % r.stride == 0:
            m = idx[0] * (ty.size // r.stride)
            p = Ptr(p.rid, p.idx[:-1] + (iadd(p.idx[-1], m),), p.off)
            off -= idx[0] * ty.size
        return p.at(off)

    def instr(self, fn, st, env, ins, frame):
        op = ins.op
        V = lambda j: self.value(st, env, ins.ops[j])
        if op == 'alloca':
            n = V(0)
            if conc(n) and n != 1:
                raise Unsupported("array alloca")
            rid = self.new_region(st, 'flat', ins.name or 'tmp', ('undef',), 0, ins.x.size)
            frame.append(rid)
            return Ptr(rid)
        if op == 'load':
            return self.load(st, V(0), ins.ty)
        if op == 'store':
            v = V(0)
            self.store(st, V(1), ins.ops[0].ty, v)
            return None
        if op == 'fence':
            return None
        if op == 'atomicrmw' and ins.x:      # single thread
            p, b = V(0), V(1)
            a = self.load(st, p, ins.ty)
            self.store(st, p, ins.ty, b if ins.x == 'xchg' else self.ibin(st, ins.x, a, b, ins.ty.bits))
            return a
        if op == 'gep':
            return self.gep(st, V(0), ins.x, [V(j) for j in range(1, len(ins.ops))])
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return self.ibin(st, op, V(0), V(1), ins.ty.bits)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = V(0), V(1)
            if isinstance(a, tuple):
                return tuple(self.fbin(st, op, x, y) for x, y in zip(a, b))
            return self.fbin(st, op, a, b)
        if op == 'fneg':
            v = V(0)
            return tuple(self.dom.neg(x) for x in v) if isinstance(v, tuple) else self.dom.neg(v)
        if op == 'icmp':
            return self.icmp(st, ins.x, V(0), V(1), ins.ops[0].ty)
        if op == 'fcmp':
            return self.dom.cmp(ins.x, V(0), V(1))
        if op == 'select':
            c = simp(i2b(V(0)))
            a, b = V(1), V(2)
            if conc(c):
                return a if c else b
            sc = (bool, int, Fraction)
            if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and self.opts.get('split') and self.split_fn(fn):
                return a if self.decide(st, c) else b
            if (isz(a) or isinstance(a, sc)) and (isz(b) or isinstance(b, sc)):
                return ite(c, a, b)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a == b:
                return a
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid and a.rid is not None and a.off == b.off and len(a.idx) == len(b.idx):
                return Ptr(a.rid, tuple(ite(c, x, y) for x, y in zip(a.idx, b.idx)), a.off)
            return a if self.decide(st, c) else b
        if op == 'zext':
            v = V(0)
            fb, tb = ins.ops[0].ty.bits, ins.ty.bits
            if fb == 1:
                return b2i(v)
            if conc(v):
                return v & ((1 << fb) - 1)
            if isinstance(v, Bits):
                raise Unsupported("zext of reinterpreted bits")
            if z3.is_app_of(v, z3.Z3_OP_ITE) and i2bool_like(v):
                return v
            if not self.feasible(st.pc, v < 0):
                return v
            return z3.If(v >= 0, v, v + (1 << fb))
        if op == 'sext':
            v = V(0)
            if ins.ops[0].ty.bits == 1:
                v = simp(v)
                return ite(v, -1, 0)
            return v
        if op == 'trunc':
            v = V(0)
            if isinstance(v, PtrInt):
                raise Unsupported("truncated pointer")
            if ins.ty.bits == 1:
                return i2b(v)
            return self.trunc(st, v, ins.ty.bits)
        if op in ('fpext', 'fptrunc'):
            return V(0)
        if op in ('sitofp', 'uitofp'):
            v = V(0)
            if ins.ops[0].ty.bits == 1:
                return ite(v, self.dom.const(-1.0 if op == 'sitofp' else 1.0), self.dom.const(0.0))
            if op == 'uitofp' and conc(v):
                v &= (1 << ins.ops[0].ty.bits) - 1
            return self.dom.from_int(v)
        if op in ('fptosi', 'fptoui'):
            return self.to_int(st, V(0))
        if op == 'ptrtoint':
            return PtrInt(V(0))
        if op == 'inttoptr':
            v = V(0)
            if isinstance(v, PtrInt):
                return v.p
            if isinstance(v, Bits) and v.tag == 'p':
                return v.v
            if conc(v) and v == 0:
                return NULL
            raise Unsupported("inttoptr")
        if op == 'bitcast':
            v = V(0)
            t = tag_of(ins.ty)
            f = tag_of(ins.ops[0].ty)
            if isinstance(v, Bits):
                return v.v if v.tag == t else v
            return v if t == f else Bits(v, f)
        if op == 'freeze':
            return V(0)
        if op == 'extractvalue':
            v = V(0)
            for i in ins.x:
                v = v[i]
            return v
        if op == 'insertvalue':
            return self.insertv(V(0), V(1), ins.x)
        if op == 'extractelement':
            return V(0)[self.concretize(st, V(1))]
        if op == 'insertelement':
            l = list(V(0))
            l[self.concretize(st, V(2))] = V(1)
            return tuple(l)
        if op == 'landingpad':
            return self.landing(st, env, ins)
        raise Unsupported("instruction " + op)

    def insertv(self, agg, v, idx):
        l = list(agg)
        if len(idx) == 1:
            l[idx[0]] = v
        else:
            l[idx[0]] = self.insertv(l[idx[0]], v, idx[1:])
        return tuple(l)

    def fbin(self, st, op, a, b):
        if op == 'fdiv':
            if self.mode == 'real':
                z = self.dom.cmp('oeq', b, Fraction(0))
                z = simp(z)
                if conc(z):
                    if z:
                        if conc(a) and a != 0:
                            return self.dom.INFP if a > 0 else -self.dom.INFP
                        return self.fresh('divzero', 'd')
                else:
                    self.assumed.add("division by zero yields an unconstrained value in real-arithmetic mode")
        r = self.dom.bin(op, a, b)
        if r is None:
            if op == 'frem':
                f = self.uf('fmod', self.dom.sort, self.dom.sort, self.dom.sort)
                return f(self.dom.z(a), self.dom.z(b))
            raise Unsupported(op)
        return r

    def ibin(self, st, op, a, b, bits):
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                return self.ptrdiff(st, a.p, b.p)
            if op == 'and' and conc(b):
                return 0     # alignment tests
            raise Unsupported("pointer arithmetic " + op)
        if isinstance(a, Bits) or isinstance(b, Bits):
            raise Unsupported("integer arithmetic on reinterpreted bits")
        if bits == 1:
            a, b = i2b(a), i2b(b)
            if op == 'and':
                return simp(And(a, b))
            if op == 'or':
                return simp(Or(a, b))
            if op in ('xor', 'add', 'sub'):
                if conc(a) and conc(b):
                    return a != b
                if conc(b):
                    return Not(a) if b else a
                if conc(a):
                    return Not(b) if a else b
                return z3.Xor(a, b)
            raise Unsupported("i1 " + op)
        if conc(a) and conc(b):
            m = (1 << bits) - 1
            if op == 'add':
                r = a + b
            elif op == 'sub':
                r = a - b
            elif op == 'mul':
                r = a * b
            elif op == 'and':
                r = a & b
            elif op == 'or':
                r = a | b
            elif op == 'xor':
                r = a ^ b
            elif op in ('shl', 'lshr', 'ashr') and not 0 <= (b & m) < bits:
                raise Unsupported("shift by %d of %d bits" % (b, bits))
            elif op == 'shl':
                r = a << b
            elif op == 'lshr':
                r = (a & m) >> b
            elif op == 'ashr':
                r = a >> b
            elif op in ('sdiv', 'srem'):
                if b == 0:
                    raise Unsupported("division by zero")
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                r = q if op == 'sdiv' else a - q * b
            else:
                ua, ub = a & m, b & m
                if ub == 0:
                    raise Unsupported("division by zero")
                r = ua // ub if op == 'udiv' else ua % ub
            return wrap(r, bits)
        if op == 'add':
            return iadd(a, b)
        if op == 'sub':
            return isub(a, b)
        if op == 'mul':
            return imul(a, b)
        self.assumed.add("machine integers treated as mathematical integers (no overflow)")
        if op in ('sdiv', 'udiv') and conc(b) and b > 0:
            d = self.divexact(a, b)
            if d is not None:
                return d
        if op in ('sdiv', 'srem'):
            za, zb = zint(a), zint(b)
            if conc(b) and b > 0:
                q = z3.If(za >= 0, za / zb, -((-za) / zb))
            else:
                q = z3.If(za >= 0, z3.If(zb > 0, za / zb, -(za / -zb)), z3.If(zb > 0, -((-za) / zb), (-za) / (-zb)))
            return simp(q if op == 'sdiv' else za - q * zb)
        if op in ('udiv', 'urem'):
            za, zb = zint(a), zint(b)
            if (isz(a) and self.feasible(st.pc, za < 0)) or (isz(b) and self.feasible(st.pc, zb <= 0)):
                raise Unsupported("unsigned division of possibly large value")
            return simp(za / zb if op == 'udiv' else za % zb)
        if op == 'shl' and conc(b):
            return imul(a, 1 << b)
        if op == 'and':
            for p, q in ((a, b), (b, a)):
                if conc(q):
                    if q == 1:
                        return zint(p) % 2
                    if q == -1:
                        return p
                    if q == 0:
                        return 0
            r = boolish(a)
            s = boolish(b)
            if r is not None and s is not None:
                return b2i(And(r, s))
        if op in ('or', 'xor'):
            if conc(b) and b == 0:
                return a
            r, s = boolish(a), boolish(b)
            if r is not None and s is not None:
                return b2i(Or(r, s) if op == 'or' else z3.Xor(zbool(r), zbool(s)))
            if op == 'xor' and conc(b) and b == -1:
                return isub(-1, a)
        if op == 'ashr' and conc(b) or op == 'lshr' and conc(b) and not self.feasible(st.pc, zint(a) < 0):
            return zint(a) / (1 << b)
        return self.bvop(op, a, b, bits)

    def bvop(self, op, a, b, bits):
        f = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y,
             'shl': lambda x, y: x << y, 'ashr': lambda x, y: x >> y, 'lshr': z3.LShR}[op]
        return z3.BV2Int(f(z3.Int2BV(zint(a), bits), z3.Int2BV(zint(b), bits)), True)

    def to_int(self, st, v):
        """conversion to an integer truncates toward zero"""
        if self.mode != 'real' or conc(v):
            return self.dom.to_int(v)
        import stl
        return lit(z3.simplify(z3.If(v >= 0, zint(stl.int_floor(self, st, v)), -zint(stl.int_floor(self, st, -v)))))

    def divexact(self, a, c):
        """a / c when a is syntactically a multiple of c"""
        if not isz(a):
            return None
        a = z3.simplify(a)
        if z3.is_mul(a) and z3.is_int_value(a.arg(0)) and a.arg(0).as_long() % c == 0:
            k = a.arg(0).as_long() // c
            rest = a.arg(1) if a.num_args() == 2 else z3.Product(*[a.arg(i) for i in range(1, a.num_args())])
            return lit(z3.simplify(rest * k))
        if z3.is_add(a):
            l = []
            for x in a.children():
                if z3.is_int_value(x):
                    if x.as_long() % c:
                        return None
                    l.append(z3.IntVal(x.as_long() // c))
                else:
                    y = self.divexact(x, c)
                    if y is None:
                        return None
                    l.append(zint(y))
            return lit(z3.simplify(z3.Sum(*l)))
        if c == 1:
            return a
        return None

    def ptrdiff(self, st, a, b):
        if a.rid is None and b.rid is None:
            return a.off - b.off
        if a.rid != b.rid:
            raise Unsupported("difference of pointers into different objects")
        d = isub(a.off, b.off)
        if a.idx:
            r = st.mem[a.rid]
            for x, y in zip(a.idx[:-1], b.idx[:-1]):
                if not same(x, y):
                    raise Unsupported("pointer difference")
            if r.stride is None:
                if same(a.idx[-1], b.idx[-1]):
                    return d
                raise Unsupported("pointer difference without stride")
            d = iadd(d, imul(isub(a.idx[-1], b.idx[-1]), r.stride))
        return simp(d)

    def icmp(self, st, p, a, b, ty):
        if isinstance(a, Bits):
            a = a.v
        if isinstance(b, Bits):
            b = b.v
        if isinstance(a, PtrInt):
            a = a.p
        if isinstance(b, PtrInt):
            b = b.p
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            e = a == b
            return e if p == 'eq' else not e
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                a = NULL
            if not isinstance(b, Ptr):
                b = NULL
            if p in ('eq', 'ne'):
                e = self.ptreq(st, a, b)
                return e if p == 'eq' else Not(e)
            if a.rid == b.rid:
                d = self.ptrdiff(st, a, b)
                return cmpi('s' + p[1:], d, 0)
            raise Unsupported("ordering of unrelated pointers")
        if ty.k == 'int' and ty.bits == 1:
            a, b = i2b(a), i2b(b)
            if p in ('eq', 'ne'):
                if conc(a) and conc(b):
                    e = a == b
                elif conc(a):
                    e = b if a else Not(b)
                elif conc(b):
                    e = a if b else Not(a)
                else:
                    e = a == b
                return e if p == 'eq' else Not(e)
            a, b = b2i(a), b2i(b)
        if p in ('eq', 'ne'):
            # (ite c 1 0) != 0
            for x, y in ((a, b), (b, a)):
                if conc(y) and y == 0 and isz(x):
                    q = boolish(x)
                    if q is not None:
                        return q if p == 'ne' else Not(q)
        return cmpi(p, a, b, ty.bits)

    def ptreq(self, st, a, b):
        if a.rid is None and b.rid is None:
            return a.off == b.off
        if a.rid is None or b.rid is None:
            q = b if a.rid is None else a
            if q.rid == HEAP:
                if q.off != 0:
                    return False
                c = q.idx[0]
                return c == 0
            return False
        if a.rid != b.rid:
            return False
        if a.idx and a.off != b.off:
            r = st.mem.get(a.rid)
            if r is not None and r.stride:
                a, _ = self.norm(st, a)
                b, _ = self.norm(st, b)
        if isz(a.off) or isz(b.off):
            return And(simp(zint(a.off) == zint(b.off)))
        if a.off != b.off:
            return False
        return And(*[simp(zint(x) == zint(y)) for x, y in zip(a.idx, b.idx)])

    # ------------------------------------------------------------ exceptions
    def bases(self, ti):
        """type_info names of a class and all its bases"""
        out = [ti]
        std = {'_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt13runtime_error': ['_ZTISt9exception'],
               '_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt12length_error': ['_ZTISt11logic_error'],
               '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt9bad_alloc': ['_ZTISt9exception'],
               '_ZTISt8bad_cast': ['_ZTISt9exception'], '_ZTISt12bad_weak_ptr': ['_ZTISt9exception']}
        if ti in std:
            for b in std[ti]:
                out += self.bases(b)
            return out
        i, _, _ = self.m.ginit(ti)
        if i is not None and i.k == 'agg':
            for o in i.ops[2:]:
                if o.k == 'global':
                    out += self.bases(o.v)
        return out

    def tyid(self, name):
        return 1000 + self.tyids.setdefault(name, len(self.tyids)) if name else 1

    def landing(self, st, env, ins):
        exc = env.get('exc')
        cleanup, ncl = ins.x
        sel = 0
        if exc is not None:
            mine = self.bases(exc[0]) if exc[0] else []
            for c in ins.ops:
                if c.k == 'null':
                    sel = 1
                    break
                if c.k == 'global' and c.v in mine:
                    sel = self.tyid(c.v)
                    break
            if exc[0] == 'any' and ncl:
                raise Unsupported("typed catch of an unknown exception")
        env['exc'] = exc
        return (exc[1] if exc else NULL, sel)

    cur = None
    force_inv = frozenset()

    # ------------------------------------------------------------ call models
    def model(self, st, name, dem, args, ins, fn):
        import stl
        return stl.model(self, st, name, dem, args, ins, fn)


class PathDead(Exception):
    pass


os_debug = False


def boolish(v):
    """boolean b such that v == (b ? 1 : 0), or None"""
    if conc(v):
        return bool(v) if v in (0, 1) else None
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        a, b = boolish(lit(v.arg(1))), boolish(lit(v.arg(2)))
        if a is None or b is None:
            return None
        return ite(v.arg(0), a, b)
    return None


def i2bool_like(v):
    return boolish(v) is not None


def iadd(a, b):
    if conc(a) and conc(b):
        return a + b
    if conc(a) and a == 0:
        return b
    if conc(b) and b == 0:
        return a
    return lit(z3.simplify(zint(a) + zint(b)))


def isub(a, b):
    if conc(a) and conc(b):
        return a - b
    if conc(b) and b == 0:
        return a
    return lit(z3.simplify(zint(a) - zint(b)))


def imul(a, b):
    if conc(a) and conc(b):
        return a * b
    for p, q in ((a, b), (b, a)):
        if conc(p):
            if p == 0:
                return 0
            if p == 1:
                return q
    return lit(z3.simplify(zint(a) * zint(b)))


def cmpi(p, a, b, bits=64):
    if conc(a) and conc(b):
        if p[0] == 'u':
            m = (1 << bits) - 1
            a, b = a & m, b & m
        return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p if p in ('eq', 'ne') else p[1:]]
    za, zb = zint(a), zint(b)
    if p == 'eq':
        return za == zb
    if p == 'ne':
        return za != zb
    q = p[1:]
    r = {'gt': lambda: za > zb, 'ge': lambda: za >= zb, 'lt': lambda: za < zb, 'le': lambda: za <= zb}[q]()
    if p[0] == 'u':
        # signed-canonical representation: negative numbers are the large unsigned ones
        na = conc(a) and a >= 0
        nb = conc(b) and b >= 0
        if na and nb:
            return r
        sa, sb = za >= 0, zb >= 0
        if nb:
            return z3.And(sa, r) if q in ('lt', 'le') else z3.Or(z3.Not(sa), r)
        if na:
            return z3.Or(z3.Not(sb), r) if q in ('lt', 'le') else z3.And(sb, r)
        lt = q in ('lt', 'le')
        return z3.If(sa == sb, r, sa if lt else sb)
    return r
