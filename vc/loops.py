"""Loops with a symbolic number of iterations: inductive invariants by Houdini over
automatic templates and the candidate schemata registered by the contract driver."""
import itertools
import z3
from terms import *
from engine import (Engine, Unsupported, NeedInvariant, Ptr, VecVal, Bits, FnPtr, PtrInt, HEAP, Reg, isub, iadd, cmpi, Outcome)

SC = (bool, int)
from fractions import Fraction


def is_int(v):
    return (isz(v) and v.sort() == INT) or (isinstance(v, int) and not isinstance(v, bool))


def is_bool(v):
    return (isz(v) and v.sort() == BOOL) or isinstance(v, bool)


def is_real(e, v):
    return (isz(v) and v.sort() == e.dom.sort) or isinstance(v, Fraction)


class Var:
    """a loop-modified scalar: ('phi', id) | ('pidx', id, k) | ('leaf', rid, off) | ('len', rid)"""

    def __init__(self, kind, key, name=""):
        self.kind, self.key, self.name = kind, key, name

    def get(self, e, st, env):
        k = self.kind
        if k == 'phi':
            return env[self.key]
        if k == 'pidx':
            return env[self.key[0]].idx[self.key[1]]
        if k == 'poff':
            return env[self.key].off
        if k == 'len':
            return st.mem[self.key].len
        if k == 'leaf':
            r = st.mem[self.key[0]]
            return r.ov[self.key[1]][0] if self.key[1] in r.ov else None
        if k == 'leafidx':
            v = st.mem[self.key[0]].ov.get(self.key[1])
            return v[0].idx[self.key[2]] if v is not None and isinstance(v[0], Ptr) and len(v[0].idx) > self.key[2] else None

    def __repr__(self):
        return "%s%s" % (self.kind, self.key)


def fresh_like(e, v, base):
    if isinstance(v, bool):
        return z3.Bool("%s!%d" % (base, next(e.cnt)))
    if isinstance(v, int):
        return z3.Int("%s!%d" % (base, next(e.cnt)))
    if isinstance(v, Fraction):
        return z3.Real("%s!%d" % (base, next(e.cnt)))
    if isz(v):
        return z3.Const("%s!%d" % (base, next(e.cnt)), v.sort())
    raise Unsupported("loop-carried value of kind %s" % type(v).__name__)


def ev(c, st, env):
    """candidate formula in a state, None if it cannot be evaluated there"""
    try:
        return c[1](st, env)
    except (Unsupported, TypeError, AttributeError, KeyError):
        return None


def symbols_of(t, memo={}):
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
    return out


def invariant_loop(e, fn, h, st, env, prev, frame):
    blk = fn.blocks[h]
    env = dict(env)
    e.phis(fn, st, env, h, prev)
    phis = [i for i in blk.ins if i.op == 'phi']
    entry_st, entry_env = st, env
    opts = e.opts
    line = [i.line for i in blk.ins if i.line]
    where = "%s loop at line %s" % (fn.dem[:100], line[0] if line else '?')
    e.abstract += 1
    nfr = len(frame)
    modleaves = {}      # (rid, off) -> sample (value, tag)
    modlens = set()
    modkinds = set()

    def havoc():
        s = entry_st.fork()
        v = dict(entry_env)
        vs = []
        hs = set()
        for p in phis:
            x = entry_env[p.id]
            nm = p.name or 'phi'
            if isinstance(x, Ptr):
                if p.id in fixed_ptr:
                    continue
                if x.idx:
                    ni = x.idx[:-1] + (z3.Int("%s.i!%d" % (nm, next(e.cnt))),)
                    v[p.id] = Ptr(x.rid, ni, x.off)
                    vs.append(Var('pidx', (p.id, len(ni) - 1), nm))
                    hs.add(ni[-1].decl().name())
                elif x.rid is None or x.rid == HEAP:
                    raise Unsupported("loop-carried heap pointer")
                else:
                    raise Unsupported("loop-carried pointer into a fixed object")
                continue
            if isinstance(x, (tuple, FnPtr, VecVal, Bits, PtrInt)) or x is None:
                raise Unsupported("loop-carried aggregate")
            v[p.id] = fresh_like(e, x, nm)
            hs.add(v[p.id].decl().name())
            vs.append(Var('phi', p.id, nm))
        for rid in sorted(modlens | modkinds):
            r = s.mem[rid]
            lay = [(o, t) for (rr, o), (x, t) in modleaves.items() if rr == rid and not isinstance(o, tuple)]
            if r.kind == 'cvec':
                e.to_svec(s, rid, lay)
        for rid in sorted(modlens):
            w = s.wreg(rid)
            w.len = z3.Int("%s.len!%d" % (rid, next(e.cnt)))
            hs.add(w.len.decl().name())
            s.add(w.len >= 0)
            vs.append(Var('len', rid, rid + ".len"))
        for (rid, off), (x, t) in sorted(modleaves.items(), key=str):
            w = s.wreg(rid)
            if w.kind == 'svec':
                if isinstance(off, tuple):
                    off = off[1]
                cur, lt = e.leaf_read(s, rid, off, t)
                w = s.wreg(rid)
                a = z3.Const("%s[]%d!%d" % (rid, off, next(e.cnt)), cur.sort())
                hs.add(a.decl().name())
                w.ov[off] = (a, lt)
                vs.append(Var('leaf', (rid, off), rid))
                continue
            if isinstance(x, Ptr):
                if not x.idx or x.rid == HEAP:
                    raise Unsupported("loop modifies a stored pointer")
                ni = x.idx[:-1] + (z3.Int("%s.p!%d" % (rid, next(e.cnt))),)
                w.ov[off] = (Ptr(x.rid, ni, x.off), t)
                hs.add(ni[-1].decl().name())
                vs.append(Var('leafidx', (rid, off, len(ni) - 1), rid))
                continue
            if isinstance(x, tuple) and x and x[0] == 'vechandle':
                # another vector object may be here on each iteration: any vector of that element type
                src = x[1]
                if src is None or src.ety is None or src.ety.k not in ('double', 'int') or src.stride is None:
                    raise Unsupported("loop modifies a stored container handle")
                nr = "hv#%d" % next(e.cnt)
                q = Reg('svec', nr, ('sym', nr), 1)
                q.stride, q.ety = src.stride, src.ety
                q.len = z3.Int(nr + ".len")
                hs.add(nr + ".len")
                s.mem[nr] = q
                s.add(q.len >= 0)
                w.ov[off] = (VecVal(nr), t)
                continue
            if isinstance(x, (FnPtr, Bits)):
                raise Unsupported("loop modifies a stored container handle")
            nv = z3.Const("%s.%s!%d" % (rid, off, next(e.cnt)), e.sort(t))
            hs.add(nv.decl().name())
            w.ov[off] = (nv, t)
            vs.append(Var('leaf', (rid, off), rid))
        return s, v, vs, hs

    fixed_ptr = set()

    def diff(head, back):
        """leaves changed between loop head and back edge"""
        ch = False
        for rid, r in head.mem.items():
            b = back.mem.get(rid)
            if b is None or b is r:
                continue
            if b.kind != r.kind:
                if (rid) not in modkinds:
                    modkinds.add(rid)
                    ch = True
                for k, (x, t) in b.ov.items():
                    o = k[1] if isinstance(k, tuple) else k
                    if (rid, o) not in modleaves:
                        modleaves[(rid, o)] = (x, t)
                        ch = True
                if not same(r.len, b.len) and rid not in modlens:
                    modlens.add(rid)
                    ch = True
                continue
            if r.len is not None and not same(r.len, b.len) and rid not in modlens:
                modlens.add(rid)
                ch = True
                if r.kind == 'cvec':
                    for (i, o), (x, t) in b.ov.items():
                        if (rid, o) not in modleaves:
                            modleaves[(rid, o)] = (x, t)
            if b.ranges != r.ranges:
                raise Unsupported("loop copies memory blocks wholesale")
            for o, (x, t) in b.ov.items():
                y = r.ov.get(o)
                if y is not None and (y[0] is x or same(y[0], x) or (not isz(x) and not isz(y[0]) and y[0] == x)):
                    continue
                if y is None and r.root is not None and r.kind != 'cvec':
                    try:
                        y = e.leaf_read(head.fork(), rid, o, t)
                        if same(y[0], x) or (not isz(x) and not isz(y[0]) and y[0] == x):
                            continue
                    except Unsupported:
                        pass
                if r.kind == 'cvec':
                    if y is None or rid in modlens:
                        if (rid, o[1]) not in modleaves:
                            modleaves[(rid, o[1])] = (x, t)
                            modkinds.add(rid)
                            ch = True
                        continue
                if (rid, o) not in modleaves:
                    modleaves[(rid, o)] = (x if r.kind != 'svec' else None, t)
                    if isinstance(x, VecVal):
                        modleaves[(rid, o)] = (('vechandle', back.mem.get(x.rid)), t)
                    elif r.kind != 'svec' and y is not None:
                        modleaves[(rid, o)] = (y[0] if not isinstance(x, Ptr) else x, t)
                    ch = True
        return ch

    def body(s, v, quiet):
        # a fresh run of the body from the havoced head; phis are already bound
        v = dict(v)
        v[('phidone', h)] = True
        fr = []
        if quiet:
            e.quiet += 1
        try:
            r = e.run(fn, [(s, v, h, None)], h, fr, inv=True)
        finally:
            if quiet:
                e.quiet -= 1
        frame.extend(fr)
        return r

    try:
        # 1. frame: what the loop modifies
        for rnd in range(8):
            s, v, vs, hs = havoc()
            r = body(s.fork(), v, True)
            ch = False
            for (bs, be, bp) in r.backs:
                be = dict(be)
                e.phis(fn, bs, be, h, bp)
                for p in phis:
                    x, y = entry_env[p.id], be[p.id]
                    if isinstance(x, Ptr):
                        hx = v[p.id]
                        if not isinstance(y, Ptr) or y.rid != x.rid or y.off != x.off and not x.idx:
                            y2 = y
                            raise Unsupported("loop-carried pointer changes object")
                if diff(s, bs):
                    ch = True
            if not ch:
                break
        else:
            raise Unsupported("loop frame does not stabilise")

        # 2. candidates (templates over the modified scalars, bounds read off the scout run)
        cands = make_cands(e, fn, h, vs, hs, s, v, entry_st, entry_env, r)
        # initiation
        keep = []
        for c in cands:
            g = ev(c, entry_st, entry_env)
            if g is None:
                continue
            if e.entails(entry_st.pc, g, 1500):
                keep.append(c)
        cands = keep
        # consecution (Houdini)
        for rnd in range(12):
            s, v, vs, hs = havoc()
            live = []
            for c in cands:
                g = ev(c, s, v)
                if g is None:
                    continue
                s.add(g)
                live.append(c)
            cands = live
            r = body(s.fork(), v, True)
            drop = set()
            for (bs, be, bp) in r.backs:
                be = dict(be)
                e.phis(fn, bs, be, h, bp)
                for i, c in enumerate(cands):
                    if i in drop:
                        continue
                    g = ev(c, bs, be)
                    if g is None or not e.entails(bs.pc, g, 2500):
                        drop.add(i)
            if not drop:
                break
            cands = [c for i, c in enumerate(cands) if i not in drop]
        else:
            raise Unsupported("no inductive invariant set found")
        e.loops_inv.append((where, [c[0] for c in cands]))
        # 3. the body once more under the invariant, obligations on
        if opts.get('verbose', 0) > 0:
            print("  loop %s: vars %s invariants %s" % (where, vs, [c[0] for c in cands]), flush=True)
        s, v, vs, hs = havoc()
        for c in cands:
            s.add(c[1](s, v))
        r = body(s, v, False)
        return r.exits, r.rets
    finally:
        e.abstract -= 1


def make_cands(e, fn, h, vs, hs, hst, henv, est, eenv, scout):
    """[(name, f(st, env) -> formula)]"""
    out = []
    ints = []
    for x in vs:
        val = x.get(e, hst, henv)
        if is_int(val):
            x0 = x.get(e, est, eenv)
            ints.append((x, x0))
    # bounding terms: integer operands of comparisons in the loop that do not depend on the loop
    bounds = []

    def add_bound(t):
        if conc(t):
            if isinstance(t, int) and t not in [b for b in bounds if conc(b)]:
                bounds.append(t)
            return
        if symbols_of(t) & hs or len(bounds) > 12:
            return
        if any(isz(b) and b.eq(t) for b in bounds):
            return
        bounds.append(t)

    def collect(t):
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) \
                    and x.num_args() == 2 and x.arg(0).sort() == INT:
                a, b = x.arg(0), x.arg(1)
                sa, sb = symbols_of(a) & hs, symbols_of(b) & hs
                if sa and not sb:
                    add_bound(lit(b))
                    # i + c <= b
                elif sb and not sa:
                    add_bound(lit(a))
                elif sa and sb:
                    # x - i <= c style: solve for invariant part
                    pass
                # a sum mixing loop symbols and invariants
                for y, o in ((a, b), (b, a)):
                    if z3.is_add(y):
                        inv = [c for c in y.children() if not (symbols_of(c) & hs)]
                        if inv and len(inv) < y.num_args():
                            t2 = lit(z3.simplify(o - z3.Sum(*inv))) if not (symbols_of(o) & hs) else lit(z3.simplify(z3.Sum(*inv)))
                            add_bound(t2)
                            t3 = lit(z3.simplify(-zint(t2)))
                            add_bound(t3)
            else:
                todo.extend(x.children())
    nbase = len(hst.pc)
    for grp in (scout.backs, scout.exits):
        for o in grp:
            for t, k in o[0].pc[nbase:]:
                collect(t)
    for o in scout.rets:
        for t, k in o.st.pc[nbase:]:
            collect(t)
    if e.opts.get('verbose', 0) > 1:
        print("   bounds", bounds, [str(t)[:300] for o in scout.backs for t, k in o[0].pc[nbase:]])
    for x, x0 in ints:
        if x0 is not None:
            def f(st, env, x=x, x0=x0):
                return cmpi('sge', x.get(e, st, env), x0)
            out.append(("%s >= initial value" % x.name, f))

            def f2(st, env, x=x, x0=x0):
                return cmpi('sle', x.get(e, st, env), x0)
            out.append(("%s <= initial value" % x.name, f2))
        for b in bounds:
            for op, nm in (('sle', '<='), ('sge', '>=')):
                def f(st, env, x=x, b=b, op=op):
                    return cmpi(op, x.get(e, st, env), b)
                out.append(("%s %s %s" % (x.name, nm, str(b)[:40]), f))
            def f3(st, env, x=x, b=b):
                return cmpi('ne', x.get(e, st, env), b)
            out.append(("%s != %s" % (x.name, str(b)[:40]), f3))
    for (x, x0), (y, y0) in itertools.combinations(ints, 2):
        if x0 is None or y0 is None:
            continue

        def f(st, env, x=x, y=y, x0=x0, y0=y0):
            return cmpi('eq', isub(x.get(e, st, env), x0), isub(y.get(e, st, env), y0))
        out.append(("%s - %s constant" % (x.name, y.name), f))

        def f(st, env, x=x, y=y, x0=x0, y0=y0):
            return cmpi('eq', isub(x.get(e, st, env), x0), isub(y0, y.get(e, st, env)))
        out.append(("%s + %s constant" % (x.name, y.name), f))

        def f(st, env, x=x, y=y):
            return cmpi('sle', x.get(e, st, env), y.get(e, st, env))
        out.append(("%s <= %s" % (x.name, y.name), f))

        def f(st, env, x=x, y=y):
            return cmpi('sge', x.get(e, st, env), y.get(e, st, env))
        out.append(("%s >= %s" % (x.name, y.name), f))
    # schemata of the driver
    outer = outer_ints(e, fn, h, eenv)
    for (name, p) in est.inv:
        out += schema_cands(e, name, p, ints, vs, outer, hst, henv)
    return out


def outer_ints(e, fn, h, env):
    """int-valued phis of enclosing loops (loop-invariant here)"""
    out = []
    for hh, body in fn.loops.items():
        if hh != h and h in body:
            for i in fn.blocks[hh].ins:
                if i.op == 'phi' and i.id in env and is_int(env[i.id]):
                    out.append(env[i.id])
                elif i.op == 'phi' and i.id in env and isinstance(env[i.id], Ptr) and env[i.id].idx and is_int(env[i.id].idx[-1]):
                    out.append(env[i.id].idx[-1])
    return out


def schema_sig(e, name):
    """metavariable kinds used by a schema body, from its demangled name vc::inv_<..., I, V, R>"""
    return None


def schema_cands(e, name, p, ints, vs, outer, hst, henv):
    # the schema function calls __vc_metaint(k), __vc_metavec(k), __vc_metareal(k); find how many of each
    need = count_meta(e, name)
    res = []
    ivals = [x for x, _ in ints]
    vecs = sorted(set(x.key if x.kind == 'len' else x.key[0] for x in vs if x.kind in ('len',) or
                      (x.kind == 'leaf' and hst.mem[x.key[0]].kind == 'svec')))
    reals = [x for x in vs if x.kind in ('phi', 'leaf') and is_real(e, x.get(e, hst, henv))]
    isrc = [('v', x) for x in ivals] + [('c', t) for t in outer]
    for it in itertools.permutations(isrc, need['int']) if need['int'] else [()]:
        if need['int'] and not any(k == 'v' for k, _ in it) and not need['vec'] and not need['real']:
            continue
        for vt in vec_tuples(hst, vecs, need['vec']):
            for rt in itertools.permutations(reals, need['real']) if need['real'] else [()]:
                def f(st, env, it=it, vt=vt, rt=rt):
                    iv = [x.get(e, st, env) if k == 'v' else x for k, x in it]
                    rv = [x.get(e, st, env) for x in rt]
                    if any(x is None for x in iv + rv):
                        return None
                    return eval_schema(e, st, name, p, iv, list(vt), rv)
                nm = "schema(%s)" % ", ".join([str(x.name if k == 'v' else x) for k, x in it] + list(vt) + [x.name for x in rt])
                res.append((nm, f))
    return res


def vec_tuples(st, vecs, n):
    """the first vector is modified by the loop, the others are any vectors of the state with the same element size"""
    if n == 0:
        return [()]
    if n == 1:
        return [(v,) for v in vecs]
    out = []
    for v in vecs:
        r = st.mem[v]
        others = [k for k, x in st.mem.items() if k != v and x.kind == 'svec' and x.stride == r.stride and not k.startswith('meta')]
        for t in itertools.permutations(others, n - 1):
            out.append((v,) + t)
    return out[:60]


def count_meta(e, name):
    need = {'int': 0, 'vec': 0, 'real': 0}
    fn = e.m.func(name)
    for b in fn.blocks:
        for i in b.ins:
            if i.op in ('call', 'invoke') and i.x[0].k == 'func' and i.x[0].v.startswith('__vc_meta'):
                k = i.x[0].v[len('__vc_meta'):]
                need[k] = max(need[k], i.ops[0].v + 1)
    return need


def eval_schema(e, st, name, p, ints, vecs, reals):
    s2 = st.fork()
    base = len(s2.pc)
    vp = []
    for v in vecs:
        rid = e.new_region(s2, 'flat', 'metavec', ('undef',), 0, 24)
        s2.mem[rid].ov[0] = (VecVal(v), 'vec')
        vp.append(Ptr(rid))
    old = getattr(e, 'meta', None)
    e.meta = {'int': ints, 'vec': vp, 'real': reals}
    e.spec += 1
    try:
        outs = e.inline(s2, name, [p])
    finally:
        e.spec -= 1
        e.meta = old
    r = None
    for o in outs:
        if o.exc is not None:
            return None
        bs, fs = e.branch_cond(o.st, base)
        v = i2b(o.ret)
        r = v if r is None else ite(bs, v, r)
        for f in fs:
            st.add(f)
    return simp(r)
