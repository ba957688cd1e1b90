"""Discharges one obligation: z3 (default), z3 nlsat on the purified problem, cvc5."""
import os
import re
import subprocess
import tempfile
import time
import z3
from terms import isz, lit, REAL, INT

CVC5 = "/usr/local/bin/cvc5"
for _p in ("/usr/local/bin/cvc5", "/usr/bin/cvc5", "/opt/veriftools/bin/cvc5"):
    if os.path.exists(_p):
        CVC5 = _p
STAT = {}


def flat_conj(t, out):
    if z3.is_and(t):
        for c in t.children():
            flat_conj(c, out)
    else:
        out.append(t)


def poly_equal(goal):
    """goal is an equation of real terms identical after expansion"""
    if z3.is_eq(goal) and goal.arg(0).sort() == REAL:
        d = z3.simplify(goal.arg(0) - goal.arg(1), som=True)
        return z3.is_rational_value(d) and d.numerator_as_long() == 0
    if z3.is_and(goal):
        return all(poly_equal(c) for c in goal.children())
    return False


def ratnf(goal):
    """equation of rational functions: (numerator identity holds, denominators used) or None"""
    if not (z3.is_eq(goal) and goal.arg(0).sort() == REAL):
        return None
    memo = {}
    dens = {}
    budget = [4000]

    def go(t):
        r = memo.get(t.get_id())
        if r is not None:
            return r[1]
        budget[0] -= 1
        if budget[0] < 0:
            raise ValueError
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_DIV:
            n1, d1 = go(t.arg(0))
            n2, d2 = go(t.arg(1))
            dens[t.arg(1).get_id()] = t.arg(1)
            r = (mul(n1, d2), mul(d1, n2))
        elif k == z3.Z3_OP_MUL:
            n, d = z3.RealVal(1), z3.RealVal(1)
            for c in t.children():
                n2, d2 = go(c)
                n, d = mul(n, n2), mul(d, d2)
            r = (n, d)
        elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            ps = [go(c) for c in t.children()]
            n, d = ps[0]
            for n2, d2 in ps[1:]:
                if k == z3.Z3_OP_SUB:
                    n2 = -n2
                if d.eq(d2):
                    n = n + n2
                elif is1(d2):
                    n = n + mul(n2, d)
                elif is1(d):
                    n, d = mul(n, d2) + n2, d2
                else:
                    n, d = mul(n, d2) + mul(n2, d), mul(d, d2)
            r = (n, d)
        elif k == z3.Z3_OP_UMINUS:
            n, d = go(t.arg(0))
            r = (-n, d)
        elif k == z3.Z3_OP_ITE:
            raise ValueError
        else:
            r = (t, z3.RealVal(1))
        memo[t.get_id()] = (t, r)
        return r

    def is1(t):
        return z3.is_rational_value(t) and t.numerator_as_long() == t.denominator_as_long()

    def mul(a, b):
        return b if is1(a) else a if is1(b) else a * b
    try:
        n1, d1 = go(goal.arg(0))
        n2, d2 = go(goal.arg(1))
        if not dens:
            return None
        x = z3.simplify(mul(n1, d2) - mul(n2, d1), som=True, som_blowup=200000)
    except (ValueError, z3.Z3Exception):
        return None
    if z3.is_rational_value(x) and x.numerator_as_long() == 0:
        return list(dens.values())
    return None


def has_quant(t, seen):
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo.extend(x.children())
    return False


def purify(terms):
    """replace uninterpreted/array applications by constants (weaker problem, sound for unsat)"""
    memo = {}
    names = {}

    def go(t):
        r = memo.get(t.get_id())
        if r is not None:
            return r[1]
        if z3.is_app(t):
            k = t.decl().kind()
            if t.num_args() and (k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT)):
                r = names.get(t.get_id())
                if r is None:
                    r = z3.Const("pur!%d" % len(names), t.sort())
                    names[t.get_id()] = r
            elif t.num_args():
                ch = [go(c) for c in t.children()]
                r = t.decl()(*ch) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else \
                    {z3.Z3_OP_AND: lambda: z3.And(*ch), z3.Z3_OP_OR: lambda: z3.Or(*ch),
                     z3.Z3_OP_ADD: lambda: z3.Sum(*ch), z3.Z3_OP_MUL: lambda: z3.Product(*ch)}[k]()
            else:
                r = t
        else:
            raise ValueError
        memo[t.get_id()] = (t, r)
        return r
    return [go(t) for t in terms]


def run_cvc5(terms, neg, timeout):
    s = z3.Solver()
    s.add(*terms)
    s.add(neg)
    txt = s.to_smt2()
    txt = "(set-logic ALL)\n" + txt
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run([CVC5, "--tlimit=%d" % timeout, f.name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        out = p.stdout.strip().split("\n")[0] if p.stdout.strip() else p.stderr[:100]
    except Exception as ex:     # noqa
        out = "error %s" % ex
    os.unlink(f.name)
    return out


def relevant(terms, goal, rounds=3):
    """cone of influence over shared uninterpreted symbols"""
    def syms(t):
        out, seen, todo = set(), set(), [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
                continue
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
        return out
    g = syms(goal)
    ts = [(t, syms(t)) for t in terms]
    used = set()
    for _ in range(rounds):
        new = set()
        for i, (t, s) in enumerate(ts):
            if i not in used and s & g:
                used.add(i)
                new |= s
        if not new:
            break
        g |= new
    return [t for i, (t, s) in enumerate(ts) if i in used]


def prove(e, terms, goal, timeout, want_model):
    t0 = time.time()
    STAT['queries'] = STAT.get('queries', 0) + 1

    def done(status, be, model=None, reason=""):
        dt = time.time() - t0
        STAT['time'] = STAT.get('time', 0) + dt
        STAT[be] = STAT.get(be, 0) + (1 if status == 'proved' else 0)
        return status, model, dt, reason, be
    if e.deadline:
        timeout = int(max(500, min(timeout, (e.deadline - time.time()) * 1000)))
    if poly_equal(goal):
        return done('proved', 'polynomial normal form')
    for t in terms:
        if t.eq(goal):
            return done('proved', 'hypothesis')
    dens = ratnf(goal)
    if dens is not None:
        if all(any(t.eq(z3.Not(d == 0)) or t.eq(d != 0) for t in terms) or prove(e, terms, d != 0, 3000, False)[0] == 'proved' for d in dens):
            return done('proved', 'rational normal form')
    conj = []
    flat_conj(goal, conj)
    if len(conj) > 1:
        be = 'z3'
        for c in conj:
            r = prove(e, terms, c, timeout, want_model)
            if r[0] != 'proved':
                return r
            be = r[4]
        return done('proved', be)
    neg = z3.Not(goal)
    s = z3.Solver()
    s.set("timeout", min(timeout, 4000))
    s.add(*terms)
    s.add(neg)
    r = s.check()
    if r == z3.unsat:
        return done('proved', 'z3')
    if r == z3.sat:
        return done('failed', 'z3', s.model(), "counter-model found")
    reason = "z3: " + s.reason_unknown()
    if any(has_quant(t, set()) for t in terms):
        s = z3.Solver()
        s.set("timeout", min(timeout, 2500))
        s.set("smt.mbqi", False)
        s.set("smt.auto_config", False)
        s.add(*terms)
        s.add(neg)
        if s.check() == z3.unsat:
            return done('proved', 'z3-ematch')
    # nonlinear: purified
    seen = set()
    qf = [t for t in terms if not has_quant(t, set())]
    if not has_quant(goal, set()):
        try:
            pt = purify(qf + [neg])
            for tac in ('qfnra-nlsat', 'smt'):
                if tac == 'qfnra-nlsat' and any('Int' in str(x.sort()) for x in []):
                    continue
                try:
                    if tac == 'qfnra-nlsat':
                        q = z3.Then('simplify', 'elim-term-ite', 'solve-eqs', 'qfnra-nlsat').solver()
                    else:
                        q = z3.SolverFor('QF_NRA')
                    q.set("timeout", min(timeout, 6000))
                    q.add(*pt)
                    if q.check() == z3.unsat:
                        return done('proved', 'z3-nlsat')
                except z3.Z3Exception:
                    pass
        except ValueError:
            pass
    rel = relevant(terms, goal)
    if len(rel) < len(terms):
        s = z3.Solver()
        s.set("timeout", min(timeout, 4000))
        s.add(*rel)
        s.add(neg)
        if s.check() == z3.unsat:
            return done('proved', 'z3')
    if timeout > 3000:
        out = run_cvc5(terms, neg, min(timeout, 10000))
        if out == 'unsat':
            return done('proved', 'cvc5')
        if out == 'sat':
            return done('failed', 'cvc5', None, "cvc5: sat")
        reason += "; cvc5: " + out
        s = z3.Solver()
        s.set("timeout", timeout)
        s.set("smt.mbqi", False)
        s.set("random_seed", 7)
        s.add(*terms)
        s.add(neg)
        r = s.check()
        if r == z3.unsat:
            return done('proved', 'z3')
        reason += "; z3/ematching: " + str(r)
    return done('unknown', 'none', None, reason)
