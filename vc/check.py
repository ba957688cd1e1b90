#!/usr/bin/env python3-vt
"""Runs one property's check:  check.py <ID> [--verbose] [--driver NAME] [--no-native]

1. compiles /verif/contracts/<ID>.cpp together with the /repo sources it names to LLVM IR (clang, current tree);
2. symbolically executes every contract driver and discharges every obligation (z3, cvc5);
3. compiles the same contracts natively; replays counterexamples and runs the bounded stand-ins.
"""
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("VC_REPO", "/repo")
INC = ["-I%s/contracts" % VERIF, "-I%s/src/core" % REPO, "-I%s/src" % REPO, "-I%s/external" % REPO, "-I%s/external/json" % REPO]


def header(path):
    cfg = {"SOURCES": [], "MODE": "real", "UNROLL": "40", "TIMEOUT": "15000", "DRIVERTIME": "200", "STRINGS": "atoms", "NATIVE": "4", "NATIVEFLAGS": "", "TOL": "", "STD": "c++11", "ONLY": "", "ASSUME": []}
    for l in open(path):
        m = re.match(r"//\s*VC-([A-Z]+):\s*(.*)", l)
        if m:
            k, v = m.group(1), m.group(2).strip()
            if k == "SOURCES":
                cfg[k] += v.split()
            elif k == "ASSUME":
                cfg[k].append(v)
            else:
                cfg[k] = v
    return cfg


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def compile_ir(pid, cfg, bdir):
    """clang -> LLVM IR of contracts and the real sources, linked"""
    base = ["clang++-18", "-DVC_PROVE", "-std=" + cfg["STD"], "-O0", "-ffp-contract=off", "-fno-threadsafe-statics", "-gline-tables-only", "-w",
            "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-emit-llvm", "-c"] + cfg["NATIVEFLAGS"].split() + INC
    if cfg["STRINGS"] == "real":
        base.append("-D_GLIBCXX_ASSERTIONS")      # the string code itself is in the IR
    jobs = []
    outs = []
    srcs = ["%s/contracts/%s.cpp" % (VERIF, pid)]
    if cfg["ONLY"] != "native":                   # nothing to prove: the contracts are only listed from the IR
        srcs += ["%s/contracts/vc_models.cpp" % VERIF] + ["%s/src/%s" % (REPO, s) for s in cfg["SOURCES"]]
    for i, src in enumerate(srcs):
        o = "%s/ir%d.bc" % (bdir, i)
        outs.append(o)
        jobs.append((src, subprocess.Popen(base + [src, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    for src, p in jobs:
        _, err = p.communicate()
        if p.returncode:
            raise RuntimeError("clang failed on %s:\n%s" % (src, err[:3000]))
    l = "%s/linked.bc" % bdir
    if len(outs) == 1:
        l = outs[0]
    else:
        r = sh(["llvm-link-18"] + outs + ["-o", l])
        if r.returncode:
            raise RuntimeError("llvm-link failed: " + r.stderr[:2000])
        if cfg["ONLY"] != "native":
            l = ir_with_others(l, base, srcs, bdir)
    f = "%s/final.bc" % bdir
    r = sh(["opt-18", "-passes=sroa,simplifycfg", l, "-o", f])
    if r.returncode:
        raise RuntimeError("opt failed: " + r.stderr[:2000])
    return f


def start_native(pid, cfg, bdir):
    """native build of the same contracts, in the background"""
    flags = ["-std=" + cfg["STD"], "-O1", "-g1", "-w", "-ffp-contract=off", "-fsanitize=address", "-fno-omit-frame-pointer"] + cfg["NATIVEFLAGS"].split() + INC
    srcs = ["%s/contracts/%s.cpp" % (VERIF, pid), "%s/contracts/vc_native.cpp" % VERIF] + ["%s/src/%s" % (REPO, s) for s in cfg["SOURCES"]]
    ps = []
    for i, s in enumerate(srcs):
        o = "%s/nat%d.o" % (bdir, i)
        ps.append((s, o, subprocess.Popen(["clang++-18", "-c"] + flags + [s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    return ps


def finish_native(ps, bdir):
    objs = []
    for s, o, p in ps:
        _, err = p.communicate()
        if p.returncode:
            raise RuntimeError("native build failed on %s:\n%s" % (s, err[:3000]))
        objs.append(o)
    exe = bdir + "/native"
    r = sh(["clang++-18", "-fsanitize=address"] + objs + ["-o", exe])
    if r.returncode and "undefined reference" in r.stderr:
        # code has moved to files which the contract does not name: link what is needed from the others
        r = link_with_others(ps, objs, exe, bdir)
    if r.returncode:
        raise RuntimeError("native link failed: " + r.stderr[:3000])
    return exe


def undefined(l):
    return set(x.split()[-1] for x in sh(["llvm-nm-18", l]).stdout.splitlines() if " U " in x and "SEMBA" in x)


def other_sources(named):
    named = set(os.path.abspath(s) for s in named)
    others = []
    for root, _, fs in os.walk(REPO + "/src"):
        others += [os.path.abspath(os.path.join(root, f)) for f in fs if f.endswith(".cpp")]
    near = set(os.path.dirname(s) for s in named)
    others = sorted(f for f in others if f not in named)
    return [f for f in others if os.path.dirname(f) in near], [f for f in others if os.path.dirname(f) not in near]


def ir_with_others(l, base, srcs, bdir):
    """code that has moved to files which the contract does not name is found in the others"""
    from concurrent.futures import ThreadPoolExecutor
    n = 0
    for group in other_sources(srcs):
        if not undefined(l):
            break

        def one(k):
            o = "%s/other%d.bc" % (bdir, k[0])
            return o if sh(base + [k[1], "-o", o]).returncode == 0 else None
        with ThreadPoolExecutor(8) as ex:
            found = [o for o in ex.map(one, list(enumerate(group, n))) if o]
        n += len(group)
        for _ in range(4):
            need = undefined(l)
            more = [o for o in found if need & set(x.split()[-1] for x in sh(["llvm-nm-18", "--defined-only", o]).stdout.splitlines() if x.strip())]
            if not more:
                break
            m = "%s/linked%d.bc" % (bdir, n)
            if sh(["llvm-link-18", "--only-needed", l] + more + ["-o", m]).returncode:
                break
            l, n = m, n + 1
    return l


def link_with_others(ps, objs, exe, bdir):
    from concurrent.futures import ThreadPoolExecutor
    r = None
    lib = []
    for far, group in enumerate(other_sources([s for s, _, _ in ps])):
        args = list(ps[-1][2].args)

        def one(k):
            o = "%s/other%d.o" % (bdir, k[0])
            a = args[:-3] + [k[1], "-o", o]
            return o if sh(a).returncode == 0 else None
        with ThreadPoolExecutor(8) as ex:
            lib += [o for o in ex.map(one, list(enumerate(group, 1000 * far))) if o]
        a = bdir + "/others.a"
        if os.path.exists(a):
            os.remove(a)
        sh(["ar", "rcs", a] + lib)
        r = sh(["clang++-18", "-fsanitize=address"] + objs + [a, "-o", exe])
        if not r.returncode or "undefined reference" not in r.stderr:
            break
    return r


def model_lines(e, o):
    """the failing path's inputs under the counter-model, in consumption order"""
    import z3
    from terms import isz
    if o.model is None or o.nd is None:
        return None
    m = o.model

    def ev(t):
        if not isz(t):
            return str(float(t)) if not isinstance(t, int) else str(t)
        v = m.eval(t, True)
        if z3.is_int_value(v):
            return str(v.as_long())
        if z3.is_rational_value(v):
            try:
                return repr(v.numerator_as_long() / v.denominator_as_long())
            except OverflowError:
                return "0"
        if z3.is_algebraic_value(v):
            q = v.approx(20)
            return repr(q.numerator_as_long() / q.denominator_as_long())
        if z3.is_true(v):
            return "1"
        if z3.is_false(v):
            return "0"
        if z3.is_fp_value(v):
            try:
                return repr(float(eval_fp(v)))
            except Exception:
                return "0"
        return "0"
    out = []
    for x in o.nd:
        if x[0] in ('real', 'int', 'bool', 'str'):
            out.append("%s=%s" % (x[0], ev(x[1])))
        elif x[0] == 'vec':
            n = int(ev(x[1]))
            if n > 200:
                return None
            out.append("len=%d" % n)
            for i in range(n):
                for off, leaf, t in x[2]:
                    out.append("e=%s" % ev(z3.Select(leaf, i)))
    return out


def eval_fp(v):
    import z3
    if v.isNaN():
        return float('nan')
    if v.isInf():
        return float('-inf') if v.isNegative() else float('inf')
    r = z3.simplify(z3.fpToReal(v))
    return r.numerator_as_long() / r.denominator_as_long()


def prove_driver(mod, f, cfg, opts, q):
    """child process: one driver"""
    import engine
    import prover
    import z3
    z3.set_param("memory_max_size", 6000)
    res = {"driver": f[7:], "obligs": [], "unsupported": None, "steps": 0, "loops": [], "assumed": [], "executed": [], "reached": 0,
           "stat": {}, "stubs": {}, "time": 0}
    t0 = time.time()
    try:
        e = engine.Engine(mod, opts.get("mode", cfg["MODE"]), {"timeout": int(opts.get("timeout", cfg["TIMEOUT"])), "unroll": int(opts.get("unroll", cfg["UNROLL"])),
                                                               "verbose": opts.get("verbose", 0), "inf": opts.get("inf"), "abort": opts.get("abort"), "split": opts.get("split"), "libvec": opts.get("libvec"), "strings": opts.get("strings", cfg["STRINGS"])})
        e.deadline = t0 + float(cfg["DRIVERTIME"])
        e.budget = int(opts.get('steps', 3000000))
        proves = set()
        for a in e.annot.get(f, []):
            if a.startswith("vc.driver:"):
                proves |= set(x.strip() for x in a[10:].split(";"))
        use = (opts["stubs"] if "stubs" in opts else cfg.get("STUBS", "")).replace("+", " ").split()
        for d, s in e.stubs.items():
            if d not in proves and any("%dstub_%s" % (5 + len(u), u) in s for u in use):
                e.active_stubs[d] = s
        st = engine.State()
        try:
            outs = e.inline(st, f, [], top=True)
            for o in outs:
                if o.exc is not None:
                    e.oblige(o.st, "no unexpected exception escapes", False, 'ensures', "driver " + f)
            # vacuity: some path through the whole contract is reachable
            for o in outs[:6]:
                s = z3.Solver()
                s.set("timeout", 2000)
                s.add(*[t for t, _ in o.st.pc])
                if s.check() != z3.unsat:
                    res["reached"] += 1
                    break
        except engine.Unsupported as u:
            res["unsupported"] = str(u.args[0])[:400]
        except z3.Z3Exception as x:
            res["unsupported"] = "z3: " + str(x)[:300] + " ".join(traceback.format_exc().replace("^","").split())[-900:]
        except RecursionError:
            res["unsupported"] = "recursion limit"
        except (TypeError, AttributeError, KeyError, AssertionError, IndexError, ValueError) as x:
            res["unsupported"] = "verifier: " + traceback.format_exc()[-600:]
        for o in e.obligs:
            d = {"name": o.name, "kind": o.kind, "where": o.where, "status": o.status, "time": o.time, "backend": o.backend, "detail": str(o.detail)[:400],
                 "abstract": bool(o.abstract)}
            if o.status == 'failed':
                try:
                    d["lines"] = model_lines(e, o)
                    d["model"] = str(o.model)[:3000]
                except Exception as x:
                    d["lines"] = None
                    d["model"] = "unprintable: %s" % x
            res["obligs"].append(d)
        res["steps"] = e.steps
        res["loops"] = e.loops_inv
        res["assumed"] = sorted(e.assumed)
        res["stubs"] = dict(e.inv_used)
        ex = []
        for n in e.executed:
            fn = e.m.func(n)
            fl = [i.file for b in fn.blocks for i in b.ins if i.file]
            if fl and any(REPO + "/src/" in x for x in fl):
                ex.append(fn.dem)
        res["executed"] = sorted(ex)
        res["stat"] = dict(prover.STAT)
    except MemoryError:
        res["unsupported"] = "out of memory"
    except Exception:
        res["unsupported"] = "verifier error: " + traceback.format_exc()[-800:]
    res["time"] = time.time() - t0
    q.put(res)


def run_provers(mod, drivers, cfg, optmap, verbose):
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    todo = list(drivers)
    running = {}
    results = {}
    par = 7
    limit = float(cfg["DRIVERTIME"]) + 60
    while todo or running:
        while todo and len(running) < par:
            f = todo.pop(0)
            o = dict(optmap.get(f[7:], {}))
            o["verbose"] = verbose
            p = ctx.Process(target=prove_driver, args=(mod, f, cfg, o, q))
            p.start()
            running[f] = (p, time.time())
        try:
            r = q.get(timeout=0.2)
            results["vc_drv_" + r["driver"]] = r
            p, _ = running.pop("vc_drv_" + r["driver"])
            p.join()
            continue
        except Exception:
            pass
        for f, (p, t0) in list(running.items()):
            if not p.is_alive() and f not in results:
                try:
                    r = q.get(timeout=1)
                    results["vc_drv_" + r["driver"]] = r
                    running.pop("vc_drv_" + r["driver"], None)
                    continue
                except Exception:
                    pass
                running.pop(f, None)
                results[f] = {"driver": f[7:], "obligs": [], "unsupported": "verifier process died", "steps": 0, "loops": [], "assumed": [],
                              "executed": [], "reached": 0, "stat": {}, "stubs": {}, "time": time.time() - t0}
            elif time.time() - t0 > limit:
                p.kill()
                running.pop(f, None)
                results[f] = {"driver": f[7:], "obligs": [], "unsupported": "time limit", "steps": 0, "loops": [], "assumed": [], "executed": [],
                              "reached": 0, "stat": {}, "stubs": {}, "time": time.time() - t0}
    return results


def known_findings(pid):
    out = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) driver=(\S+) check=\"([^\"]*)\"\s+(.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


ASAN_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=3:allocator_may_return_null=1")


def native(exe, *args, timeout=120):
    try:
        r = subprocess.run([exe] + list(args), capture_output=True, text=True, timeout=timeout, env=ASAN_ENV, errors="replace")
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as x:
        return 124, "", "timeout"


def main():
    pid = sys.argv[1]
    verbose = 1 if "--verbose" in sys.argv else 0
    only = sys.argv[sys.argv.index("--driver") + 1] if "--driver" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    bdir = os.environ.get("VC_BUILD", "%s/build/%s" % (VERIF, pid))
    os.makedirs(bdir, exist_ok=True)
    cfg = header("%s/contracts/%s.cpp" % (VERIF, pid))
    if tier == "thorough":
        cfg["TIMEOUT"] = str(int(cfg["TIMEOUT"]) * 3)
        cfg["DRIVERTIME"] = str(float(cfg["DRIVERTIME"]) * 4)
    nat = start_native(pid, cfg, bdir) if "--no-native" not in sys.argv else None
    import llvm
    bc = compile_ir(pid, cfg, bdir)
    mod = llvm.Module(bc)
    import engine
    annot = engine.Engine(mod).annot
    drivers, bounded, natives, optmap, fns = [], {}, {}, {}, {}
    for f, anns in annot.items():
        for a in anns:
            if a.startswith("vc.driver:"):
                drivers.append(f)
                fns[f[7:]] = a[10:]
            elif a.startswith("vc.bounded:"):
                bounded[f[7:]] = a[11:]
            elif a.startswith("vc.native:"):
                natives[f[7:]] = a[10:]
            elif a.startswith("vc.opt:"):
                _, d, s = a.split(":", 2)
                optmap.setdefault(d, {}).update(dict(kv.split("=") for kv in s.split(",")))
    drivers.sort()
    if only:
        drivers = [f for f in drivers if f[7:] in only.split(",")]
    tc = time.time() - t0
    results = run_provers(mod, drivers, cfg, optmap, verbose)
    tp = time.time() - t0
    exe = finish_native(nat, bdir) if nat else None

    violations = []     # (driver, what, replay path, nfi)
    undecided = []      # drivers not discharged by the verifier on this run
    known = known_findings(pid)
    knownhit = set()
    nob = ndis = 0
    bnob = bndis = 0
    failing = {}

    def is_known(driver, what):
        for d, w, t in known:
            if d == driver and (w == what or w == '*'):
                knownhit.add((d, w, t))
                return True
        return False
    for f in drivers:
        r = results[f]
        d = r["driver"]
        ob = [o for o in r["obligs"]]
        if d in bounded:
            bnob += len(ob)
            bndis += sum(o["status"] == 'proved' for o in ob)
        else:
            nob += len(ob)
            ndis += sum(o["status"] == 'proved' for o in ob)
        bad = [o for o in ob if o["status"] != 'proved']
        if r["unsupported"]:
            undecided.append((d, r["unsupported"]))
        if not r["unsupported"] and not any(o["kind"] == 'ensures' for o in ob):
            undecided.append((d, "vacuous: no postcondition obligation was generated"))
        elif not r["unsupported"] and not r["reached"] and not bad:
            undecided.append((d, "vacuous: no path satisfies the precondition"))
        if bad:
            failing[d] = bad
        if verbose:
            print("driver %-28s %s obligations %d proved %d %s %.1fs steps %d" % (d, "bounded" if d in bounded else "", len(ob), len(ob) - len(bad),
                                                                                  ("UNSUPPORTED " + r["unsupported"]) if r["unsupported"] else "", r["time"], r["steps"]), flush=True)
    # native side
    samples = []
    nat_stats = {}
    evals = 0
    if exe:
        rc, out, err = native(exe, "list")
        table = {}
        for l in out.strip().split("\n"):
            if l.count("|") >= 3:
                i, k, fn, b = l.split("|", 3)
                table[i] = (int(k), fn, b)
        names = [n for n in table if not only or n in only.split(",")]
        # 1. replay counterexamples
        replayed = set()
        for d, bad in failing.items():
            for k, o in enumerate(bad):
                if not o.get("lines"):
                    continue
                rf = "%s/cex-%s-%d.txt" % (bdir, d, k)
                with open(rf, "w") as g:
                    g.write("\n".join(o["lines"]) + "\n")
                of = "%s/replay-%s.txt" % (bdir, d)
                rc, out, err = native(exe, "replay", d, rf, of, timeout=60)
                if rc in (1, 3):
                    what = re.sub(r"^FAIL \S+ ", "", out.strip().split("\n")[-1]) if out.strip() else "crash"
                    if is_known(d, what):
                        continue
                    violations.append((d, what, of, False, "counterexample of obligation '%s' (%s) replayed on the real code\n%s" % (o["name"], o["where"], err[-1500:])))
                    replayed.add(d)
                    break
        # 2. bounded stand-ins and search
        base_ms = int(float(cfg["NATIVE"]) * 1000) * (8 if tier == "thorough" else 1)
        jobs = []
        for n in names:
            if n in replayed:
                continue
            undec = n in failing or any(u[0] == n for u in undecided)
            kind = table[n][0]
            ms = base_ms if kind else base_ms // 2
            if undec:
                ms = max(20000, base_ms * 3)
            runs = 4000000
            jobs.append((n, ms, runs))
        from concurrent.futures import ThreadPoolExecutor

        def go(j):
            n, ms, runs = j
            of = "%s/replay-%s.txt" % (bdir, n)
            return n, of, native(exe, "search", n, str(seed), str(runs), str(ms), of, timeout=ms / 1000 + 120)
        with ThreadPoolExecutor(8) as ex:
            for n, of, (rc, out, err) in ex.map(go, jobs):
                last = out.strip().split("\n")[-1] if out.strip() else ""
                if rc == 0 and last.startswith("OK"):
                    m = re.match(r"OK \S+ runs=(\d+) discarded=(\d+) distinct=(\d+) checks=(\d+) sample=(.*)", last)
                    nat_stats[n] = {"runs": int(m.group(1)), "discarded": int(m.group(2)), "distinct": int(m.group(3)), "checks": int(m.group(4))}
                    evals += int(m.group(1))
                    if len(samples) < 6:
                        samples.append(n + ": " + m.group(5))
                    if int(m.group(1)) == 0:
                        undecided.append((n, "native stand-in: every generated input was discarded"))
                elif rc in (1, 3) or "AddressSanitizer" in err:
                    fl = [l for l in out.split("\n") if l.startswith("FAIL ")]
                    what = re.sub(r"^FAIL \S+ ", "", fl[-1]) if fl else "memory error reported by AddressSanitizer"
                    if is_known(n, what):
                        continue
                    violations.append((n, what, of, False, "input found by executing the contract on the real code\n" + err[-2500:]))
                elif rc == 124:
                    violations.append((n, "does not terminate", of, False, "the contract did not terminate on the real code within the time limit")) if False else \
                        undecided.append((n, "native stand-in timed out"))
                else:
                    undecided.append((n, "native stand-in error: rc=%s %s" % (rc, (out + err)[-300:])))
    # 3. failed obligations without an input
    vd = set(v[0] for v in violations)
    for d, bad in failing.items():
        if d in vd:
            continue
        real = []
        for o in bad:
            if is_known(d, o["name"]):
                continue
            # a pure resource limit is not a failed proof
            if o["status"] == 'unknown' and re.search(r"timeout|canceled|interrupted|resource|memory", o["detail"]) and \
                    not re.search(r"incomplete quantifiers", o["detail"]):
                undecided.append((d, "obligation '%s' (%s): %s" % (o["name"], o["where"], o["detail"][:150])))
                continue
            real.append(o)
        if real:
            o = real[0]
            of = "%s/obligation-%s.txt" % (bdir, d)
            with open(of, "w") as g:
                g.write("driver %s\nfailed obligation: %s (%s) at %s\nstatus: %s %s\n" % (d, o["name"], o["kind"], o["where"], o["status"], o["detail"]))
                g.write("verifier counter-model:\n%s\n" % o.get("model", "none"))
                g.write("values: %s\n" % (o.get("lines"),))
            violations.append((d, o["name"], of, True, "the verifier no longer discharges this obligation"))
    # known findings
    for (dd, w, t) in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    rc = 0
    seen = set()
    for d, what, path, nfi, detail in violations:
        if not nfi:
            try:
                with open(path, "a") as g:
                    g.write("# %s\n" % "\n# ".join(detail.split("\n")))
            except OSError:
                pass
        print("  contract %s: %s" % (d, what))
        print("VIOLATION property=%s replay=%s%s" % (pid, path, " no-failing-input-found" if nfi else ""))
        rc = 1
    # evidence
    import z3
    sv = {}
    for r in results.values():
        for k, v in r["stat"].items():
            sv[k] = sv.get(k, 0) + v
    und = sorted(set(undecided))
    execd = sorted(set(x for r in results.values() for x in r["executed"]))
    ulist = sorted(set(d for d, _ in und))
    proved = [f[7:] for f in drivers if f[7:] not in bounded and f[7:] not in failing and f[7:] not in ulist]
    tb = ["clang 18 front end (IR of /repo's current sources is the verified text; -O0, sroa, simplifycfg)",
          "the VC generator in /verif/vc and its models of libstdc++ containers and libm (stl.py)",
          "z3 %s, cvc5 1.1.2" % z3.get_version_string()]
    asm = sorted(set(a for r in results.values() for a in r["assumed"]))
    if cfg["MODE"] == "real":
        asm.append("double arithmetic treated as real arithmetic in the proofs (rounding not modelled); the native runs use IEEE doubles")
    asm += ["machine integers treated as mathematical integers (no overflow) in the proofs",
            "partial correctness: termination of loops is not proved",
            "allocation always succeeds"] + cfg["ASSUME"]
    cov = {"obligations": nob, "discharged": ndis,
           "checker_cmd": "python3-vt /verif/vc/check.py %s" % pid,
           "trusted_base": tb,
           "contracts_proved_for_all_inputs": {d: fns[d] for d in proved},
           "functions_of_repo_executed_symbolically": execd,
           "contracts_used_at_call_sites": {k: v for r in results.values() for k, v in r["stubs"].items()},
           "loop_invariants": sorted(set("%s: %s" % (w, "; ".join(c)) for r in results.values() for w, c in r["loops"]))[:40],
           "undischarged_on_this_run": ["%s: %s" % u for u in und],
           "bounded_contracts": {d: "%s [bound: %s]" % (fns.get(d, ""), b) for d, b in bounded.items()},
           "bounded_obligations": bnob, "bounded_discharged": bndis,
           "native_stand_ins_never_counted_as_proved": natives,
           "solver_seconds": round(sv.get("time", 0), 2), "solver_queries": int(sv.get("queries", 0)),
           "backends": {k: v for k, v in sv.items() if k not in ("time", "queries")},
           "native_runs": nat_stats, "evaluations": evals,
           "distinct_nontrivial": sum(v["distinct"] for v in nat_stats.values()),
           "rule": "native executions of the contracts on /repo's code: inputs drawn from VERIF_SEED, those failing a precondition discarded; distinct input vectors counted",
           "samples": samples}
    import manifest
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": manifest.level(VERIF, pid),
          "coverage": cov, "assumptions": asm, "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, pid), "w") as g:
        json.dump(ev, g, indent=1)
    print("%s: obligations %d discharged %d; bounded %d/%d; undecided %s; native runs %d; %.1fs (compile %.1f, proof %.1f)" %
          (pid, nob, ndis, bndis, bnob, ulist, evals, time.time() - t0, tc, tp - tc))
    if verbose:
        for u in und:
            print("  undecided:", u)
        for n, s in nat_stats.items():
            print("  native", n, s)
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except RuntimeError as x:
        print("check error:", x)
        sys.exit(2)
