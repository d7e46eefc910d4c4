#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]            decide one property for /repo's current sources
   check.py --replay PROPERTY PROGRAM CASE INDEX SEED [EFFORT]   rerun one harness case"""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import glob, importlib, json, multiprocessing as mp, re, shutil, subprocess, tempfile, threading, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vc.props import PROPS, HARNESS, EFFORT, EFFORT_OVERRIDE, tu_text
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = int(os.environ.get("VERIF_CPUS", "8"))

# ------------------------------------------------------------------ harness programs
FLAGS = ["-std=c++17", "-O1", "-g0", "-w", "-I" + REPO + "/include", "-I/usr/include/eigen3", "-I" + HERE + "/stub", "-I" + HERE + "/harness"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment"]

class Build:
    def __init__(self, progs, work, extra=()):
        self.work, self.extra, self.err, self.procs = work, list(extra), {}, []
        srcs = sorted({s for p in progs for s in HARNESS[p]})
        jobs = [(os.path.join(HERE, "harness", p + ".cpp"), p + ".o") for p in progs] + [(os.path.join(REPO, "src", s), s + ".o") for s in srcs]
        for src, obj in jobs:
            self.procs.append((src, obj, subprocess.Popen(["g++"] + FLAGS + self.extra + ["-c", src, "-o", os.path.join(work, obj)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        self.progs = progs
    def finish(self):
        """program -> path, or None with self.err[program]"""
        bad = {}
        for src, obj, p in self.procs:
            e = p.communicate()[1].decode(errors="replace")
            if p.returncode: bad[obj] = "%s: %s" % (src, e[-1500:])
        out = {}
        for p in self.progs:
            objs = [p + ".o"] + [s + ".o" for s in HARNESS[p]]
            errs = [bad[o] for o in objs if o in bad]
            if not errs:
                exe = os.path.join(self.work, p)
                r = subprocess.run(["g++"] + self.extra + ["-o", exe] + [os.path.join(self.work, o) for o in objs], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
                if r.returncode: errs = ["link: " + r.stderr.decode(errors="replace")[-1500:]]
            if errs: self.err[p] = errs; out[p] = None
            else: out[p] = exe
        return out

def run_prog(exe, args, work, timeout):
    env = dict(os.environ, VERIF_SCRATCH=work, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0:exitcode=1")
    try: r = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=work, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode(errors="replace"), ""
    return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")

def harness(pid, exes, seed, effort, work, timeout=240):
    """-> (cases per name, failure or None, notes)"""
    cases, fail, notes = {}, None, []
    for p, exe in exes.items():
        if exe is None: continue
        rc, out, err = run_prog(exe, [pid, seed, effort], work, timeout)
        for m in re.finditer(r"^DONE \S+ (\S+) cases=(\d+)", out, re.M): cases[p + ":" + m.group(1)] = cases.get(p + ":" + m.group(1), 0) + int(m.group(2))
        if rc is None: notes.append("%s stopped after %d s" % (p, timeout)); continue
        if rc == 0: continue
        m = re.search(r"^FAIL (\S+) (\S+) seed=(\d+) index=(\d+): .*", out, re.M)
        san = re.search(r"ERROR: AddressSanitizer.*|runtime error:.*", err)
        if m: fail = dict(prog=p, case=m.group(2), seed=int(m.group(3)), index=int(m.group(4)), effort=effort, text=out[m.start():][:30000])
        elif san: fail = dict(prog=p, case="?", seed=seed, index=-1, effort=effort, text=san.group(0) + "\n" + err[:6000])
        else: notes.append("%s ended with %s: %s" % (p, rc, (out + err)[-800:])); continue
        break
    return cases, fail, notes

# ------------------------------------------------------------------ proofs
def load_contracts():
    from contracts import base
    for f in sorted(glob.glob(os.path.join(HERE, "contracts", "*.py"))):
        m = os.path.basename(f)[:-3]
        if m not in ("__init__", "base"): importlib.import_module("contracts." + m)
    return base.CONTRACTS

def prove_all(pid, tier, work, deadline, stop):
    """-> dict with one entry per function under contract for this property"""
    from vc.cast import AST, ExtractError
    from vc.engine import Engine
    contracts = load_contracts()
    mine = [c for c in contracts if pid in getattr(c, "props", ()) and not c.inline]
    if not mine: return dict(functions=[], assumptions=[], ast_s=0)
    t0 = time.time()
    try:
        ast = AST(tu_text(pid, REPO), work)
        eng = Engine(ast, contracts)
    except Exception as e:
        return dict(functions=[dict(name=c.name, contract=type(c).__name__, status="not elaborated", reason="extraction: %s" % str(e)[-600:], obligations=0, discharged=0, failed=[]) for c in mine], assumptions=[], ast_s=time.time() - t0)
    ast_s = time.time() - t0
    sem = mp.Semaphore(NCPU)
    q = mp.Queue()
    funcs, procs = [], []
    for c in mine:
        if getattr(c, "bounded", None): funcs.append(dict(name=c.name, contract=type(c).__name__, status="bounded", reason=c.bounded, obligations=0, discharged=0, failed=[])); continue
        nodes = [] if c in eng.missing else c.nodes
        if not nodes: funcs.append(dict(name=c.name, contract=type(c).__name__, status="not elaborated", reason="no such function", obligations=0, discharged=0, failed=[])); continue
        for d in nodes:
            k = len(funcs)
            funcs.append(dict(name=c.name, contract=type(c).__name__, where="%s:%s" % tuple(d.get("_l") or ("?", "?")), status="not elaborated", reason="no answer", obligations=0, discharged=0, failed=[]))
            p = mp.Process(target=fn_worker, args=(k, eng, d, c, sem, q, stop, deadline))
            procs.append(p)
    procs.sort(key=lambda p: -getattr(p._args[3], "weight", 1))
    import signal as _s
    for p in procs: p.start()
    got, assumptions, base_assume = 0, set(eng.assumptions), None
    while got < len(procs):
        try: k, r = q.get(timeout=1)
        except Exception:
            if time.time() > deadline + 20: break
            if not any(p.is_alive() for p in procs):
                try: k, r = q.get(timeout=1)
                except Exception: break
            else: continue
        funcs[k].update(r); got += 1
        assumptions |= set(r.pop("assumptions", [])); funcs[k].pop("assumptions", None)
    for p in procs:
        if p.is_alive():
            try: os.killpg(p.pid, 9)
            except Exception: p.kill()
    return dict(functions=funcs, assumptions=sorted(assumptions), ast_s=ast_s)

def fn_worker(k, eng, d, c, sem, q, stop, deadline):
    os.setpgid(0, 0)
    from vc import solve
    from vc.types import Unsupported
    t0 = time.time()
    out = dict(status="not elaborated", reason="", obligations=0, discharged=0, failed=[])
    try:
        sem.acquire()
        try: obls = eng.verify(d, c)
        finally: sem.release()
        out["vcgen_s"] = round(time.time() - t0, 1)
        obls = list(obls)
        for nm, hy in eng.covers: obls.append(("cover " + nm, hy))
        if not eng.n_exits: out.update(status="failed", obligations=len(obls), failed=[dict(obligation="the function returns normally on some input", where=str(d.get("_l")), output="every path ends in an error")])
        n = len(obls)
        nextix = mp.Value("i", 0)
        rq = mp.SimpleQueue()
        kids = [mp.Process(target=ob_worker, args=(obls, nextix, sem, rq, stop, deadline)) for _ in range(min(NCPU, max(1, n // 3)))]
        for p in kids: p.daemon = True; p.start()
        res = [rq.get() for _ in range(n)]
        for p in kids: p.join()
        bad, undecided, t = [], [], 0.0
        backs = {}
        for i, ok, dt, back, txt in res:
            t += dt
            for b in back: backs[b] = backs.get(b, 0) + back[b]
            o = obls[i]
            if ok is True: continue
            nm = o[0] if isinstance(o, tuple) else o.name
            if ok is None: undecided.append(nm); continue
            bad.append((i, nm, str(getattr(o, "loc", "")), getattr(o, "kind", "cover"), txt))
        if bad and eng.n_exits:
            out["failed"] = [dict(obligation=nm, where=loc, kind=kind, output=txt) for i, nm, loc, kind, txt in sorted(bad)]
        real = [o for o in obls if not isinstance(o, tuple)]
        out["obligations"] = len(real)
        out["discharged"] = len(real) - sum(1 for b in bad if not isinstance(obls[b[0]], tuple)) - len(undecided)
        if eng.n_exits: out["status"] = "failed" if bad else "timeout" if undecided else "proved"
        if undecided: out["reason"] = "out of time: " + "; ".join(undecided[:5])
        out["slow"] = sorted({(o[0] if isinstance(o, tuple) else o.name) for i, ok, dt, back, txt in res for o in [obls[i]] if dt > 6})
        out["solver_s"] = round(t, 1); out["backends"] = backs
        out["inlined"] = sorted(str(x) for x in eng.inlined); out["uses"] = sorted(eng.used_contracts)
        out["assumptions"] = [str(x) for x in eng.assumptions]
    except Unsupported as e: out["reason"] = "outside the verifier's subset: %s" % e
    except MemoryError: out["reason"] = "out of memory"
    except Exception as e: out["reason"] = "verifier error: %r %s" % (e, traceback.format_exc()[-400:])
    q.put((k, out))
    q.close(); q.join_thread()
    os._exit(0)

def ob_worker(obls, nextix, sem, rq, stop, deadline):
    from vc import solve
    while True:
        with nextix.get_lock():
            i = nextix.value; nextix.value += 1
        if i >= len(obls): break
        o = obls[i]
        info = {}
        q0, c0 = solve.STATS.queries, getattr(solve.STATS, "cvc5", 0)
        ok, txt = False, ""
        with sem:
            t0 = time.time()
            try:
                if time.time() > deadline or stop.value == 2: ok = None
                elif isinstance(o, tuple):      # vacuity: the hypotheses must not be refutable
                    import z3
                    ok = not solve.prove(o[1], z3.BoolVal(False), 400000, 0, info=info)
                    if not ok: txt = "the hypotheses are contradictory"
                else:
                    ok = solve.prove(o.hyps, o.goal, 4000000, 0, info=info)
                    if not ok and time.time() < deadline and not stop.value:
                        ok = solve.prove(o.hyps, o.goal, 16000000, 2, info=info)
                    if not ok and (time.time() > deadline or stop.value): ok = None
            except Exception as e: txt = "solver error %r" % (e,)
            if ok is False and not txt:
                txt = "not discharged (%s)\nunproved atom: %s\nunder: %s\nmodel: %s" % (info.get("res", "unknown"), str(info.get("atom"))[:1500], [str(x)[:200] for x in info.get("extra", [])][:8], str(info.get("model"))[:3000])
            dt = time.time() - t0
        rq.put((i, ok, dt, {"z3": solve.STATS.queries - q0, "cvc5": getattr(solve.STATS, "cvc5", 0) - c0}, txt))
    os._exit(0)

# ------------------------------------------------------------------ findings
def known_findings():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l.strip())
        if m: out.append(m.groups())
    return out

def baseline():
    p = os.path.join(HERE, "contracts", "slow.json")
    return json.load(open(p)) if os.path.exists(p) else {}

TRUSTED = ["clang 18 (parsing and name resolution of the C++ sources; its JSON AST is what is verified)",
           "vc/ (this verification-condition generator) and its semantics of the C++ subset and of std::vector, std::map, nlohmann::json, Eigen element access",
           "z3 5.3 and cvc5 1.4 (back ends)"]
ASSUME = ["machine integers are treated as mathematical integers (no wrap-around), double as real numbers (no rounding), isnan as an uninterpreted predicate where the contract mentions missing values",
          "termination is not proved; contracts are partial correctness",
          "library functions follow their documented contracts (see vc/lib.py)",
          "callees with their own contract are assumed to satisfy it; it is discharged by the check that lists the function"]

def main():
    if sys.argv[1] == "--replay":
        pid, prog, case, index, seed = sys.argv[2:7]
        effort = sys.argv[7] if len(sys.argv) > 7 else 1 + int(index)
        work = tempfile.mkdtemp(prefix="vf-")
        try:
            b = Build([prog], work); ex = b.finish()
            if ex[prog] is None: print(b.err); return 2
            rc, out, err = run_prog(ex[prog], [pid, seed, effort, case, index], work, 300)
            print(out); return rc or 0
        finally: shutil.rmtree(work, ignore_errors=True)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    limit = 420 if tier == "quick" else 3000
    deadline = t0 + limit
    work = tempfile.mkdtemp(prefix="vf-")
    rc = 1
    try: rc = decide(pid, tier, seed, t0, deadline, work)
    finally: shutil.rmtree(work, ignore_errors=True)
    return rc

def decide(pid, tier, seed, t0, deadline, work):
    progs = PROPS[pid][0]
    build = Build(progs, work)
    box = {}
    stop = mp.Value("i", 0)
    def hrun():
        box["exes"] = build.finish()
        effort = EFFORT_OVERRIDE.get((pid, tier), EFFORT[tier])
        box["cases"], box["fail"], box["notes"] = harness(pid, box["exes"], seed, effort, work)
        box["effort"] = effort
        if box["fail"]: stop.value = 2          # a failing input decides; no need to finish the proofs
        box["h_s"] = time.time() - t0
    th = threading.Thread(target=hrun); th.start()
    try: pr = prove_all(pid, tier, work, deadline, stop)
    except Exception as e: pr = dict(functions=[], assumptions=[], ast_s=0, error=repr(e) + traceback.format_exc()[-800:])
    th.join()
    for p, e in build.err.items(): box["notes"].append("harness %s not built: %s" % (p, e))
    # obligations that are slow on the reference tree may run out of solver time elsewhere; on their own they are not a verdict
    base = baseline()
    for f in pr["functions"]:
        if f["status"] == "failed":
            fr = base.get(f["contract"], {})
            if all(o["obligation"] in fr for o in f["failed"]): f["status"], f["reason"] = "timeout", "slow obligations not discharged in time: " + "; ".join(o["obligation"] for o in f["failed"])
    failedf = [f for f in pr["functions"] if f["status"] == "failed"]
    fail = box["fail"]
    seeds = [seed]
    extra = []
    if tier == "thorough" and not fail:
        extra = [seed + 1000 * i for i in range(1, 6)]
    elif failedf and not fail: extra = [seed + 7, seed + 8, seed + 9]
    for s in extra:
        if time.time() > deadline: break
        c, fail, n = harness(pid, box["exes"], s, box["effort"] * (1 if tier == "thorough" else 12), work, 90 if tier == "quick" else 400)
        for k in c: box["cases"][k] = box["cases"].get(k, 0) + c[k]
        box["notes"] += n; seeds.append(s)
        if fail: break
    if tier == "thorough" and not fail and time.time() < deadline:       # once more with address and undefined-behaviour checking
        wd = os.path.join(work, "san"); os.mkdir(wd)
        b2 = Build(progs, wd, SAN); ex2 = b2.finish()
        c, fail, n = harness(pid, ex2, seed, 8, wd, 600)
        for k in c: box["cases"][k + " (sanitized)"] = c[k]
        box["notes"] += n
    # ---- report
    known, alarms = known_findings(), []
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    if fail: alarms.append(("input", fail["prog"] + ":" + fail["case"], fail))
    elif failedf:
        for f in failedf: alarms.append(("proof", f["contract"], f))
    viol, printed_known = 0, []
    for kind, key, x in alarms:
        kk = [t for (p, m, t) in known if p == pid and re.fullmatch(m, key)]
        if kk:
            print("KNOWN-FINDING: property=%s %s" % (pid, kk[0])); printed_known.append(kk[0]); continue
        path = os.path.join(HERE, "replays", "%s-%d.txt" % (pid, viol))
        with open(path, "w") as f:
            f.write("property %s violated on the sources in %s\n\n" % (pid, REPO))
            if kind == "input":
                f.write("failing input found by the executable contract %s (against the real code)\n" % key)
                f.write("rerun: cd %s && python3-vt check.py --replay %s %s %s %d %d %d\n\n" % (HERE, pid, x["prog"], x["case"], x["index"], x["seed"], x["effort"]))
                f.write(x["text"] + "\n\n")
            for ff in failedf:
                f.write("failed obligations of %s (contract %s, %s):\n" % (ff["name"], ff["contract"], ff.get("where")))
                for o in ff["failed"]: f.write("  %s [%s] at %s\n    %s\n" % (o["obligation"], o.get("kind", ""), o.get("where"), o["output"].replace("\n", "\n    ")))
                f.write("\n")
        viol += 1
        if kind == "input": print(x["text"][:600])
        else:
            for o in x["failed"][:6]: print("failed obligation: %s: %s at %s" % (x["name"], o["obligation"], o.get("where")))
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if kind == "input" else " no-failing-input-found"))
        if kind == "proof": break
    if os.environ.get("VERIF_RECORD_SLOW"):
        for f in pr["functions"]:
            if f.get("slow"): base[f["contract"]] = sorted(set(base.get(f["contract"], [])) | set(f["slow"]))
        json.dump(base, open(os.path.join(HERE, "contracts", "slow.json"), "w"), indent=0, sort_keys=True)
    write_evidence(pid, tier, seed, pr, box, seeds, viol, printed_known, t0)
    tot, dis = sum(f["obligations"] for f in pr["functions"]), sum(f["discharged"] for f in pr["functions"])
    print("%s: %d functions under contract, %d/%d obligations discharged, %d bounded cases, %.0f s" % (pid, sum(f["status"] == "proved" for f in pr["functions"]), dis, tot, sum(box["cases"].values()), time.time() - t0))
    for f in pr["functions"]:
        if f["status"] != "proved": print("  %s (%s): %s %s" % (f["name"], f["contract"], f["status"], f.get("reason", "")[:300]))
    for n in box["notes"]: print("  note:", n[:500])
    if pr.get("error"): print("  proof part failed to run:", pr["error"])
    if viol: return 1
    if not sum(box["cases"].values()) and not dis:
        print("nothing could be checked"); return 2
    return 0

def write_evidence(pid, tier, seed, pr, box, seeds, viol, known, t0):
    man = json.load(open(os.path.join(HERE, "MANIFEST.json"))) if os.path.exists(os.path.join(HERE, "MANIFEST.json")) else {"checks": []}
    level = next((c["level"] for c in man["checks"] if c["property"] == pid), "other")
    fs = pr["functions"]
    backs = {}
    for f in fs:
        for b, n in f.get("backends", {}).items(): backs[b] = backs.get(b, 0) + n
    ncase = sum(box["cases"].values())
    proved = [f for f in fs if f["status"] == "proved"]
    cov = dict(
        obligations=sum(f["obligations"] for f in fs if f["status"] != "not elaborated"), discharged=sum(f["discharged"] for f in fs),
        checker_cmd="python3-vt check.py %s %s" % (pid, tier), trusted_base=TRUSTED,
        functions_under_contract=[dict(function=f["name"], contract=f["contract"], where=f.get("where"), status=f["status"], obligations=f["obligations"], discharged=f["discharged"], solver_s=f.get("solver_s"), vcgen_s=f.get("vcgen_s"), inlined=f.get("inlined"), relies_on_contracts=f.get("uses"), reason=f.get("reason") or None, failed=[o["obligation"] for o in f["failed"]]) for f in fs],
        solver_queries=backs, solver_s=round(sum(f.get("solver_s", 0) for f in fs), 1),
        bounded=dict(what="executable contracts run against the real code on generated inputs; bounded, not counted as proved", cases=box["cases"], total=ncase, seeds=seeds, effort=box.get("effort"), notes=box["notes"]),
        explanation="%d of %d functions under contract proved for all inputs (%d/%d obligations). Parts of the property not covered by these functions are decided by a bounded check: %d generated cases executed against the real code, no failure means none found." % (len(proved), len(fs), sum(f["discharged"] for f in fs), sum(f["obligations"] for f in fs), ncase))
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ASSUME + pr["assumptions"], wall_s=round(time.time() - t0, 1), violations=viol, known_findings=known)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", pid + ".json")
    json.dump(ev, open(tmp, "w"), indent=1)

if __name__ == "__main__":
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)
