#!/usr/bin/env python3
"""Driver: check.py <PROPERTY> <quick|thorough>.

Compiles the harnesses of the property against /repo's current sources, runs
their cases on a process pool, decides, writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
"""
import atexit
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TLAPACK_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
ENGINE = os.path.join(VERIF, "engine")
HARN = os.path.join(VERIF, "harness")
NPROC = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))
INC = ["-I", ENGINE, "-I", HARN, "-I", os.path.join(REPO, "include")]
CXX = ["g++", "-std=c++20", "-O0", "-w", "-DTLAPACK_CHECK_INPUT"]
LIBS = ["-lgmpxx", "-lgmp"]


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout, **kw):
    """run in its own session, kill the whole group on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


def filehash(paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def atomic_compile(cmd, out, timeout):
    tmp = out + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
    rc, o, e = sh(cmd + ["-o", tmp], timeout)
    if rc == 0:
        os.replace(tmp, out)
        return None
    if os.path.exists(tmp):
        os.unlink(tmp)
    return "compile failed (rc=%s): %s" % (rc, e[-3000:])


def build_engine(name):
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(ENGINE, name + ".cpp")
    h = filehash([src, os.path.join(ENGINE, name + ".hpp")])
    obj = os.path.join(BUILD, "%s-%s.o" % (name, h))
    if not os.path.exists(obj):
        err = atomic_compile(["g++", "-std=c++17", "-O2", "-w", "-c", src, "-I", ENGINE], obj, 600)
        if err:
            raise RuntimeError(err)
    return obj


def build_harness(src, timeout):
    """returns (binary or None, error)"""
    text = open(src).read()
    eng = "symf" if re.search(r'#include "symf.hpp"', text) else "symx"
    obj = build_engine(eng)
    inc = list(INC)
    gen = src[:-4] + ".gen.py"
    if os.path.exists(gen):  # sources of the repository rewritten for the symbolic scalar
        gd = tempfile.mkdtemp(prefix="gen_", dir=BUILD)
        atexit.register(shutil.rmtree, gd, True)
        rc, o, e = sh([sys.executable, gen, REPO, gd], 60)
        if rc != 0:
            return None, "generation failed: " + e[-2000:]
        inc = ["-I", gd] + inc
    rc, o, e = sh(CXX + inc + ["-E", "-P", src], 120)
    if rc != 0:
        return None, "preprocess failed: " + e[-2000:]
    h = hashlib.sha256((o + obj).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "%s-%s" % (os.path.basename(src)[:-4], h))
    if not os.path.exists(exe):
        err = atomic_compile(CXX + inc + [src, obj] + LIBS, exe, timeout)
        if err:
            return None, err
    return exe, None


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.budget = float(os.environ.get("VERIF_BUDGET", "420" if tier == "quick" else "800"))
        self.deadline = self.t0 + self.budget
        self.records, self.meta, self.notes = [], [], []
        self.crashes = []
        self.skipped = []
        self.lock = threading.Lock()
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % prop)

    def run_chunk(self, exe, src, names):
        todo = list(names)
        while todo and time.time() < self.deadline:
            lst = os.path.join(self.work, "l%d" % threading.get_ident())
            out = os.path.join(self.work, "o%d" % threading.get_ident())
            with open(lst, "w") as f:
                f.write("\n".join(todo) + "\n")
            cmd = [exe, "--cases", lst, "--out", out, "--seed", str(self.seed)]
            if self.tier == "thorough":
                cmd.append("--thorough")
            rc, o, e = sh(cmd, max(5, self.deadline - time.time()))
            done, begun = set(), None
            try:
                lines = open(out).read().splitlines()
            except OSError:
                lines = []
            for ln in lines:
                try:
                    r = json.loads(ln)
                except ValueError:
                    continue
                if "begin" in r:
                    begun = r["begin"]
                elif "case" in r:
                    r["src"], r["exe"] = src, exe
                    done.add(r["case"])
                    with self.lock:
                        self.records.append(r)
                elif "meta" in r:
                    with self.lock:
                        self.meta.append(r)
            todo = [n for n in todo if n not in done]
            if not todo:
                return
            if rc is None:
                break
            if begun in todo:
                todo.remove(begun)
                with self.lock:
                    self.crashes.append((exe, src, begun, rc, e[-500:]))
            else:
                with self.lock:
                    self.notes.append("harness %s stopped (rc=%s): %s" % (os.path.basename(src), rc, e[-300:]))
                break
        if todo:
            with self.lock:
                self.skipped += todo

    def go(self):
        srcs = sorted(glob.glob(os.path.join(HARN, self.prop + "*.cpp")))
        build_engine("symx")
        try:
            build_engine("symf")
        except (RuntimeError, OSError):
            pass
        exes = {}
        ntotal = 0
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = {ex.submit(build_harness, s, 400): s for s in srcs}
            pend = []
            for f in cf.as_completed(futs):
                s = futs[f]
                exe, err = f.result()
                if err:
                    self.notes.append("%s: %s" % (os.path.basename(s), err))
                    log("INCONCLUSIVE property=%s harness %s not built: %s" % (self.prop, os.path.basename(s), err[-1500:]))
                    continue
                exes[s] = exe
            allc = []
            for s, exe in sorted(exes.items()):
                cmd = [exe, "--list"] + (["--thorough"] if self.tier == "thorough" else [])
                rc, o, e = sh(cmd, 60)
                names = [x for x in o.splitlines() if x]
                if rc != 0:
                    self.notes.append("%s --list rc=%s" % (s, rc))
                ntotal += len(names)
                allc.append((exe, s, names))
            self.ntotal = ntotal
            per = max(1, ntotal // (NPROC * 12))
            chunks = []
            for exe, s, names in allc:
                # interleave so that expensive neighbours spread out
                k = max(1, (len(names) + per - 1) // per)
                for i in range(k):
                    c = names[i::k]
                    if c:
                        chunks.append((exe, s, c))
            futs = [ex.submit(self.run_chunk, *c) for c in chunks]
            for f in futs:
                f.result()

    def confirm_crashes(self):
        out = []
        for exe, src, name, rc, err in self.crashes:
            r2, o, e = sh([exe, "--fuzzcase", name], 40)
            bad = r2 is None or r2 < 0 or r2 == 1
            if rc in (-9, -15) and r2 == 0:
                bad = False
            if bad:
                out.append((src, name, "the real code crashed or did not return (rc=%s, concrete rerun rc=%s) %s" % (rc, r2, o[:200])))
            else:
                self.notes.append("case %s stopped (rc=%s), not reproduced concretely" % (name, rc))
        return out


def known_findings():
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) case=(\S+) label="([^"]*)" (.*)', ln.strip())
            if m:
                res.append(m.groups())
    return res


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    if prop == "build":
        return setup()
    mod = os.path.join(HARN, prop + ".py")
    r = Run(prop, tier)
    try:
        r.go()
        extra = None
        if os.path.exists(mod):
            import importlib.util
            spec = importlib.util.spec_from_file_location("m_" + prop, mod)
            m = importlib.util.module_from_spec(spec)
            sys.path.insert(0, ENGINE)
            sys.path.insert(0, HARN)
            spec.loader.exec_module(m)
            extra = m.run(r)
        return finish(r, extra)
    finally:
        shutil.rmtree(r.work, ignore_errors=True)


def finish(r, extra):
    prop = r.prop
    viol = []
    crashes = r.confirm_crashes()
    rdir = os.path.join(BUILD, "replay", prop)
    kf = known_findings()
    kf_hit = {}
    os.makedirs(rdir, exist_ok=True)

    def replay_file(name, content):
        p = os.path.join(rdir, re.sub(r"[^A-Za-z0-9_.-]", "_", name)[:120] + ".txt")
        with open(p, "w") as f:
            f.write(content)
        return p

    def report(case, label, detail, path):
        for kp, kc, kl, kd in kf:
            if kp == prop and re.fullmatch(kc, case) and kl in label:
                kf_hit.setdefault((kc, kl, kd), 0)
                kf_hit[(kc, kl, kd)] += 1
                return
        viol.append((case, label, detail, path))

    for rec in r.records:
        for i, v in enumerate(rec["violations"]):
            vals = "".join("%s %s\n" % kv for kv in v["model"].items())
            p = replay_file("%s_%d" % (rec["case"], i), vals)
            replay_file("%s_%d_how" % (rec["case"], i),
                        "%s --replay '%s' %s\nlabel: %s\ndetail: %s\n" % (rec["exe"], rec["case"], p, v["label"], v["detail"]))
            report(rec["case"], v["label"], v["detail"], p)
    for src, name, d in crashes:
        report(name, "crash", d, replay_file(name + "_crash", d))
    if extra:
        for c, l, d, content in extra.get("violations", []):
            report(c, l, d, replay_file(c, content))

    tot = {}
    for k in ("paths", "forks", "asserts", "proven", "trivial", "inconclusive", "queries", "unsat", "sat", "unknown", "solver_s", "conc_ok", "conc_disc", "oblig"):
        tot[k] = sum(rec[k] for rec in r.records)
    covers = sorted(set(x for m in r.meta for x in m["covers"]))
    bnds = sorted(set(x for m in r.meta for x in m["bounds"]))
    assm = sorted(set(x for m in r.meta for x in m["assumptions"]))
    incl = [(rec["case"], s) for rec in r.records for s in rec["incl"]]
    for c, s in incl[:40]:
        log("INCONCLUSIVE property=%s case=%s: %s" % (prop, c, s))
    if len(incl) > 40:
        log("INCONCLUSIVE property=%s ... and %d more" % (prop, len(incl) - 40))
    for c in r.skipped[:20]:
        log("INCONCLUSIVE property=%s case=%s: not run, time budget" % (prop, c))
    if os.environ.get("VERIF_SLOW"):
        for rec in sorted(r.records, key=lambda x: -x["wall_s"])[:25]:
            log("slow %6.1fs paths=%d asserts=%d queries=%d %s" % (rec["wall_s"], rec["paths"], rec["asserts"], rec["queries"], rec["case"]))
    samples = []
    for rec in sorted(r.records, key=lambda x: -x["solver_s"])[:3] + r.records[:2]:
        samples.append({k: rec[k] for k in ("case", "paths", "asserts", "proven", "queries", "solver_s", "wall_s", "inputs", "conc_ok")})
    cov = {
        "states": tot["paths"],
        "transitions": tot["forks"] + tot["queries"],
        "traces_validated_against_impl": tot["conc_ok"],
        "samples": samples or ["none"],
        "cases": len(r.records),
        "cases_registered": getattr(r, "ntotal", 0),
        "cases_not_run": len(r.skipped),
        "functions_encoded": covers,
        "bounds": bnds,
        "paths_explored": tot["paths"],
        "obligations": tot["asserts"],
        "obligations_discharged": tot["proven"],
        "obligations_folded_to_true_by_constant_folding": tot["trivial"],
        "obligations_undecided": tot["inconclusive"],
        "arithmetic_obligations_raised": tot["oblig"],
        "queries": {k: tot[k] for k in ("queries", "unsat", "sat", "unknown")},
        "solver": "z3 5.3.2 (z3-new -in), QF_LRA over monomials and QF_NRA; one-parameter cases: exact algebra over Q(t) with square roots, Sturm sequences and interval branch-and-bound",
        "solver_s": round(tot["solver_s"], 2),
        "undecided": ["%s: %s" % x for x in incl][:60] + r.notes[:10],
        "explanation": "states = symbolic paths of the real template code explored; transitions = path forks + solver queries; traces = concrete runs of the same harness on the real code",
    }
    if extra:
        cov.update(extra.get("coverage", {}))
        for k, v in extra.get("add", {}).items():
            cov[k] = cov.get(k, 0) + v
    ev = {"property": prop, "tier": r.tier, "seed": r.seed, "level": "model_checking", "coverage": cov,
          "assumptions": assm + (extra or {}).get("assumptions", []), "wall_s": round(time.time() - r.t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    for (kc, kl, kd), n in kf_hit.items():
        log("KNOWN-FINDING: property=%s %s" % (prop, kd))
    log("%s %s: cases=%d paths=%d obligations=%d proven=%d undecided=%d queries=%d solver=%.1fs wall=%.1fs" % (
        prop, r.tier, len(r.records), tot["paths"], tot["asserts"], tot["proven"], tot["inconclusive"], tot["queries"], tot["solver_s"], time.time() - r.t0))
    if viol:
        for c, l, d, p in viol[:20]:
            log("  violated: case=%s: %s %s" % (c, l, "" if d == l else d))
        log("VIOLATION property=%s replay=%s" % (prop, viol[0][3]))
        return 1
    for n in r.notes[:10]:
        log("INCONCLUSIVE property=%s %s" % (prop, n))
    if not r.records and not (extra and extra.get("decided")):
        log("INCONCLUSIVE property=%s nothing was explored: no answer" % prop)
        return 2
    return 0


def setup():
    build_engine("symx")
    if os.path.exists(os.path.join(ENGINE, "symf.cpp")):
        build_engine("symf")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:  # an internal error decides nothing
        import traceback
        traceback.print_exc()
        log("INCONCLUSIVE internal error: %r" % (e,))
        if len(sys.argv) > 1 and sys.argv[1] != "build":
            ev = {"property": sys.argv[1], "tier": sys.argv[2] if len(sys.argv) > 2 else "quick", "seed": 1, "level": "model_checking",
                  "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "explanation": "internal error: %r" % (e,)}, "wall_s": 0}
            with open(os.path.join(VERIF, "evidence", sys.argv[1] + ".json"), "w") as f:
                json.dump(ev, f)
            sys.exit(2)
        sys.exit(2)
    sys.exit(rc)
