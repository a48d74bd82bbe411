"""Case runner: splits cases over processes, classifies crashes/hangs, applies the
known-findings file, writes evidence, replay files and the verdict."""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf, signal
import build

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")
SAN = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:detect_stack_use_after_return=0:allocator_may_return_null=1:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:second_deadlock_stack=1",
    "LSAN_OPTIONS": "exitcode=96",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
}


class Ctx:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.t0 = time.time()
        self.viols = []          # (key, case, msg, replay dict)
        self.stats, self.sigs, self.samples = {}, set(), []
        self.evals = 0
        self.errors = []
        self.notes = []
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.b = build.Builder()

    def quick(self, q, t):
        return t if self.tier == "thorough" else q

    def add(self, key, case, msg, replay):
        self.viols.append((key, case, msg, replay))

    def stat(self, k, v=1):
        self.stats[k] = self.stats.get(k, 0) + v


def _first(text, pats, n=14):
    for p in pats:
        m = re.search(p, text)
        if m:
            return "\n".join(text[m.start():].splitlines()[:n])
    return text[-1200:]


def _sankey(err, rc):
    m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", err)
    if m:
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\s(]+)[^\n]*?(/repo/[^\s:]+)", err)
        return "%s-%s-%s" % (m.group(1), m.group(2), fr[0][0] if fr else "?")
    m = re.search(r"(/[^\s:]+):(\d+):\d+: runtime error: ([^\n]{0,60})", err)
    if m:
        return "UBSan-%s-%s" % (os.path.basename(m.group(1)), re.sub(r"[^A-Za-z]+", "_", re.sub(r"0x[0-9a-f]+|[-\d.e+]+", "", m.group(3)))[:40])
    m = re.search(r"WARNING: ThreadSanitizer: ([\w ]+)", err)
    if m:
        fr = re.findall(r"#\d+ ([^\s(]+)[^\n]*?(/repo/[^\s:]+)", err)
        return "TSan-%s-%s" % (m.group(1).strip().replace(" ", "_"), fr[0][0] if fr else "?")
    m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid \w+|Mismatched|Syscall param|Source and dest)", err)
    if m:
        fr = re.findall(r"==\d+==\s+(?:at|by) 0x[0-9A-F]+: ([\w:~]+)", err[m.start():])
        fr = [f for f in fr if "Ipopt" in f] or fr
        return "valgrind-%s-%s" % (m.group(1).replace(" ", "_"), fr[0].replace(":", "_") if fr else "?")
    return "crash-rc%d" % rc


def _one(cmd, cwd, env, timeout, outf):
    errf = outf + ".err"
    with open(errf, "wb") as ef:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(timeout)
            hung = False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc, hung = -9, True
    with open(errf, "rb") as ef:
        err = ef.read()[-60000:].decode(errors="replace")
    os.unlink(errf)
    lines = []
    if os.path.exists(outf):
        with open(outf, errors="replace") as f:
            lines = f.read().split("\n")
        os.unlink(outf)
    return rc, hung, err, lines


def run_cases(ctx, exe, mode, n, chunk=None, base=0, percase=2.0, env=None, args=(), evals_per_case=True, procs=None, filter_prop=True, as_prop=None, wrap=()):
    """run cases [base, base+n) of the given harness mode"""
    chunk = chunk or max(1, min(200, n // (4 * build.NPROC) or 1))
    e = dict(os.environ); e.update(SAN); e.update(env or {})
    jobs = [(i, min(i + chunk, base + n)) for i in range(base, base + n, chunk)]
    seq = [0]

    def cmd(a, b, outf, wd):
        return list(wrap) + [exe, "--mode", mode, "--prop", as_prop or ctx.prop, "--seed", str(ctx.seed), "--tier", ctx.tier, "--scratch", wd,
                "--from", str(a), "--to", str(b), "--out", outf] + list(args)

    def replay(case):
        return {"property": ctx.prop, "harness": os.path.basename(exe), "mode": mode, "seed": ctx.seed, "case": case,
                "args": list(args), "how": "python3 check.py %s --replay <this file>" % ctx.prop}

    def work(job):
        a, b = job
        res = {"v": [], "s": {}, "h": set(), "x": [], "n": 0, "err": []}
        wd = tempfile.mkdtemp(dir=ctx.scratch)
        try:
            while a < b:
                outf = os.path.join(wd, "out.txt")
                rc, hung, err, lines = _one(cmd(a, b, outf, wd), wd, e, 60 + percase * (b - a), outf)
                begun = ended = None
                done = False
                for l in lines:
                    t = l[:2]
                    if t == "B ":
                        begun = int(l[2:])
                    elif t == "E ":
                        ended = int(l[2:]); res["n"] += 1
                    elif t == "V ":
                        q = l.split(" ", 4)
                        if len(q) == 5 and (q[1] == ctx.prop or not filter_prop):
                            res["v"].append((q[2], int(q[3]), q[4], replay(int(q[3]))))
                    elif t == "S ":
                        q = l.split(" ")
                        v = float(q[2])
                        if q[1].startswith("max:"):
                            res["s"][q[1]] = max(res["s"].get(q[1], 0), v)
                        else:
                            res["s"][q[1]] = res["s"].get(q[1], 0) + v
                    elif t == "H ":
                        res["h"].add(l[2:])
                    elif t == "X ":
                        res["x"].append(l[2:])
                    elif l == "DONE":
                        done = True
                if done and rc == 0:
                    break
                if done and rc != 0:     # died at exit (leak report, static destruction): bisect by re-running singly is costly; attribute to chunk
                    k = _sankey(err, rc)
                    res["v"].append((k, a, "process ended with code %d after all cases of [%d,%d): %s" % (rc, a, b, _first(err, [r"ERROR: \w+Sanitizer", r"runtime error", r"WARNING: Thread"])), replay(a)))
                    break
                if begun is None:
                    res["err"].append("harness did not start: rc=%d %s" % (rc, err[-800:]))
                    break
                if ended == begun:
                    # died between cases
                    res["err"].append("harness died between cases rc=%d %s" % (rc, err[-800:]))
                    break
                # confirm on the case alone, with a longer limit
                rc2, hung2, err2, l2 = _one(cmd(begun, begun + 1, outf, wd), wd, e, 240, outf)
                if "DONE" in l2 and rc2 == 0:
                    if not hung:
                        # not reproducible alone: history dependent crash; still a crash of this execution
                        res["v"].append((_sankey(err, rc), begun, "crash (not reproduced alone) " + _first(err, [r"ERROR: \w+Sanitizer", r"[^\n]*runtime error", r"WARNING: Thread"]), replay(begun)))
                    else:
                        res["s"]["slow_cases"] = res["s"].get("slow_cases", 0) + 1
                        for l in l2:
                            if l.startswith("V "):
                                q = l.split(" ", 4)
                                if q[1] == ctx.prop:
                                    res["v"].append((q[2], int(q[3]), q[4], replay(int(q[3]))))
                elif hung2:
                    res["v"].append(("hang", begun, "no end within 240 s (twice)", replay(begun)))
                else:
                    k = _sankey(err2, rc2)
                    res["v"].append((k, begun, "process died, code %d: %s" % (rc2, _first(err2, [r"ERROR: \w+Sanitizer", r"[^\n]*runtime error", r"WARNING: Thread", r"==\d+== (Cond|Use|Inv|Mism|Sysc|Source)"])), replay(begun)))
                a = begun + 1
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        return res

    with cf.ThreadPoolExecutor(procs or build.NPROC) as ex:
        for r in ex.map(work, jobs):
            for v in r["v"]:
                ctx.add(*v)
            for k, v in r["s"].items():
                if k.startswith("max:"):
                    ctx.stats[k] = max(ctx.stats.get(k, 0), v)
                else:
                    ctx.stats[k] = ctx.stats.get(k, 0) + v
            ctx.sigs |= r["h"]
            if len(ctx.samples) < 12:
                ctx.samples += ["[%s] %s" % (mode, x) for x in r["x"][:1]]
            if evals_per_case:
                ctx.evals += r["n"]
            ctx.errors += r["err"]


def known():
    if not os.path.exists(KNOWN):
        return []
    return json.load(open(KNOWN)).get("findings", [])


def finish(ctx, rule, level="exploration", assumptions=(), need=None):
    shutil.rmtree(ctx.scratch, ignore_errors=True)
    kf = [k for k in known() if k["property"] == ctx.prop and k.get("status") == "known"]
    seen_known, fresh = {}, {}
    for key, case, msg, rep in ctx.viols:
        hit = None
        for k in kf:
            if re.fullmatch(k["key"], key) and re.search(k.get("match", ""), msg):
                hit = k
                break
        if hit:
            seen_known[hit["id"]] = (hit, seen_known.get(hit["id"], (None, 0))[1] + 1)
        else:
            fresh.setdefault(key, []).append((case, msg, rep))
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
        "coverage": {"evaluations": int(ctx.evals), "distinct_nontrivial": len(ctx.sigs), "rule": rule,
                     "samples": ctx.samples[:12] or ["none"],
                     "observed": {k: (int(v) if float(v).is_integer() else v) for k, v in sorted(ctx.stats.items())}},
        "assumptions": list(assumptions), "wall_s": round(time.time() - ctx.t0, 2),
        "violations": sum(len(v) for v in fresh.values()),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in kf:
        n = seen_known.get(k["id"], (None, 0))[1]
        print("KNOWN-FINDING: property=%s %s (%s; seen %d times in this run)" % (ctx.prop, k["id"], k["what"], n))
    print("%s: %d executions, %d distinct, %.1f s" % (ctx.prop, ctx.evals, len(ctx.sigs), time.time() - ctx.t0))
    if fresh:
        rd = os.path.join(VERIF, "replay")
        os.makedirs(rd, exist_ok=True)
        for key, l in sorted(fresh.items())[:25]:
            p = os.path.join(rd, "%s-%s.json" % (ctx.prop, re.sub(r"[^A-Za-z0-9_.-]", "_", key)[:80]))
            with open(p, "w") as f:
                json.dump({"key": key, "count": len(l), "message": l[0][1], "replay": l[0][2],
                           "others": [x[0] for x in l[1:50]]}, f, indent=1)
            print("  %s: %d times; first: case %s: %s" % (key, len(l), l[0][0], l[0][1][:700]))
            print("VIOLATION property=%s replay=%s" % (ctx.prop, p))
        build.prune()
        return 1
    if ctx.errors:
        print("ERROR: " + "\n".join(ctx.errors[:5]))
        return 3
    for k, v in (need or {}).items():
        if ctx.stats.get(k, 0) < v:
            print("INCONCLUSIVE: observed %s=%g, need at least %g" % (k, ctx.stats.get(k, 0), v))
            return 4
    build.prune()
    return 0
