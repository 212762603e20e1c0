#!/usr/bin/env python3
"""Build /repo's current sources under the symbolic shim and under the real
libraries, explore the harness of one property with the solver, replay what it
finds, write the evidence file."""
import sys, os, json, threading, hashlib, subprocess, time, glob, re, fcntl, shutil, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
DIRS = ["conv", "dr", "dr_nd", "hypersurface", "hypersurface_nd", "matrix", "solve_system", "tools", "vec_int64", "wrapper"]
T0 = time.time()

def kill_tree(pid):
    """end what is left of a process group started by pid's children"""
    try:
        for d in os.listdir("/proc"):
            if d.isdigit():
                try:
                    st = open("/proc/%s/stat" % d).read().rsplit(")", 1)[1].split()
                    if int(st[3]) == pid: os.kill(int(d), signal.SIGKILL)   # same session
                except Exception: pass
    except Exception: pass

def sh(cmd, timeout=600, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = -999
        out = b""
    finally:
        try: os.killpg(p.pid, signal.SIGKILL)
        except Exception: pass
        if rc == -999: kill_tree(p.pid)
    if rc == -999:
        try: out, _ = p.communicate(timeout=5)
        except Exception: out = b""
    return rc, (out or b"").decode("utf8", "replace")

def digest(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f: return f.read()

class Builder:
    def __init__(self):
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        shim = sorted(glob.glob(VERIF + "/shim/**/*.h", recursive=True)) + [VERIF + "/engine/engine.h"]
        self.shimh = digest(*[rd(f) for f in shim])
        heads = [f for f in glob.glob(REPO + "/*.h")]
        for d in DIRS:
            for root, dd, ff in os.walk(os.path.join(REPO, d)):
                dd[:] = [x for x in dd if x != "test"]
                heads += [os.path.join(root, x) for x in ff if x.endswith((".h", ".hpp", ".inc", ".tcc"))]
        self.heads = sorted(heads)
        self.repoh = digest(*[f + "\0" + rd(f).decode("utf8", "replace") for f in sorted(heads)])
        self.vh = digest(rd(VERIF + "/harness/vh.h"), *[rd(f) for f in sorted(glob.glob(VERIF + "/harness/*.h"))])
        self.sources = []
        for d in DIRS:
            for root, dd, ff in os.walk(os.path.join(REPO, d)):
                dd[:] = [x for x in dd if x != "test"]
                self.sources += [os.path.join(root, x) for x in ff if x.endswith((".cc", ".cpp", ".cxx"))]
        self.sources.sort()
        self.pool = ThreadPoolExecutor(max_workers=8)
        self.errors = {}
        self.locks, self.guard = {}, threading.Lock()
    def flags(self, mode, cfg):
        if mode == "con":
            if cfg.get("race"): return ["-std=c++11", "-O1", "-g1", "-w", "-fopenmp", "-fsanitize=thread", "-DVERIF_RACE", "-DNTL_RANGE_CHECK", "-I" + REPO]
            return ["-std=c++11", "-O1", "-g1", "-w", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-DNTL_RANGE_CHECK", "-I" + REPO]
        f = ["-std=c++11", "-O1", "-g1", "-w", "-fno-pie"] + ([] if cfg.get("symint") else ["-fopenmp"]) + ["-DNTL_THREADS", "-DSYM_BUILD", "-include", VERIF + "/shim/symntl.h", "-I" + VERIF + "/shim", "-I" + REPO]
        if cfg.get("race"): f += ["-fsanitize=thread", "-DVERIF_RACE"]
        elif cfg.get("asan", True): f += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
        if cfg.get("symint"): f += ["-DSYM_INT"]
        f += ["-finstrument-functions", "-finstrument-functions-exclude-file-list=/verif/,/usr/,shim/,harness/"]
        return f
    def obj(self, src, flags, key):
        out = os.path.join(BUILD, "obj", digest(src, rd(src), " ".join(flags), key) + ".o")
        with self.guard: lock = self.locks.setdefault(out, threading.Lock())
        with lock: return self.compile(src, flags, out)   # two units may need the same object
    def compile(self, src, flags, out):
        if os.path.exists(out): return out
        tmp = out + ".%d.tmp" % os.getpid()
        rc, o = sh(["g++"] + flags + ["-c", src, "-o", tmp], timeout=600)
        if rc != 0 and "-DSYM_INT" in flags: rc, o = self.retry_conditionals(src, flags, tmp, o)
        if rc != 0:
            self.errors[src] = o[-3000:]
            return None
        os.rename(tmp, out)
        return out
    def retry_conditionals(self, src, flags, tmp, o):
        """`c ? word : literal` has the common type of the two words; the symbolic word class cannot say so: spell the conversion out in a scratch copy of the source and of the headers"""
        work = tmp + ".d"; rc = 1; texts = {}
        def load(orig, dst):
            t = re.sub(r"\batomic\s*<\s*int64_t\s*>", "atomic<long>", rd(orig).decode("utf8", "replace"))
            texts[dst] = t.split("\n"); os.makedirs(os.path.dirname(dst), exist_ok=True)
            with open(dst, "w") as f: f.write(t)
        try:
            inrepo = os.path.abspath(src).startswith(os.path.abspath(REPO) + os.sep)
            gen = os.path.join(work, os.path.relpath(src, REPO) if inrepo else os.path.basename(src))
            for h in self.heads: load(h, os.path.join(work, os.path.relpath(h, REPO)))
            load(src, gen)
            inc = ["-I" + work, "-I" + os.path.dirname(gen), "-I" + os.path.dirname(src)]
            rest = [x for x in flags if x != "-I" + REPO]
            for _ in range(60):
                rc, o = sh(["g++"] + rest + inc + ["-I" + REPO, "-fdiagnostics-format=json", "-c", gen, "-o", tmp], timeout=600)
                if rc == 0: return 0, o
                done = False
                for d in json.loads(o[o.index("["):o.rindex("]") + 1]):
                    if d["kind"] != "error": continue
                    fn = os.path.normpath(d["locations"][0]["caret"].get("file", "")) if d["locations"] else ""
                    if fn not in texts: continue
                    if self.plain_word(texts[fn], d) or self.common_type(texts[fn], d):
                        with open(fn, "w") as f: f.write("\n".join(texts[fn]))
                        done = True; break
                if not done: return rc, o
            return rc, o
        except ValueError: return rc, o
        finally: shutil.rmtree(work, ignore_errors=True)
    def common_type(self, text, d):
        m = re.search(r"operands to .\?:. have different types .*SI64.* and .*(int|long|short|char|bool)|operands to .\?:. have different types .(int|long|short|char|bool)[\w ]*\S* and .*SI64", d["message"])
        if not m or "unsigned" in d["message"] or "SLimb" in d["message"]: return False
        l = d["locations"][0]["caret"]; q = sum(len(x.encode()) + 1 for x in text[:l["line"] - 1]) + l["byte-column"] - 1
        b = "\n".join(text).encode(); depth = nest = 0; c = e = None; k = q + 1
        if b[q:q + 1] != b"?": return False
        while k < len(b):   # the middle operand, the colon, the last operand up to the end of the expression
            ch = b[k:k + 1]
            if ch in b"([{": depth += 1
            elif ch in b")]}":
                if depth == 0: e = k; break
                depth -= 1
            elif depth == 0 and ch in b";,": e = k; break
            elif depth == 0 and ch == b"?": nest += 1
            elif depth == 0 and ch == b":":
                if b[k + 1:k + 2] == b":": k += 1
                elif nest: nest -= 1
                elif c is None: c = k
                else: e = k; break
            k += 1
        if c is None or e is None: return False
        b = b[:q + 1] + b" int64_t(" + b[q + 1:c] + b") : int64_t(" + b[c + 1:e] + b")" + b[e:]
        text[:] = b.decode().split("\n")
        return True
    def plain_word(self, text, d):
        """places where the language demands a built-in integer (array bounds, constant expressions, template arguments, atomics)"""
        l = d["locations"][0]["caret"]; k = l["line"] - 1
        if k >= len(text): return False
        msg = d["message"]; old = text[k]
        m = re.search(r"size of array .(\w+). has non-integral type", msg)
        if m: text[k] = re.sub(r"(\b%s\s*\[)(?!\(long\)\()([^\[\]]+)\]" % re.escape(m.group(1)), r"\1(long)(\2)]", old)
        elif re.search(r"(parameter|return) .*constexpr. function|constexpr. function.* (parameter|return)", msg) and "SI64" in msg: text[k] = re.sub(r"\bconstexpr\b", "", old)
        elif "non-type template parameters of class type" in msg: text[k] = re.sub(r"([<,]\s*)int64_t\b", r"\1long", old, count=1)
        elif "SI64" in msg and re.search(r"constexpr|not literal|non-integral type|in-class initialization|template non-type parameter|must be an integral type|std::atomic|constant expression", msg): text[k] = re.sub(r"\bint64_t\b", "long", old)
        return text[k] != old
    def plain(self, s, mode, fl):
        if s.endswith("/gomp.cc"): return [x for x in fl if x.startswith(("-std", "-O", "-g", "-w", "-fno-pie", "-DVERIF"))]
        if s.endswith(("/main_%s.cc" % mode, "/runtime.cc")): return [x for x in fl if not x.startswith("-finstrument") and x != "-fsanitize=thread"]
        return fl
    def start(self, mode, cfg, files):
        """returns futures"""
        fl = self.flags(mode, cfg)
        key = self.repoh + (self.shimh if mode == "sym" else "")
        r = [self.pool.submit(self.obj, s, fl, key) for s in self.sources]
        h = [self.pool.submit(self.obj, s, self.plain(s, mode, fl), key + self.vh) for s in files]
        return r, h
    def engine(self):
        src = VERIF + "/engine/engine.cc"
        return self.pool.submit(self.obj, src, ["-O2", "-std=c++17", "-w", "-fno-pie"], digest(rd(VERIF + "/engine/engine.h")))
    def link(self, mode, cfg, repo_objs, objs, out):
        robj = [o for o in repo_objs if o]
        ar = out + ".a"
        if os.path.exists(ar): os.unlink(ar)
        rc, o = sh(["ar", "rcs", ar] + robj)
        if rc: return o
        cmd = ["g++"] + (["-no-pie"] if mode == "sym" else []) + objs + ["-Wl,--start-group", ar, "-Wl,--end-group", "-o", out]
        if not cfg.get("race") and (mode == "con" or cfg.get("asan", True)): cmd += ["-fsanitize=address,undefined"]
        cmd += ["-lz3", "-lgmpxx", "-lgmp", "-lpthread"] if mode == "sym" else ([] if cfg.get("race") else ["-fopenmp"]) + ["-lntl", "-lflint", "-lgmp", "-lpthread"]
        rc, o = sh(cmd)
        return None if rc == 0 else o

def names_of(exe, addrs):
    if not addrs: return []
    rc, o = sh(["nm", "-C", exe])
    tab = {}
    for l in o.splitlines():
        m = re.match(r"^([0-9a-f]+) [tTwW] (.*)$", l)
        if m: tab[int(m.group(1), 16)] = m.group(2)
    res = sorted({re.sub(r"\[abi:.*?\]", "", tab.get(int(a, 16), a)) for a in addrs})
    return [r for r in res if not r.startswith(("_GLOBAL__", "__static_init")) and "harness" not in r]

CON_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=77:print_stacktrace=0", OMP_NUM_THREADS="4")

def replay(exe, tier, inp, limit):
    """0 held, 11 outside assumptions, otherwise a description of the failure"""
    rc, o = sh([exe, "--tier", tier] + ([inp] if inp else []), timeout=limit, env=CON_ENV, cwd=os.path.dirname(exe))
    if rc in (0, 11): return rc, "", o
    if rc == 10:
        m = re.findall(r"PROPERTY-FAILED: (.*)", o)
        return 10, m[-1] if m else "assertion of the property failed", o
    if rc == -999: return -999, "does not terminate within %d s" % limit, o
    if rc == 77 or "AddressSanitizer" in o or "runtime error:" in o:
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*)", o)
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\s(]+)[^\n]*?(/repo/[^\s:]+)?", o)
        return 77, "memory or undefined-behaviour error: " + (m.group(1) if m else ""), o
    m = re.findall(r"([^\n]*[Aa]ssert[^\n]*|[^\n]*error[^\n]*)", o)
    return rc, "stopped abnormally (status %d): %s" % (rc, m[-1].strip() if m else ""), o

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    allcfg = json.load(open(VERIF + "/vp/checks.json"))
    cfg = allcfg[pid]
    units = cfg["units"]
    if only: units = [u for u in units if u["harness"] == only]
    known = [k for k in json.load(open(VERIF + "/known_findings.json")) if k.get("property") == pid and k.get("status") == "open"]
    work = os.path.join(BUILD, "run", pid + "." + str(os.getpid()))
    os.makedirs(work, exist_ok=True)
    rdir = os.path.join(VERIF, "replay"); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + "-*")): os.unlink(f)
    if "--budget" in sys.argv: cfg["budget"] = {tier: float(sys.argv[sys.argv.index("--budget") + 1])}; [u.pop("budget", 0) for u in units]
    total_budget = cfg.get("budget", {}).get(tier, 200 if tier == "quick" else 600)
    ev_units, violations, findings, unconfirmed, traces, samples = [], [], [], [], 0, []
    b = Builder()
    eng = b.engine()
    jobs = []
    for u in units:
        hs = VERIF + "/harness/" + u["harness"] + ".cc"
        s = b.start("sym", u, [hs, VERIF + "/harness/main_sym.cc", VERIF + "/shim/runtime.cc", VERIF + "/shim/gomp.cc"])
        jobs.append((u, s))
    con = {}
    for u in units:
        con[u["harness"]] = b.start("con", u, [VERIF + "/harness/" + u["harness"] + ".cc", VERIF + "/harness/main_con.cc"] + ([VERIF + "/shim/gomp.cc"] if u.get("race") else []))
    engobj = eng.result()
    exes = []
    for u, (r, h) in jobs:
        name = u["harness"]
        robj = [f.result() for f in r]; hobj = [f.result() for f in h]
        exe = os.path.join(work, name + ".sym"); err = None
        bad = [k for k in b.errors if k.startswith(REPO)]
        if bad: print("NOTE: not compilable for symbolic execution: " + ", ".join(bad) + "\n" + b.errors[bad[0]][-1500:])
        if not all(hobj) or not engobj: err = "harness does not compile: " + json.dumps({k: v for k, v in b.errors.items() if "/harness/" in k or "/engine/" in k or "/shim/" in k})[:3000]
        else: err = b.link("sym", u, robj, hobj + [engobj], exe)
        cr, ch = con[name]
        crobj = [f.result() for f in cr]; chobj = [f.result() for f in ch]
        cexe = os.path.join(work, name + ".con"); cerr = None
        if not all(chobj): cerr = "concrete harness does not compile: " + json.dumps({k: v for k, v in b.errors.items() if "/harness/" in k})[:2000]
        else: cerr = b.link("con", u, crobj, chobj, cexe)
        exes.append((u, exe, err, cexe, cerr))
    build_s = time.time() - T0
    spent = 0
    def confirm(u, cexe, inp, what, tag):
        nonlocal traces
        rc, msg, o = replay(cexe, tier, inp, u.get("replay_limit", 120))
        if rc == 0: traces += 1
        if rc in (0, 11): return False
        if rc == -999 and tag == "cand": return False
        for k in known:
            if re.search(k["match"], msg) and (not k.get("harness") or k["harness"] == u["harness"]):
                if k["id"] not in findings:
                    findings.append(k["id"]); print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]), flush=True)
                return "known"
        n = len(violations)
        dst = os.path.join(rdir, "%s-%d.in" % (pid, n))
        with open(dst, "w") as f:
            f.write("# harness %s, tier %s\n# solver: %s\n# real code: %s\n" % (u["harness"], tier, what, msg))
            if inp: f.write(open(inp).read())
        with open(dst + ".log", "w") as f: f.write(o[-20000:])
        violations.append({"harness": u["harness"], "solver": what, "real_code": msg, "replay": dst})
        print("VIOLATION property=%s replay=%s" % (pid, dst), flush=True)
        print("  " + msg, flush=True)
        return True
    try:
        for i, (u, exe, err, cexe, cerr) in enumerate(exes):
            name = u["harness"]; rec = {"harness": name, "bounds": u.get("bounds", {}).get(tier, u.get("bounds", {}).get("quick", "")) if isinstance(u.get("bounds"), dict) else u.get("bounds", "")}
            ev_units.append(rec)
            if cerr: rec["replay_build_error"] = cerr[-2000:]
            if err:
                rec["encoding_error"] = err[-2000:]
                print("NOTE: %s %s could not be encoded on this tree: %s" % (pid, name, err[-400:].replace("\n", " ")), flush=True)
                if not cerr: confirm(u, cexe, None, "default inputs (no encoding)", "wit")
                continue
            out = os.path.join(work, name); os.makedirs(out, exist_ok=True)
            hard = 860 - (time.time() - T0) - 60
            share = u.get("budget", {}).get(tier) or max(20, (total_budget - spent) / (len(exes) - i))
            share = max(5, min(share, hard))
            t1 = time.time()
            args = [exe, "--out", out, "--budget", str(share), "--tier", tier] + (["--rlimit", str(u["rlimit"])] if "rlimit" in u else []) + (["--procs", str(u["procs"])] if "procs" in u else [])
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigbus=0:handle_sigill=0:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1")
            rc, o = sh(args, timeout=share + 60, env=env, cwd=out)
            spent += time.time() - t1
            sm = {}
            try: sm = json.load(open(os.path.join(out, "summary.json")))
            except Exception: rec["exploration_error"] = "no summary (status %d) %s" % (rc, o[-500:])
            rec.update({k: v for k, v in sm.items() if k != "functions"})
            rec["functions_encoded"] = names_of(exe, sm.get("functions", []))
            want = set(u.get("marks", []))
            missing = sorted(want - set(sm.get("marks", {})))
            if missing: rec["unreached_marks"] = missing
            if cerr: continue
            cands = sorted(glob.glob(out + "/cand.*.in"), key=lambda p: int(p.split(".")[-2]))
            seen = {}
            for c in cands:
                what = open(c).readline()[2:].strip()
                if seen.get(what) or len(violations) >= 5: continue
                r = confirm(u, cexe, c, what, "cand")
                if r: seen[what] = True
                else: unconfirmed.append({"harness": name, "message": what, "input": open(c).read()[:600]})
            wits = sorted(glob.glob(out + "/wit.*.in"))
            if not wits and not cands: confirm(u, cexe, None, "default inputs", "wit")
            for k, w in enumerate(wits):
                if time.time() - T0 > 820 or len(violations) >= 5: break
                confirm(u, cexe, w, "solver model of a passing path", "wit")
                if len(samples) < 6 and k < 2: samples.append({"harness": name, "model": open(w).read()[:500]})
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(work, ignore_errors=True)
    tot = lambda k: int(sum(r.get(k, 0) or 0 for r in ev_units))
    cov = {"states": tot("paths"), "transitions": tot("branches") + tot("forks"), "traces_validated_against_impl": traces,
           "samples": samples or [{"note": "no symbolic inputs: single concrete path"}],
           "obligations": tot("obligations"), "discharged": tot("discharged"), "undecided": tot("undecided"),
           "solver_queries": tot("queries"), "solver_sat": tot("sat"), "solver_unsat": tot("unsat"), "solver_unknown": tot("unknown"),
           "solver_seconds": round(sum(r.get("solver_s", 0) or 0 for r in ev_units), 3), "build_seconds": round(build_s, 1),
           "unconfirmed_candidates": unconfirmed, "units": ev_units, "known_findings_seen": findings,
           "complete_within_bounds": bool(ev_units) and all(r.get("incomplete", 1) == 0 and "encoding_error" not in r for r in ev_units)}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "model_checking"), "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + allcfg.get("_assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": len(violations)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % pid, "w") as f: json.dump(ev, f, indent=1)
    if not violations:
        print("OK property=%s paths=%d obligations=%d discharged=%d queries=%d incomplete=%d unconfirmed=%d replays=%d wall=%.0fs" % (pid, cov["states"], cov["obligations"], cov["discharged"], cov["solver_queries"], tot("incomplete"), len(unconfirmed), traces, ev["wall_s"]))
    if violations: return 1
    # nothing explored is no answer
    dead = [r["harness"] for r in ev_units if "encoding_error" in r or "exploration_error" in r or not r.get("paths") and not r.get("aborted_paths")]
    if dead:
        print("NOTE: property=%s no answer, nothing explored for %s" % (pid, ", ".join(dead)), flush=True)
        return 2
    return 0

def prebuild():
    """compile everything once so that the checks only recompile what changed"""
    allcfg = json.load(open(VERIF + "/vp/checks.json")); b = Builder(); jobs = [b.engine()]; done = set()
    for pid, cfg in allcfg.items():
        if pid.startswith("_"): continue
        for u in cfg["units"]:
            hs = VERIF + "/harness/" + u["harness"] + ".cc"
            for mode, common in (("sym", [VERIF + "/harness/main_sym.cc", VERIF + "/shim/runtime.cc", VERIF + "/shim/gomp.cc"]), ("con", [VERIF + "/harness/main_con.cc"] + ([VERIF + "/shim/gomp.cc"] if u.get("race") else []))):
                k = mode + " ".join(b.flags(mode, u))
                if k not in done: r, h = b.start(mode, u, [hs] + common); jobs += r + h; done.add(k)
                else: jobs.append(b.pool.submit(b.obj, hs, b.flags(mode, u), b.repoh + (b.shimh if mode == "sym" else "") + b.vh))
    n = sum(1 for j in jobs if j.result())
    print("prebuilt %d of %d objects" % (n, len(jobs)))
    for k, v in b.errors.items(): print("NOTE: " + k + " does not compile\n" + v[-800:])
    return 0

if __name__ == "__main__":
    try: rc = prebuild() if sys.argv[1:] == ["--prebuild"] else main()
    except SystemExit as e: raise
    except Exception as e:
        import traceback; traceback.print_exc(); print("NOTE: internal error of the check, nothing decided"); rc = 3
    sys.exit(rc)
