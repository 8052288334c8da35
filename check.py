#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real code.

usage: check.py <PROPERTY> [--tier quick|thorough] [--entry NAME ...] [-v]
       check.py --replay <file.json>

Every harness lives in harness/<PROPERTY>_*.cpp.  The harness and the sources of
/repo it needs are lowered to LLVM IR from the current working tree, symx explores
every path with symbolic inputs and asks Z3 for each assertion, memory access and
arithmetic side condition; each counterexample is replayed on a native
g++ ASan+UBSan build of the same harness and sources before it is reported.
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SYMX_REPO", "/repo")
B = os.path.join(V, "_build")
SYMX = os.path.join(B, "symx")
CLANG = "/usr/bin/clang++-18"
JOBS = min(8, os.cpu_count() or 8)
T0 = time.time()

COMMON = ["-std=gnu++14", "-w", "-DEIGEN_DONT_VECTORIZE", "-U_FORTIFY_SOURCE", "-fno-strict-aliasing",
          "-ffp-contract=off", "-include", "unistd.h"]
IRFLAGS = ["-O1", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-emit-llvm", "-c", "-fno-pie", "-fno-pic", "-fno-builtin", "-U__OPTIMIZE__"]
IRSAN = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,float-cast-overflow",
         "-fsanitize-trap=all"]
NATFLAGS = ["-O1", "-g", "-fno-omit-frame-pointer", "-fno-lifetime-dse", "-c",
            "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr",
            "-fno-sanitize-recover=all"]


def incs(native):
    r = ["-I" + V + "/rt"]
    if not native:
        r.append("-I" + V + "/rt/inc")
    r.append("-I" + V + "/stubs")
    r += ["-I" + d for d in sorted(glob.glob(REPO + "/ecl_*/include"))]
    # the tree's own sources include siblings relative to themselves; nothing else is needed
    r.append("-I/usr/include/eigen3")
    r.append("-I" + REPO)
    return r


def run(cmd, timeout=None, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
                         start_new_session=True, text=True, errors="replace")
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


class Harness:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-4]
        self.src, self.cflags, self.bounds, self.assume, self.cfg = [], [], [], [], ["rel"]
        self.defaults = {}
        self.entries = {}
        self.outside = []
        text = open(path).read()
        for m in re.finditer(r"^//@\s*(\w+)\s*(.*)$", text, re.M):
            k, v = m.group(1), m.group(2).strip()
            if k == "src":
                self.src += v.split()
            elif k == "cflags":
                self.cflags += v.replace("$V", V).split()
            elif k == "bound":
                self.bounds.append(v)
            elif k == "assume":
                self.assume.append(v)
            elif k == "outside":
                self.outside.append(v)
            elif k == "config":
                self.cfg = v.split(",")
            elif k == "default":
                self.defaults.update(x.split("=", 1) for x in v.split())
            elif k == "entry":
                w = v.split()
                self.entries[w[0]] = dict(x.split("=", 1) for x in w[1:])
        for m in re.finditer(r"^\s*(?:HARNESS|TYPED_HARNESS)\((\w+)\)", text, re.M):
            self.entries.setdefault(m.group(1), {})
        for m in re.finditer(r"^\s*INST\((\w+)\s*[,)]", text, re.M):
            self.entries.setdefault(m.group(1), {})
        for k in self.entries:
            d = dict(self.defaults)
            d.update(self.entries[k])
            self.entries[k] = d


class Build:
    """IR and native builds of one harness in one configuration."""

    def __init__(self, h, cfg, tier, work):
        self.h, self.cfg, self.tier = h, cfg, tier
        self.dir = os.path.join(work, h.name + "-" + cfg)
        os.makedirs(self.dir, exist_ok=True)
        self.native = {}
        self.err = ""

    def defs(self):
        d = ["-DNDEBUG"] if self.cfg == "rel" else []
        if self.cfg == "noexc":
            d = ["-DNDEBUG", "-DECL_DISABLE_EXCEPTIONS"]
        if self.cfg == "mem":
            d = ["-DECL_MEM_CHECK_ARRAYS"]
        if self.tier == "thorough":
            d.append("-DSYMX_THOROUGH")
        return d + self.h.cflags

    def ir(self):
        jobs = []
        hb = os.path.join(self.dir, "h.bc")
        jobs.append([CLANG] + COMMON + IRFLAGS + IRSAN + self.defs() + incs(False) + [self.h.path, "-o", hb])
        out = [hb]
        for i, s in enumerate(self.h.src):
            o = os.path.join(self.dir, "s%d.bc" % i)
            jobs.append([CLANG] + COMMON + IRFLAGS + IRSAN + self.defs() + incs(False) + [os.path.join(REPO, s), "-o", o])
            out.append(o)
        rt = os.path.join(self.dir, "rt.bc")
        jobs.append([CLANG] + COMMON + IRFLAGS + ["-DNDEBUG"] + incs(False) + [os.path.join(V, "rt/rt.cpp"), "-o", rt])
        with cf.ThreadPoolExecutor(4) as ex:
            for rc, o, e in ex.map(lambda c: run(c, 600), jobs):
                if rc != 0:
                    self.err += e
        self.mods = out
        self.rt = rt
        return not self.err

    def nat(self, variant="zero"):
        """variant: zero | pattern (value given to uninitialised automatic storage)"""
        if variant in self.native:
            return self.native[variant]
        d = os.path.join(self.dir, "nat-" + variant)
        os.makedirs(d, exist_ok=True)
        tab = os.path.join(d, "tab.cpp")
        with open(tab, "w") as f:
            for e in self.h.entries:
                f.write('extern "C" void %s();\n' % e)
            f.write("typedef void(*Fn)(); struct Entry{const char*name;Fn fn;};\nextern Entry symx_entries[];\nEntry symx_entries[]={")
            for e in self.h.entries:
                f.write('{"%s",%s},' % (e, e))
            f.write("{0,0}};\n")
        init = {"none": [], "zero": ["-ftrivial-auto-var-init=zero"], "pattern": ["-ftrivial-auto-var-init=pattern"]}[variant]
        jobs, objs = [], []
        for i, s in enumerate([self.h.path] + [os.path.join(REPO, x) for x in self.h.src]):
            o = os.path.join(d, "o%d.o" % i)
            objs.append(o)
            jobs.append(["g++"] + COMMON + NATFLAGS + init + self.defs() + incs(True) + [s, "-o", o])
        rt = []
        for s in (os.path.join(V, "rt/native.cpp"), tab):
            o = os.path.join(d, os.path.basename(s) + ".o")
            rt.append(o)
            jobs.append(["g++"] + COMMON + ["-O1", "-g", "-c", "-fsanitize=address"] + incs(True) + [s, "-o", o])
        ok, msg = True, ""
        with cf.ThreadPoolExecutor(4) as ex:
            for rc, o, e in ex.map(lambda c: run(c, 600), jobs):
                if rc != 0:
                    ok, msg = False, msg + e
        if ok:
            syms = set()
            for o in objs:
                rc, out, e = run(["nm", "--defined-only", o])
                syms |= {m.group(1) for m in re.finditer(r" T fk_(\w+)$", out, re.M)}
            if syms:
                ren = os.path.join(d, "ren")
                open(ren, "w").write("".join("%s fk_%s\n" % (s, s) for s in sorted(syms)))
                for o in objs:
                    run(["objcopy", "--redefine-syms=" + ren, o])
            exe = os.path.join(d, "replay")
            rc, o, e = run(["g++", "-fsanitize=address,undefined", "-o", exe] + objs + rt + ["-lpthread", "-lrt"], 600)
            if rc != 0:
                ok, msg = False, e
        self.native[variant] = (exe if ok else None, msg)
        return self.native[variant]

    def replay(self, entry, inputs, variant="zero", fill=None, timeout=15):
        exe, msg = self.nat(variant)
        if not exe:
            return {"rc": "nobuild", "out": msg[-2000:]}
        fd, cex = tempfile.mkstemp(dir=self.dir, suffix=".cex")
        with os.fdopen(fd, "w") as f:
            for n, w, hx in inputs:
                f.write("%s %d %s\n" % (n.replace(" ", "_"), w, hx))
        scratch = tempfile.mkdtemp(dir=self.dir)
        env = dict(os.environ)
        ao = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0:detect_odr_violation=0:detect_invalid_pointer_pairs=0:handle_abort=1:max_free_fill_size=4096:free_fill_byte=165"
        if fill is not None:
            ao += ":max_malloc_fill_size=1048576:malloc_fill_byte=%d" % fill
        env["ASAN_OPTIONS"] = ao
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=66"
        rc, o, e = run([exe, entry, cex], timeout, env, scratch)
        shutil.rmtree(scratch, ignore_errors=True)
        os.unlink(cex)
        return {"rc": "hang" if rc is None else rc, "out": o, "err": e}


def classify(r):
    """native run -> (failed?, text)"""
    rc = r["rc"]
    if rc == "nobuild":
        return False, "native build failed: " + r["out"]
    if rc == "hang":
        return True, "does not terminate within 15 s"
    if rc == 0:
        return False, "ran to completion"
    if rc == 77:
        m = re.search(r"SYMX-ASSERT (.*)", r["out"])
        return True, "assertion " + (m.group(1) if m else "?")
    if rc == 78:
        return False, "assumption not met"
    if rc == 79:
        return True, "deadlock"
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|terminate called[^\n]*)", r.get("err", ""))
    if rc == 3:
        return False, "no such entry"
    return True, m.group(1) if m else "abnormal exit %s %s" % (rc, r.get("err", "")[-200:])


def run_entry(b, e, opts, deadline):
    lim = float(opts.get("time", 120))
    lim = max(5.0, min(lim, deadline - time.time()))
    out = os.path.join(b.dir, e + ".json")
    cmd = [SYMX, "--entry", e, "--out", out, "--time", str(lim), "--traces", opts.get("traces", "8"), "--cex", opts.get("cex", "2")]
    for k, f in (("theory", "--theory"), ("instr", "--max-instr"), ("paths", "--max-paths"), ("depth", "--max-depth"),
                 ("t1", "--t1"), ("t2", "--t2"), ("t3", "--t3")):
        if k in opts:
            cmd += [f, opts[k]]
    if opts.get("fperr") == "0":
        cmd.append("--no-fperr")
    cmd += b.mods + [b.rt]
    t = time.time()
    if not os.path.exists(os.path.join(b.dir, "h.bc")):
        return None
    rc, o, er = run(cmd, lim + 90)
    try:
        j = json.load(open(out))
    except Exception as ex:
        j = {"entry": e, "error": "symx ended with %s: %s" % (rc, (er or "")[-800:]), "paths": 0, "violations": [],
             "inconclusive": {"engine failure": 1}, "traces": [], "reached": {}, "discharged": {}, "failed": {},
             "unknown_asserts": {}, "instructions": 0, "queries": 0, "solver_time": 0, "repo_functions": [], "repo_lines": {},
             "externals": [], "assert_checks": 0, "mem_checks": 0, "ub_checks": 0, "z3_calls": 0, "tags": {}, "timeout": True,
             "sat": 0, "unsat": 0, "unknown": 0}
    j["cfg"] = b.cfg
    j["wall"] = time.time() - t
    return j


def load_known(prop):
    r = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) id=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3), m.group(4)))
    return r


def vkey(v):
    if v["kind"] == "assert":
        return v["id"].replace(" ", "_")
    fn = v["stack"][0].split(" ")[0] if v.get("stack") else ""
    return (v["kind"] + ":" + v["id"] + "@" + fn).replace(" ", "_")


def confirm(b, v, entry):
    tries = [("zero", None)]
    if v.get("uninit"):
        f = int(v.get("fill", 0))
        tries = [("zero", f), ("pattern", f), ("zero", 0), ("pattern", 190), ("zero", 255), ("pattern", 1), ("none", f), ("none", None)]
    last = ""
    for var, fill in tries:
        r = b.replay(entry, v["inputs"], var, fill)
        bad, txt = classify(r)
        if bad:
            return True, txt + ("" if fill is None else " (uninitialised heap bytes = 0x%02x, stack init %s)" % (fill, var)), var, fill
        last = txt
    return False, last, None, None


def check(prop, tier, only, verbose):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    hs = [Harness(p) for p in sorted(glob.glob(os.path.join(V, "harness", prop + "_*.cpp")))]
    if not hs:
        print("no harness for " + prop)
        return 2
    if not os.path.exists(SYMX):
        subprocess.check_call(["bash", os.path.join(V, "engine/build.sh")])
    os.makedirs(B, exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=B)
    budget = 780 if tier == "quick" else 7200
    deadline = T0 + (560 if tier == "quick" else 6000)
    try:
        return check2(prop, tier, only, verbose, seed, hs, work, deadline, T0 + budget)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check2(prop, tier, only, verbose, seed, hs, work, deadline, hard):
    builds = {}
    for h in hs:
        cfgs = set(h.cfg)
        for o in h.entries.values():
            cfgs |= set(o.get("cfg", ",".join(h.cfg)).split(","))
        for c in cfgs:
            builds[h.name, c] = Build(h, c, tier, work)
    tasks = []
    for h in hs:
        for e, o in h.entries.items():
            if only and e not in only:
                continue
            if o.get("tier") == "thorough" and tier != "thorough" and not only:
                continue
            oo = dict(o)
            if tier == "thorough":
                oo["time"] = o.get("ttime", str(float(o.get("time", 120)) * 6))
            for c in o.get("cfg", ",".join(h.cfg)).split(","):
                tasks.append((builds[h.name, c], e, oo))
    tasks.sort(key=lambda t: -float(t[2].get("time", 120)))
    bad_builds = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for b, ok in zip(builds.values(), ex.map(lambda b: b.ir(), builds.values())):
            if not ok:
                bad_builds.append(b)
    for b in bad_builds:
        print("harness %s (%s) does not compile against the current tree:\n%s" % (b.h.name, b.cfg, b.err[:3000]))
    if len(bad_builds) == len(builds):
        return 2
    results = []
    natfut = {}
    with cf.ThreadPoolExecutor(JOBS + 1) as ex:
        fs = {ex.submit(run_entry, b, e, o, deadline): (b, e, o) for b, e, o in tasks if b not in bad_builds}
        for b in builds.values():
            if b not in bad_builds:
                natfut[b.h.name, b.cfg] = ex.submit(b.nat, "zero")
        for f in cf.as_completed(fs):
            b, e, o = fs[f]
            j = f.result()
            results.append((b, e, o, j))
            if verbose:
                print("  %-28s %-4s paths %-6d instr %-9d q %-6d z3 %-6d unk %-3d %6.1fs solver %6.1fs %s%s" % (
                    e, b.cfg, j["paths"], j["instructions"], j["queries"], j["z3_calls"], j["unknown"], j["wall"], j["solver_time"],
                    "TIMEOUT " if j["timeout"] else "", "viol %d " % len(j["violations"]) if j["violations"] else ""))
                if j["inconclusive"] or j.get("error"):
                    print("      inconclusive:", json.dumps(j["inconclusive"])[:600], j.get("error", "")[:800])
                if j["unknown_asserts"]:
                    print("      unknown asserts:", j["unknown_asserts"])
                if not j["reached"]:
                    print("      WARNING: no assertion reached")
                sys.stdout.flush()
        for f in natfut.values():
            f.result()
    # replay
    known = load_known(prop)
    viol, knownhit, unconfirmed, mism = [], {}, [], []
    rdir = os.path.join(V, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for p in glob.glob(os.path.join(rdir, prop + "-*.json")):
        os.unlink(p)

    def save(b, e, v, txt, var, fill):
        p = os.path.join(rdir, "%s-%s-%s-%d.json" % (prop, e, b.cfg, len(os.listdir(rdir))))
        json.dump({"property": prop, "harness": os.path.relpath(b.h.path, V), "entry": e, "cfg": b.cfg, "tier": tier, "variant": var,
                   "fill": fill, "inputs": v["inputs"], "what": vkey(v), "where": v.get("where", ""), "stack": v.get("stack", []),
                   "native": txt}, open(p, "w"), indent=1)
        return p

    confirmed_keys = {}
    hung = set()
    for b, e, o, j in sorted(results, key=lambda r: (r[1], r[0].cfg)):
        for v in j["violations"]:
            k = (e, b.cfg, vkey(v))
            if k in confirmed_keys:
                continue
            if v["kind"] == "hang" and ((e, b.cfg) in hung or len(hung) > 3):
                continue  # one is enough: each replay waits out its time limit
            if time.time() > hard:
                unconfirmed.append((e, vkey(v), "no time left to replay"))
                continue
            ok, txt, var, fill = confirm(b, v, e)
            if not ok:
                unconfirmed.append((e, b.cfg, vkey(v), v.get("where", ""), txt[-300:], v["inputs"]))
                continue
            confirmed_keys[k] = 1
            kn = [x for x in known if x[0] in (e, "*") and x[1] == vkey(v)]
            if kn:
                knownhit.setdefault((kn[0][0], kn[0][1]), kn[0][2])
                continue
            viol.append((e, b.cfg, v, txt, save(b, e, v, txt, var, fill)))
            if v["kind"] == "hang":
                hung.add((e, b.cfg))
    unconfirmed = [u for u in unconfirmed if len(u) < 4 or (u[0], u[1], u[2]) not in confirmed_keys]
    ntr = 0
    samples = []
    jobs = [(b, e, t) for b, e, o, j in results for t in j["traces"]]

    def val(x):
        b, e, t = x
        if time.time() > hard:
            return None
        return b.replay(e, t["inputs"])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for (b, e, t), r in zip(jobs, ex.map(val, jobs)):
            if r is None:
                continue
            outs = re.findall(r"SYMX-OUT (\S+) ([0-9A-F]+)", r["out"])
            want = [(n, h) for n, h in t["outs"]]
            norm = lambda l: [(n, int(h or "0", 16)) for n, h in l]
            if r["rc"] == 0 and norm(outs) == norm(want):
                ntr += 1
                if len(samples) < 6 and (not samples or samples[-1]["entry"] != e):
                    samples.append({"entry": e, "cfg": b.cfg, "inputs": t["inputs"][:24], "outputs": t["outs"][:24]})
            else:
                bad, txt = classify(r)
                if bad and r["rc"] == 77:
                    # a solver-generated path input on which the real build fails an assertion
                    v = {"kind": "assert", "id": txt.replace("assertion ", ""), "inputs": t["inputs"], "where": "", "stack": []}
                    if (e, b.cfg, vkey(v)) not in confirmed_keys and not [x for x in known if x[0] in (e, "*") and x[1] == vkey(v)]:
                        ok, txt2, var, fill = confirm(b, v, e)
                        if ok:
                            confirmed_keys[e, b.cfg, vkey(v)] = 1
                            viol.append((e, b.cfg, v, txt2, save(b, e, v, txt2, var, fill)))
                mism.append({"entry": e, "cfg": b.cfg, "rc": r["rc"], "native": txt if bad else str(outs[:10]), "engine": t["outs"][:10],
                             "inputs": t["inputs"][:12]})
    # evidence
    tot = lambda k: int(sum(j.get(k, 0) for _, _, _, j in results))
    fns, lines = {}, {}
    for _, _, _, j in results:
        for f in j["repo_functions"]:
            fns[f] = 1
        for f, n in j["repo_lines"].items():
            lines[f] = max(lines.get(f, 0), n)
    inc = {}
    for b, e, o, j in results:
        for k, n in j["inconclusive"].items():
            inc["%s: %s" % (e, k)] = inc.get("%s: %s" % (e, k), 0) + n
        for k, n in j["unknown_asserts"].items():
            inc["%s: assertion %s undecided" % (e, k)] = n
        if j["timeout"]:
            inc["%s: time limit, remaining paths unexplored" % e] = 1
    cov = {
        "states": max(tot("paths"), 1), "transitions": tot("instructions"), "traces_validated_against_impl": ntr,
        "samples": samples,
        "method": "forking symbolic execution of LLVM IR regenerated from /repo on this run; one Z3 query per branch, memory access, arithmetic side condition and assertion",
        "states_meaning": "symbolic paths explored to the end", "transitions_meaning": "IR instructions executed symbolically",
        "entries": [{"entry": e, "cfg": b.cfg, "paths": j["paths"], "assertions_reached": j["reached"], "discharged": j["discharged"],
                     "failed": j["failed"], "instructions": j["instructions"], "queries": j["queries"], "z3_calls": j["z3_calls"],
                     "sat": j["sat"], "unsat": j["unsat"], "unknown": j["unknown"], "solver_s": round(j["solver_time"], 2),
                     "wall_s": round(j["wall"], 2), "timeout": j["timeout"], "tags": j["tags"]} for b, e, o, j in results],
        "queries_discharged": tot("unsat"), "queries": tot("queries"), "solver_s": round(sum(j["solver_time"] for _, _, _, j in results), 2),
        "assert_checks": tot("assert_checks"), "memory_access_checks": tot("mem_checks"), "arithmetic_ub_checks": tot("ub_checks"),
        "functions_encoded": sorted(fns), "repo_lines_encoded": dict(sorted(lines.items())),
        "bounds": sum((h.bounds for h in hs), []), "outside_the_claim": sum((h.outside for h in hs), []),
        "inconclusive": inc, "unconfirmed_counterexamples": [list(u) for u in unconfirmed][:20], "trace_mismatches": mism[:20],
        "harness_build_failures": [b.h.name + " " + b.cfg for b in bad_builds],
        "known_findings_seen": [list(k) + [t] for k, t in knownhit.items()],
        "exhaustive_within_bounds": not inc and not unconfirmed and not bad_builds,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": sum((h.assume for h in hs), []) + [
              "LLVM 18 front end at -O1, x86-64 data layout; the symx executor and its models of libc/libstdc++ (rt/rt.cpp); Z3",
              "memory allocation succeeds unless the harness injects a failure"],
          "wall_s": round(time.time() - T0, 2), "violations": len(viol)}
    if not only:
        json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    if verbose:
        su = set()
        for u in unconfirmed:
            if (u[0], u[2]) not in su:
                su.add((u[0], u[2]))
                print("  UNCONFIRMED", str(u)[:500])
        for m in mism[:8]:
            print("  MISMATCH", json.dumps(m)[:900])
    for (e, i), t in sorted(knownhit.items()):
        print("KNOWN-FINDING: property=%s %s %s: %s" % (prop, e, i, t))
    groups = {}
    for x in viol:
        groups.setdefault(vkey(x[2]), []).append(x)
    for k, g in groups.items():
        e, c, v, txt, p = g[0]
        print("%s (%s)%s: %s %s at %s; replay: %s" % (e, c, "" if len(g) == 1 else " and %d more" % (len(g) - 1), v["kind"], v["id"], v.get("where", ""), txt))
        if verbose:
            print("     inputs", v["inputs"][:20])
            print("     stack ", v.get("stack", [])[:6])
    order = [g[0] for g in groups.values()]
    order += [x for x in viol if x not in order]
    for e, c, v, txt, p in order[:12]:
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if len(viol) > 12:
        print("(%d more in %s)" % (len(viol) - 12, rdir))
    print("%s %s: %d paths, %d instructions, %d queries (%d discharged), %d traces validated, %d inconclusive, %.1f s" % (
        prop, tier, tot("paths"), tot("instructions"), tot("queries"), tot("unsat"), ntr, len(inc), time.time() - T0))
    return 1 if viol else 0


def replay(path):
    r = json.load(open(path))
    work = tempfile.mkdtemp(prefix="replay-", dir=B)
    try:
        b = Build(Harness(os.path.join(V, r["harness"])), r["cfg"], r["tier"], work)
        x = b.replay(r["entry"], r["inputs"], r["variant"], r["fill"])
        print(x.get("out", "")[-3000:])
        print(x.get("err", "")[-6000:])
        bad, txt = classify(x)
        print(("REPRODUCED: " if bad else "not reproduced: ") + txt)
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    prop, tier, only, verbose = None, os.environ.get("VERIF_TIER", "quick"), [], False
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--entry":
            only.append(a.pop(0))
        elif x == "-v":
            verbose = True
        else:
            prop = x
    return check(prop, tier, only, verbose)


if __name__ == "__main__":
    sys.exit(main())
