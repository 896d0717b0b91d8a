#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only h1,h2] [--time T] [--keep]   run one check
   check.py --replay FILE                                                      replay a recorded counterexample natively
   check.py --setup                                                            build the engine only

Builds the symbolic-execution engine, instruments /repo's *current* sources (plus the property's harness), explores,
replays every candidate counterexample against an uninstrumented AddressSanitizer build of the same sources, and
reports only what reproduces.  Standard library only."""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, time, glob, threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GC_REPO", "/repo")
sys.path.insert(0, VERIF)
BUILD = os.environ.get("GS_BUILD", os.path.join(VERIF, ".build"))
ENG = os.path.join(VERIF, "engine")
HAR = os.path.join(VERIF, "harness")
JOBS = min(8, os.cpu_count() or 4)
Z3ROOT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
INC = ["-I" + REPO + "/include", "-I" + REPO + "/deps/nanort/include", "-I" + REPO + "/deps/nanoflann/include",
       "-I" + os.path.join(HAR, "stub"), "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/suitesparse",
       "-I" + ENG, "-I" + HAR]
DEFS = ["-D_GLIBCXX_ASSERTIONS", "-DEIGEN_DONT_VECTORIZE", "-DGC_HAVE_SUITESPARSE"]
SYM = ["-std=c++14", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-w"] + DEFS + INC
NAT = ["-std=c++14", "-O0", "-g1", "-ffp-contract=off", "-fsanitize=address", "-w"] + DEFS + INC


def log(*a):
    print(*a, flush=True)


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd[:3]) + " ... " + cmd[-1] + "\n" + p.stdout[-4000:])
    return p.stdout


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def headers_key():
    hs = []
    for root in (REPO + "/include", HAR, ENG):
        for d, _, fs in os.walk(root):
            hs += [os.path.join(d, f) for f in fs if f.endswith((".h", ".ipp", ".hpp"))]
    return digest(sorted(hs), " ".join(SYM))


class Builder:
    """All artefacts are content addressed, so a stale one is never used."""

    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.hk = headers_key()
        self.z3 = Z3ROOT if os.path.exists(Z3ROOT + "/lib/libz3.so") and os.path.exists(Z3ROOT + "/include/z3.h") else None
        self.f_pass = self.pool.submit(self.build_pass)
        self.f_rt = self.pool.submit(self.build_rt)

    def build_pass(self):
        src = [ENG + "/GcSymPass.cpp", ENG + "/gs_ops.h"]
        out = f"{BUILD}/pass-{digest(src)}.so"
        if not os.path.exists(out):
            fl = sh(["llvm-config-18", "--cxxflags"]).split()
            t = f"{out}.tmp{os.getpid()}"
            sh(["clang++"] + fl + ["-O1", "-w", "-shared", "-fPIC", "-fno-rtti", "-o", t, src[0]])
            os.rename(t, out)
        return out

    def build_rt(self):
        src = [ENG + "/gs_rt.cpp", ENG + "/norm.h", ENG + "/gs_ops.h", ENG + "/gs.h"]
        d = f"{BUILD}/rt-{digest(src, str(self.z3))}"
        out = d + "/libgsrt.so"
        if not os.path.exists(out):
            os.makedirs(d, exist_ok=True)
            z = ["-I" + self.z3 + "/include", "-L" + self.z3 + "/lib", "-Wl,-rpath," + self.z3 + "/lib"] if self.z3 else []
            t = f"{out}.tmp{os.getpid()}"
            sh(["g++", "-O2", "-std=c++17", "-fPIC", "-shared"] + z + ["-o", t, src[0], "-lz3"])
            sh(["gcc", "-O1", "-c", "-o", d + "/gs_main.o", ENG + "/gs_main.c"])
            os.rename(t, out)
        return d

    def key(self, f):
        return os.path.basename(f)[:-4] + "-" + digest([f], self.hk)

    def bitcode(self, f):
        k = f"{BUILD}/{self.key(f)}.bc"
        if not os.path.exists(k):
            t = f"{k}.tmp{os.getpid()}"
            sh(["clang++"] + SYM + ["-emit-llvm", "-c", "-o", t, f])
            os.rename(t, k)
        return k

    def sym_obj(self, f):
        bc = self.bitcode(f)
        ps = self.f_pass.result()
        k = f"{BUILD}/{self.key(f)}-{os.path.basename(ps)[5:-3]}.o"
        if not os.path.exists(k):
            t = f"{k}.tmp{os.getpid()}"
            i = t + ".i.bc"
            sh(["opt-18", "-load-pass-plugin", ps, "-passes=gcsym", "-o", i, bc])
            sh(["clang++", "-O1", "-Xclang", "-disable-llvm-passes", "-w", "-c", "-o", t, i])
            os.unlink(i)
            os.rename(t, k)
        return k

    def nat_obj(self, f):
        k = f"{BUILD}/{self.key(f)}.nat.o"
        if not os.path.exists(k):
            t = f"{k}.tmp{os.getpid()}"
            sh(["clang++"] + NAT + ["-c", "-o", t, f])
            os.rename(t, k)
        return k

    def many(self, fn, files):
        # largest first
        files = sorted(files, key=lambda f: -os.path.getsize(f))
        return [x.result() for x in [self.pool.submit(fn, f) for f in files]]


def undefined_gc(objs):
    """geometrycentral symbols referenced but not defined by this set of objects"""
    und, de = set(), set()
    for line in sh(["nm", "-A", "--format=posix"] + objs).splitlines():
        p = line.split(": ", 1)[-1].split()
        if len(p) < 2 or "geometrycentral" not in p[0]:
            continue
        (und if p[1] == "U" else de).add(p[0])
    return und - de


def demangle(names):
    if not names:
        return []
    p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return p.stdout.split("\n")


def link(b, pid, kind, objs, head, tail, weak=()):
    """Symbols nobody defines (parts of the library outside the encoded set) become stubs that stop the path as
    'incomplete: missing code' - never as a violation."""
    und, de = set(), set()
    if weak:  # functions the harness models instead
        new = []
        for i, o in enumerate(objs):
            own = any(os.path.basename(o).startswith(h + "-") for h in weak[1])
            names = re.findall(r"(\S+) T ", sh(["nm", "--format=posix", "--defined-only", o]))
            hit = [n for n in names if any(w in n for w in weak[0])] if not own else []
            if hit:
                t = f"{BUILD}/{pid}.{kind}.weak{i}.o"
                sh(["objcopy"] + [f"--weaken-symbol={n}" for n in hit] + [o, t])
                o = t
            new.append(o)
        objs = new
    for line in sh(["nm", "-A", "--format=posix"] + objs).splitlines():
        p = line.split(": ", 1)[-1].split()
        if len(p) >= 2:
            (und if p[1] in "Uwv" else de).add(p[0])
    need = sorted(x for x in und - de if x.startswith("_ZN") or x.startswith("_ZT") or x.startswith("_ZGV") or x.startswith("_ZZ"))
    need = [x for x in need if re.search(r"geometrycentral|happly|cholmod|umfpack|spqr|SuiteSparse", x)]
    need += sorted(x for x in und - de if re.match(r"(cholmod|umfpack|SuiteSparse|spqr)_", x))
    d = f"{BUILD}/{pid}.{kind}.stub"
    with open(d + ".s", "w") as f:
        f.write(".text\n")
        for x in need:
            f.write(f".globl {x}\n{x}:\n")
        f.write(" subq $8,%rsp\n call gs_missing\n ud2\n")
    sh(["gcc", "-c", "-o", d + ".o", d + ".s"])
    out = f"{BUILD}/{pid}.{kind}"
    sh(head + ["-o", out] + objs + [d + ".o"] + tail)
    return out


def resolve_tus(b, files, build, allowed):
    """Build `files`; if the current sources need geometrycentral symbols beyond the committed baseline (code moved
    between translation units), add the translation units that mention them, finally all of them."""
    objs = b.many(build, files)
    miss = undefined_gc(objs) - allowed
    if miss:
        names = {re.sub(r"\(.*", "", d).split("::")[-1] for d in demangle(sorted(miss))}
        names = {re.sub(r"[^A-Za-z0-9_].*$", "", n.replace("vtable for ", "").replace("typeinfo for ", "")) for n in names}
        rest = [f for f in all_tus() if f not in files]
        add = []
        for f in rest:
            try:
                t = open(f, errors="replace").read()
            except OSError:
                continue
            if any(n and re.search(r"\b" + re.escape(n) + r"\b", t) for n in names):
                add.append(f)
        log(f"note: {len(miss)} symbols outside the baseline; adding {len(add)} translation units")
        for f in add:
            try:
                objs += b.many(build, [f])
            except BuildError as e:
                log("note: cannot add " + f)
    return objs


def all_tus():
    return sorted(glob.glob(REPO + "/src/*/*.cpp"))


def tu(name):
    return f"{REPO}/src/{name}.cpp"


def load_spec(pid):
    import specs
    return specs.SPECS[pid]


def load_baseline(pid):
    p = f"{HAR}/baseline/{pid}.json"
    return set(json.load(open(p))) if os.path.exists(p) else None


def build_sym(b, pid, spec, bless=False):
    files = [f"{HAR}/{h}" for h in spec["harness"]] + [tu(t) for t in spec["tus"]]
    base = load_baseline(pid)
    if bless:
        objs = b.many(b.sym_obj, files)
        os.makedirs(HAR + "/baseline", exist_ok=True)
        json.dump(sorted(undefined_gc(objs)), open(f"{HAR}/baseline/{pid}.json", "w"), indent=0)
    else:
        objs = resolve_tus(b, files, b.sym_obj, base if base is not None else set())
    rt = b.f_rt.result()
    return link(b, pid, "sym", objs, ["clang++", "-no-pie"], [rt + "/gs_main.o", "-L" + rt, "-lgsrt", "-Wl,-rpath," + rt], (spec["weak"], [h[:-4] for h in spec["harness"]]) if "weak" in spec else ())


def build_native(b, pid, spec):
    files = [f"{HAR}/{h}" for h in spec["harness"]] + [tu(t) for t in spec["tus"]]
    base = load_baseline(pid)
    objs = resolve_tus(b, files + [ENG + "/gs_native.cpp"], b.nat_obj, base if base is not None else set())
    return link(b, pid, "nat", objs, ["clang++", "-no-pie", "-fsanitize=address"], [], (spec["weak"], [h[:-4] for h in spec["harness"]]) if "weak" in spec else ())


def replay(nat, tier, harness, values, limit=20):
    env = dict(os.environ, VERIF_TIER=tier,
               ASAN_OPTIONS="exitcode=99:detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=190:allocator_may_return_null=0")
    try:
        p = subprocess.run([nat, harness, values], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=limit)
    except subprocess.TimeoutExpired:
        return "confirmed", "does not terminate within %d s" % limit
    o = p.stdout
    m = re.findall(r"(REPLAY: .*|.*ERROR: AddressSanitizer.*|.*Assertion .*failed.*|.*terminate called.*)", o)
    txt = " | ".join(x.strip() for x in m[:3]) or o[-300:]
    if p.returncode == 0:
        return "held", txt
    if p.returncode == 12:
        return "invalid", txt
    if p.returncode not in (10, 11, 99) and p.returncode >= 0:
        return "not replayable", f"exit {p.returncode}: {txt}"
    return "confirmed", f"exit {p.returncode}: {txt}"


def values_of(inputs):
    return ",".join(x.split("=", 1)[1] for x in inputs.split(";") if "=" in x) or "0"


def load_known():
    p = VERIF + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def match_known(pid, harness, msg, inputs):
    iv = dict(x.split("=", 1) for x in inputs.split(";") if "=" in x)
    for k in load_known()["known"]:
        if k["property"] != pid or k["harness"] != harness or not re.search(k["msg"], msg):
            continue
        if all(str(iv.get(n)) in [str(v) for v in vs] for n, vs in k.get("inputs", {}).items()):
            return k
    return None


def run_check(pid, tier, only=None, budget=None, bless=False, confirm=True):
    t0 = time.time()
    spec = load_spec(pid)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    b = Builder()
    sym = build_sym(b, pid, spec, bless)
    tb = time.time() - t0
    T = budget or spec.get("time", {}).get(tier) or (90 if tier == "quick" else 1800)
    out = f"{BUILD}/{pid}.{os.getpid()}.json"
    cmd = [sym, "--time", str(T), "--jobs", str(JOBS), "--out", out, "--max-viol", "40"]
    if only:
        cmd += ["--only", only]
    env = dict(os.environ, VERIF_TIER=tier)
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if not os.path.exists(out):
        log(p.stdout[-3000:])
        raise BuildError("engine produced no result")
    res = json.load(open(out))
    os.unlink(out)
    te = time.time() - t0 - tb
    # ---- candidate counterexamples: replay natively
    cands = []
    for h in res["harnesses"]:
        per = {}
        for v in h["violations"]:
            k = (v["kind"], v["msg"])
            per[k] = per.get(k, 0) + 1
            if per[k] <= 6:
                cands.append((per[k], h["name"], v))
    cands.sort(key=lambda c: c[0])
    confirmed, unconfirmed, knownhit = [], [], {}
    if cands and confirm:
        nat = build_native(b, pid, spec)
        tr = time.time()
        todo = []
        for _, hn, v in cands:
            todo.append((hn, v, b.pool.submit(replay, nat, tier, hn, values_of(v["inputs"]))))
        for hn, v, f in todo:
            st, txt = f.result()
            rec = dict(harness=hn, kind=v["kind"], msg=v["msg"], inputs=v["inputs"], replay=txt)
            if st == "confirmed":
                k = match_known(pid, hn, v["msg"], v["inputs"])
                if k:
                    knownhit[k["what"]] = rec
                else:
                    confirmed.append(rec)
            else:
                unconfirmed.append(dict(rec, status=st))
    elif cands:
        unconfirmed = [dict(harness=hn, kind=v["kind"], msg=v["msg"], inputs=v["inputs"], status="not replayed") for _, hn, v in cands]
    # a few explored paths are re-run on the uninstrumented build: engine and implementation must agree
    traces = []
    if confirm:
        nat = build_native(b, pid, spec)
        jobs = [(h["name"], x, b.pool.submit(replay, nat, tier, h["name"], values_of(x))) for h in res["harnesses"] for x in h.get("samples", [])]
        for hn, x, f in jobs:
            st, txt = f.result()
            traces.append(dict(harness=hn, inputs=x, outcome=st))
            if st != "held":
                log(f"  note: native replay of a clean path: {hn}: {x[:200]}: {st} {txt[:300]}")
    # known findings in the file are re-tested by their recorded input, so the line is printed on every run
    for k in load_known()["known"]:
        if k["property"] == pid and k["what"] not in knownhit and (not only):
            nat = build_native(b, pid, spec)
            st, txt = replay(nat, tier, k["harness"], k["replay_values"])
            if st == "confirmed":
                knownhit[k["what"]] = dict(harness=k["harness"], replay=txt)
    for w in knownhit:
        log(f"KNOWN-FINDING: property={pid} {w}")
    viol = []
    if confirmed:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        seen = set()
        for i, c in enumerate(confirmed):
            if (c["harness"], c["msg"]) in seen:
                continue
            seen.add((c["harness"], c["msg"]))
            rp = f"{VERIF}/replays/{pid}-{len(seen)}.json"
            json.dump(dict(property=pid, tier=tier, **c, values=values_of(c["inputs"]),
                           how=f"python3 {VERIF}/check.py --replay {rp}"), open(rp, "w"), indent=1)
            viol.append(rp)
            log(f"  counterexample: harness {c['harness']}: {c['kind']}: {c['msg']}\n    inputs: {c['inputs'][:600]}\n    native replay: {c['replay'][:400]}")
    write_evidence(pid, tier, seed, spec, res, b, confirmed, unconfirmed, knownhit, t0, tb, te, traces)
    tot = dict(paths=0, q=0)
    for h in res["harnesses"]:
        tot["paths"] += h["paths"]
        tot["q"] += h["queries"]
        log(f"  {h['name']:34s} {'exhausted' if h['exhausted'] else 'NOT exhausted'} paths={h['paths']} queries={h['queries']} asserts={h['asserts']}+{h['concrete_asserts']}"
            f" lost={h['lost']} pending={h['pending']} stale={h['stale']} unknown={h['unknown']} cpu={h['cpu_s']:.1f} viol={len(h['violations'])} {h['incomplete'] or ''} { {k: v for k, v in h['cover'].items() if not k.startswith('assert:')} or ''}")
    for u in unconfirmed[:12]:
        log(f"  unconfirmed: {u['harness']}: {u['kind']}: {u['msg']} [{u['status']}] {u['inputs'][:300]} {u.get('replay','')[:200]}")
    # vacuity: a harness whose witnesses are not reached decides nothing
    log(f"{pid} {tier}: build {tb:.1f}s explore {te:.1f}s total {time.time()-t0:.1f}s paths {tot['paths']} queries {tot['q']}")
    if viol:
        for rp in viol:
            log(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


def write_evidence(pid, tier, seed, spec, res, b, confirmed, unconfirmed, knownhit, t0, tb, te, traces):
    fn = set()
    hs = []
    S = lambda k: sum(h[k] for h in res["harnesses"])
    samples = []
    for h in res["harnesses"]:
        fn |= set(h["functions"])
        d = {k: v for k, v in h.items() if k not in ("functions", "violations", "samples")}
        d["functions_encoded"] = len(h["functions"])
        d["candidates"] = len(h["violations"])
        hs.append(d)
        for s in h.get("samples", []):
            samples.append(h["name"] + ": " + s[:2000])
    fns = sorted({x for x in demangle(sorted(fn)) if x})
    cov = dict(
        explanation="Symbolic execution of the functions listed below, compiled from /repo's current sources to LLVM IR and "
                    "instrumented; every branch, memory access and assertion over symbolic inputs is decided by z3. 'exhausted' "
                    "means every feasible path within the stated bounds was explored, so each assertion holds for all inputs within them.",
        bounds=spec["bounds"], outside=spec.get("outside", ""),
        states=S("paths"), transitions=S("events"),
        traces_validated_against_impl=len([t for t in traces if t["outcome"] == "held"]) + len(confirmed),
        evaluations=S("paths"), distinct_nontrivial=S("paths") - S("assume_rejected"),
        rule="one case per feasible path of a harness; distinct by construction (path conditions are disjoint); non-trivial = not rejected by an assumption",
        queries=S("queries"), sat=S("sat"), unsat=S("unsat"), unknown=S("unknown"), solver_s=round(S("solver_s"), 2),
        cpu_s=round(S("cpu_s"), 2), asserts_discharged_by_solver=S("discharged"), asserts_concrete_on_path=S("concrete_asserts"),
        exhaustive=all(h["exhausted"] for h in res["harnesses"]),
        harnesses=hs, functions_encoded=fns, functions_encoded_count=len(fns),
        samples=samples or [c["inputs"] for c in (confirmed + unconfirmed)][:5] or ["(no inputs recorded)"],
        build_s=round(tb, 1), explore_s=round(te, 1),
        unconfirmed_candidates=unconfirmed[:20], known_findings=sorted(knownhit),
        solver=open_version(b))
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "model_checking"), coverage=cov,
              assumptions=spec.get("assumptions", []) + ["64-bit Linux, clang 18 -O1 IR, GC_SAFETY_ASSERT on; allocation never fails"],
              wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    p = f"{VERIF}/evidence/{pid}.json"
    json.dump(ev, open(p + ".tmp", "w"), indent=1)
    os.rename(p + ".tmp", p)


def open_version(b):
    return "z3 from " + (b.z3 or "system")


def main(a):
    if a[0] == "--setup":
        b = Builder()
        b.f_pass.result()
        b.f_rt.result()
        log("engine built in " + BUILD)
        return 0
    if a[0] == "--replay":
        r = json.load(open(a[1]))
        b = Builder()
        nat = build_native(b, r["property"], load_spec(r["property"]))
        st, txt = replay(nat, r["tier"], r["harness"], r["values"])
        log(st, txt)
        return 0 if st == "held" else 1
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = budget = None
    bless = False
    confirm = True
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 1
        elif a[i] == "--only": only = a[i + 1]; i += 1
        elif a[i] == "--time": budget = float(a[i + 1]); i += 1
        elif a[i] == "--bless": bless = True
        elif a[i] == "--noconfirm": confirm = False
        i += 1
    return run_check(pid, tier, only, budget, bless, confirm)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except BuildError as e:
        log("BUILD ERROR: " + str(e))
        sys.exit(2)
