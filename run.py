#!/usr/bin/env python3
"""The checks' driver: `run.py C01 [quick|thorough]`.  See DESIGN.md.

A check is a list of stages.  Every stage runs TLC on a module of spec/ and the harness on the
real code:
  Case   TLC enumerates calls with their specified results (and checks the module's invariants);
         the harness makes the calls and compares.
  Graph  TLC prints the transitions of an object's abstract state machine; the harness walks the
         object and the machine in lockstep over all short and many long histories.
  Record the harness records what the code did; TLC decides whether the specification allows it.
"""
import json, os, random, re, resource, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
SPEC = os.path.join(HERE, "spec")
BUILD = os.path.join(HERE, ".build")
BIN = os.path.join(BUILD, "target", "release", "rv")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class Broken(Exception):
    """The machinery failed: no verdict."""


def log(*a):
    print(*a, flush=True)


# ---- building -------------------------------------------------------------------------------
def cargo_env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "1.98.0"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["RUSTFLAGS"] = "--cfg rcgal_verif"
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    for k in ("CARGO_BUILD_TARGET", "CARGO_PROFILE_DEV_DEBUG", "CARGO_INCREMENTAL", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def build():
    os.makedirs(BUILD, exist_ok=True)
    # cargo decides by mtime whether rcgal is fresh: always recompile it
    fp = os.path.join(BUILD, "target", "release", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(("rcgal-", "rv-")):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--locked"], cwd=os.path.join(HERE, "harness"),
                       env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken("building the harness failed:\n" + p.stdout[-4000:])


def build_wasm():
    """The library for wasm32; returns the environment with which the harness finds it."""
    t = os.path.join(BUILD, "wasm")
    fp = os.path.join(t, "wasm32-unknown-unknown", "release", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("rcgal-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    e = cargo_env()
    e.pop("RUSTFLAGS")
    e["CARGO_TARGET_DIR"] = t
    p = subprocess.run(["cargo", "build", "--lib", "--release", "--target", "wasm32-unknown-unknown", "--offline", "--locked"],
                       cwd="/repo", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken("building the WebAssembly library failed:\n" + p.stdout[-4000:])
    os.environ["RV_WASM"] = os.path.join(t, "wasm32-unknown-unknown", "release", "rcgal.wasm")
    os.environ["RV_SERVE"] = os.path.join(HERE, "harness", "wasm", "serve.mjs")


# ---- TLC ------------------------------------------------------------------------------------
def tlc(work, name, module, consts, inv=(), init="InitExh", nxt="Next", env=None, extra=(), props=(), spec=None):
    """Runs TLC; returns (path of its output, distinct states, states generated)."""
    cfg = os.path.join(work, name + ".cfg")
    with open(cfg, "w") as f:
        for k, v in consts.items():
            f.write(f"CONSTANT {k} = {v}\n")
        if spec:
            f.write(f"SPECIFICATION {spec}\n")
        else:
            f.write(f"INIT {init}\nNEXT {nxt}\n")
        for i in inv:
            f.write(f"INVARIANT {i}\n")
        for p in props:
            f.write(f"PROPERTY {p}\n")
        f.write("CHECK_DEADLOCK FALSE\n")
    out = os.path.join(work, name + ".out")
    md = os.path.join(work, name + ".md")
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = "-Xmx6g -Djava.io.tmpdir=" + work
    cmd = ["tlc", "-workers", "8", "-noGenerateSpecTE", "-config", cfg, "-metadir", md, *extra, module + ".tla"]
    with open(out, "w") as f:
        try:
            subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=3000)
        except subprocess.TimeoutExpired:
            raise Broken(f"TLC did not finish on {module} ({name})")
    shutil.rmtree(md, ignore_errors=True)
    distinct = generated = None
    ok = False
    with open(out) as f:
        for line in f:
            if line.startswith('"'):
                continue
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                generated, distinct = int(m.group(1)), int(m.group(2))
            if line.startswith("Model checking completed. No error has been found"):
                ok = True
    if not ok or distinct is None:
        with open(out) as f:
            tail = [l for l in f if not l.startswith('"')][-60:]
        raise Broken(f"TLC did not complete on {module} ({name}):\n" + "".join(tail)[-5000:])
    return out, distinct, generated


# ---- harness --------------------------------------------------------------------------------
def limits():
    # node reserves far more address space than it uses
    if "RV_WASM" not in os.environ:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def harness(work, name, args, timeout=800):
    """Runs the harness.  Returns its report; a crash of the code under test is a failure of the
    case it was running."""
    out = os.path.join(work, name + ".json")
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ)

    def go(more):
        try:
            return subprocess.run([BIN, *args, "--out", out, "--seed", str(SEED), *more], env=env, stdout=subprocess.DEVNULL,
                                  stderr=subprocess.PIPE, preexec_fn=limits, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None

    p = go([])
    if p is None:
        raise Broken(f"the harness did not finish within {timeout} s: {args}")
    if p.returncode == 0 and os.path.exists(out):
        with open(out) as f:
            return json.load(f)
    if p.returncode == 2:
        raise Broken("harness: " + p.stderr.decode(errors="replace")[-2000:])
    # killed: run again one case at a time, noting each before it runs
    note = os.path.join(work, name + ".case")
    q = go(["--threads", "1", "--log", note])
    if q is None:
        raise Broken("the harness did not finish when run case by case")
    if q.returncode == 0:
        with open(out) as f:
            return json.load(f)
    case = open(note).read() if os.path.exists(note) else "?"
    msg = q.stderr.decode(errors="replace").strip().splitlines()
    return dict(cases=0, execs=1, fail_count=1, samples=[],
                fails=[dict(case=case, what=f"the process running the code died (status {q.returncode}): {' '.join(msg[-3:])}")])


# ---- stages ---------------------------------------------------------------------------------
class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.work = os.path.join(BUILD, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.validated = self.execs = 0
        self.samples, self.stages, self.fails = [], [], []

    def pick(self, q, t):
        return t if self.tier == "thorough" else q

    def add(self, stage, distinct, generated, rep, what):
        self.states += distinct
        self.transitions += generated
        self.validated += rep["cases"]
        self.execs += rep["execs"]
        self.samples += rep["samples"][:2]
        self.stages.append(dict(stage=stage, states=distinct, transitions=generated, cases=rep["cases"], executions=rep["execs"],
                                violations=rep["fail_count"]))
        log(f"  {stage}: {distinct} states, {rep['cases']} {what}, {rep['execs']} executions, {rep['fail_count']} violations")
        for f in rep["fails"]:
            self.fails.append(dict(stage=stage, **f))

    def stage_name(self, module):
        return f"{len(self.stages):02d}_{module}"

    def case(self, module, consts, inv, family, init="InitExh", cases=None, mode="", env=None):
        name = self.stage_name(module)
        e = dict(env or {})
        c = dict(consts, SEED=SEED)
        if cases is not None:
            path = os.path.join(self.work, name + ".cases.json")
            with open(path, "w") as f:
                json.dump(cases, f)
            e["CASES"] = path
            init = init if init != "InitExh" else "InitFile"
        out, d, g = tlc(self.work, name, module, c, inv, init, env=e)
        fams = [family] if isinstance(family, str) else family
        for fam in fams:
            rep = harness(self.work, name + "." + fam, ["replay", "--family", fam, "--cases", out] + (["--mode", mode] if mode else []))
            if rep["cases"] == 0 and rep["fail_count"] == 0:
                raise Broken(f"{name}: no cases")
            for f in rep["fails"]:
                f["replay"] = dict(family=fam, mode=mode, case=f["case"])
            label = f"{module}{'(' + ', '.join(f'{k}={v}' for k, v in consts.items()) + ')' if consts else ''}{' generated' if cases is not None else ' enumerated'} -> {fam}"
            self.add(label, d if fam == fams[0] else 0, g if fam == fams[0] else 0, rep, "calls replayed")
        os.remove(out)

    def design(self, module, consts, inv=(), props=(), init="Init", nxt="Next", spec=None, cases=None):
        """Model checking only: the design meets its requirements."""
        name = self.stage_name(module)
        e = {}
        if cases is not None:
            e["CASES"] = os.path.join(self.work, name + ".cases.json")
            with open(e["CASES"], "w") as f:
                json.dump(cases, f)
            init = "InitFile"
        out, d, g = tlc(self.work, name, module, consts, inv, init, nxt, env=e, props=props, spec=spec)
        self.states += d
        self.transitions += g
        self.stages.append(dict(stage=f"{module} design", states=d, transitions=g, cases=0, executions=0, violations=0))
        log(f"  {module} {consts}: {d} states, invariants {list(inv)} {list(props)} hold")

    def graph(self, module, consts, inv, machine, args=(), tour=None):
        """TLC prints the transitions of a machine, the harness walks it with the real object.
        tour = (module, consts, invariants): a machine that refines it, whose states are toured."""
        name = self.stage_name(module)
        out, d, g = tlc(self.work, name, module, consts, inv, "InitPrint", "NextPrint")
        more = []
        if tour:
            tm, tc, ti = tour
            tout, td, tg = tlc(self.work, name + ".tour", tm, tc, ti, "InitPrint", "NextPrint")
            more = ["--tour-graph", tout]
            self.states += td
            self.transitions += tg
        rep = harness(self.work, name, ["walk", "--machine", machine, "--graph", out, *more, *map(str, args)])
        for f in rep["fails"]:
            f["replay"] = dict(machine=machine, history=f["case"])
        self.add(f"{module}({', '.join(f'{k}={v}' for k, v in consts.items())}) walked by {machine}"
                 + (f" touring {tour[0]}({', '.join(f'{k}={v}' for k, v in tour[1].items())})" if tour else ""), d, g, rep, "histories walked")
        os.remove(out)
        if tour:
            os.remove(tout)

    def judge(self, name, label, module, consts, path, rep, init, inv, accept):
        """TLC judges the records in `path`."""
        d = g = 0
        with open(path) as f:
            recs = json.load(f)
        if rep["fail_count"] == 0 and not recs:
            raise Broken(f"{name}: nothing recorded")
        if recs:
            out, d, g = tlc(self.work, name, module, dict(consts, SEED=SEED), inv, init, "Next", env=dict(CASES=path))
            bad, ok, far = [], set(), {}
            with open(out) as f:
                for l in f:
                    if l.startswith('"B'):
                        bad.append((l.strip()[2:-1].replace('\\"', '"'), "the specification does not allow what was recorded"))
                    elif l.startswith('"A'):
                        ok.add(int(l.strip()[2:-1]))
                    elif l.startswith('"P'):
                        k, n = re.findall(r"\d+", l)
                        far[int(k)] = max(far.get(int(k), 0), int(n))
            if accept:
                for k in range(1, len(recs) + 1):
                    if k not in ok:
                        n = far.get(k, 0)
                        bad.append((json.dumps(recs[k - 1][1][max(0, n - 3):n + 22])[:3000],
                                    f"history {k}: no behaviour of {module} explains it beyond step {n} of {len(recs[k - 1][1])} (to within 20 steps); steps near there are listed"))
            rep["fail_count"] += len(bad)
            rep["fails"] += [dict(case=c[:4000], what=w) for c, w in bad[:10]]
            os.remove(out)
        for f in rep["fails"]:
            f["replay"] = dict(record=f["case"])
        self.add(label, d, g, rep, "records validated")
        os.remove(path)

    def record(self, module, consts, recorder, args=(), init="Init", inv=(), accept=True):
        name = self.stage_name(module)
        path = os.path.join(self.work, name + ".rec.json")
        rep = harness(self.work, name, ["record", "--what", recorder, "--records", path, *map(str, args)])
        self.judge(name, f"{recorder} recorded, validated by {module}", module, consts, path, rep, init, inv, accept) if os.path.exists(path) else \
            self.add(f"{recorder} recorded", 0, 0, rep, "records")

    def record_cases(self, source, recorder, module, consts, init="InitFile", args=()):
        """Cases chosen by TLC from module `source` = (module, consts, invariants, init, cases) are
        given to the code; what it does is recorded and validated by TLC with `module`."""
        sm, sc, si, sinit, cases = source
        name = self.stage_name(module)
        e = {}
        if cases is not None:
            cp = os.path.join(self.work, name + ".cases.json")
            with open(cp, "w") as f:
                json.dump(cases, f)
            e["CASES"] = cp
        out, d, g = tlc(self.work, name + ".src", sm, dict(sc, SEED=SEED), si, sinit, env=e)
        self.states += d
        self.transitions += g
        path = os.path.join(self.work, name + ".rec.json")
        rep = harness(self.work, name, ["record", "--what", recorder, "--cases", out, "--records", path, *map(str, args)])
        os.remove(out)
        label = f"{sm}({', '.join(f'{k}={v}' for k, v in sc.items())}){' generated' if cases is not None else ' enumerated'} -> {recorder} recorded, validated by {module}"
        if os.path.exists(path):
            self.judge(name, label, module, consts, path, rep, init, (), False)
        else:
            for f in rep["fails"]:
                f["replay"] = dict(record=f["case"])
            self.add(label, d, g, rep, "records")

    def need_wasm(self):
        build_wasm()

    def rng(self, k=0):
        return random.Random(SEED * 1000003 + k)


def known():
    """known_findings.txt: lines `KNOWN property=<id> <substring of the failing case> :: <text>`."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) (.*?) :: (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    import checks
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        build()
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    t0 = time.time()
    r = Run(prop, tier)
    build()
    checks.CHECKS[prop](r)
    kn = [k for k in known() if k[0] == prop]
    fails, hits = [], []
    for f in r.fails:
        k = [x for x in kn if x[1] in f["case"]]
        (hits if k else fails).append(f)
    for k in kn:
        print(f"KNOWN-FINDING: property={prop} {k[2]}")
    ev = dict(property=prop, tier=tier, seed=SEED, level="model_checking",
              coverage=dict(states=r.states, transitions=r.transitions, traces_validated_against_impl=r.validated,
                            executions_of_the_code=r.execs, samples=r.samples[:8] or ["-"], stages=r.stages),
              assumptions=checks.ASSUMPTIONS.get(prop, checks.ASSUMPTIONS["*"]),
              wall_s=round(time.time() - t0, 1), violations=len(fails))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(r.work, ignore_errors=True)
    if fails:
        rp = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, prop + ".json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=SEED, failures=fails[:20]), f, indent=1)
        for f in fails[:3]:
            log(f"  {f['stage']}: {f['what'][:1500]}\n    case {f['case'][:600]}")
        log(f"VIOLATION property={prop} replay={path}")
        return 1
    log(f"{prop}: held on {r.states} states, {r.validated} validated, {r.execs} executions, {ev['wall_s']} s")
    return 0


def replay(path):
    """Runs the failing calls of a replay file again."""
    build()
    d = json.load(open(path))
    work = os.path.join(BUILD, "work", "replay")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    bad = 0
    if d["property"] == "C26":
        build_wasm()
    for i, f in enumerate(d["failures"]):
        rp = f.get("replay", {})
        if "family" not in rp:
            log(f"{f['stage']}: {f['what']}\n  {f['case']}\n  (run the check again with VERIF_SEED={d['seed']})")
            bad = 1
            continue
        cf = os.path.join(work, f"{i}.txt")
        with open(cf, "w") as o:
            o.write('"C' + rp["case"].replace('"', '\\"') + '"\n')
        os.environ["VERIF_TIER"] = d["tier"]
        rep = harness(work, str(i), ["replay", "--family", rp["family"], "--cases", cf] + (["--mode", rp["mode"]] if rp["mode"] else []))
        for x in rep["fails"]:
            log(x["what"])
        bad |= rep["fail_count"] > 0
    return 1 if bad else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print(f"check could not decide: {e}", file=sys.stderr, flush=True)
        sys.exit(2)
