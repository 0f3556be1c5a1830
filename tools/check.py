#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's working tree.

Contracts (units/*.tpl) are put on the functions extracted from /repo/src on this run and Verus has to
discharge every obligation; the bounded replay engines (harness/) run the real crate next to it.

exit 0: held on everything checked; exit 1: VIOLATION line; exit 2: no answer.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import config

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
EXTRACT = os.path.join(BUILD, "extract", "release", "extract")
HARNESS = os.path.join(BUILD, "harness", "debug", "harness")
EXPANDED = os.path.join(BUILD, "expanded.rs")
T0 = time.time()
PROP = ""
REPLAYED = []  # failures of the engines
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def sh(cmd, env=None, timeout=None, cwd=VERIF, out=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=out or subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, (p.stdout or b"").decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return -999, (x.stdout or b"").decode("utf8", "replace"), "timeout"


# ---------------------------------------------------------------- building
def build_extract():
    return sh(["cargo", "build", "--release", "--offline", "--manifest-path", f"{VERIF}/tools/extract/Cargo.toml"],
              {"CARGO_TARGET_DIR": f"{BUILD}/extract"}, 900)


def build_harness():
    return sh(["cargo", "build", "--offline", "--manifest-path", f"{VERIF}/harness/Cargo.toml"],
              {"CARGO_TARGET_DIR": f"{BUILD}/harness"}, 900)


def expand(work):
    """the crate after macro expansion, and uses of its exported macros (tools/macros)"""
    path = os.path.join(work, "expanded.rs")

    def one(package, path):
        with open(path, "wb") as f:
            r = sh(["cargo", "rustc", "--offline", "--manifest-path", f"{VERIF}/tools/macros/Cargo.toml", "-p", package, "--lib",
                    "--profile", "check", "--", "-Zunpretty=expanded"],
                   {"RUSTC_BOOTSTRAP": "1", "CARGO_TARGET_DIR": f"{BUILD}/expand"}, 600, out=f)
        return r[0] == 0 and os.path.getsize(path) > 0
    if not one("goggles", path):
        return None
    if one("macros", path + ".uses"):
        with open(path, "a") as f:
            f.writelines(l for l in open(path + ".uses") if not l.startswith(("#![", "//!")))
    return path


def inventory(expanded):
    """every function of the crate after macro expansion: (module, impl, name, line)"""
    mods = [f[:-3] for f in sorted(os.listdir(f"{REPO}/src")) if f.endswith(".rs") and f != "lib.rs"]
    plain = ",".join(f"src/{m}.rs" for m in mods)
    out = []
    for a in ([["--inventory", plain], ["--expanded", expanded, "--inventory", ",".join("expanded:" + m for m in mods)]] if expanded else []):
        rc, o, e = sh([EXTRACT, "--repo", REPO] + a)
        out += [tuple(l.split("\t")) for l in o.splitlines()]
    return out


# ---------------------------------------------------------------- verification
class Unit:
    def __init__(self, name, work, expanded):
        self.name, self.work, self.expanded = name, work, expanded
        self.failed = {}      # fn id -> list of (message, props or None)
        self.undecided = {}   # fn id (or *) -> reason
        self.fns = {}
        self.verified = self.errors = 0
        self.solver_ms = 0
        self.breakdown = {}
        self.vacuity = (0, 0)
        self.vacuous = []
        self.cmd = ""
        self.trusted = []
        self.rounds = 0

    def gen(self, tag, extra):
        out, mp = f"{self.work}/{tag}.rs", f"{self.work}/{tag}.json"
        a = [EXTRACT, "--repo", REPO, "--unit", f"{VERIF}/units/{self.name}.tpl", "--out", out, "--map", mp]
        if self.expanded:
            a += ["--expanded", self.expanded]
        rc, o, e = sh(a + extra)
        if rc != 0:
            raise RuntimeError("extraction failed: " + e[-400:])
        m = json.load(open(mp))
        # functions of imported units are proved where those units are checked
        self.imported = [f["id"] for f in m["fns"] if f["imported"]]
        m["fns"] = [f for f in m["fns"] if not f["imported"]]
        return out, m

    def verus(self, path, opts, env=None, timeout=600):
        cmd = ["verus", os.path.basename(path), "--output-json", "--error-format=json", "--time-expanded",
               "--triggers-mode", "silent", "--no-report-long-running", "--num-threads", "4"] + opts
        rc, o, e = sh(cmd, env, cwd=self.work, timeout=timeout)
        if not env:
            self.cmd = " ".join(cmd)
        diags = []
        for l in e.splitlines():
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") == "error":
                    diags.append(d)
        try:
            res = json.loads(o)
        except ValueError:
            res = {}
        return res, diags, e

    @staticmethod
    def spans(d):
        s = list(d.get("spans", []))
        for c in d.get("children", []):
            s += c.get("spans", [])
        return s

    def owner(self, d, m, fname):
        """the extracted function a diagnostic belongs to, and the properties its lines name"""
        sp = [s for s in self.spans(d) if s.get("file_name", "").endswith(fname)]
        post = "postcondition" in d["message"]
        order = sorted(sp, key=lambda s: (0 if post and re.search("at the end|at this exit|function body", s.get("label") or "") else 1 if s.get("is_primary") and not post else 2))
        f = None
        for s in order:
            for x in m["fns"]:
                if x["start"] <= s["line_start"] <= x["end"]:
                    f = x
                    break
            if f:
                break
        props = None
        for s in sp:
            for t in s.get("text", []):
                mm = re.search(r"//#\s*([A-Z0-9 ,]+)", t.get("text", ""))
                if mm:
                    props = set(props or []) | set(re.findall(r"[A-Z]\d\d", mm.group(1)))
        return f, props

    def run(self):
        base = json.load(open(f"{VERIF}/units/baseline.json")).get(self.name, {})
        stubs = []
        for rnd in range(12):
            self.rounds = rnd + 1
            path, m = self.gen(self.name, ["--stub", ";;".join(stubs)] if stubs else [])
            if rnd == 0:
                self.first_map = m
                for x in m["missing"]:
                    self.undecided["*" + x] = "not found: " + x
            res, diags, raw = self.verus(path, ["--rlimit", "30", "--multiple-errors", "6"])
            vr = res.get("verification-results", {})
            code = [d for d in diags if d.get("code") or not self.is_proof_error(d)]
            compiled = "verified" in vr and not vr.get("encountered-vir-error") and not any(d.get("code") for d in diags) \
                and (res.get("times-ms") or {}).get("smt", {}).get("smt-run") is not None
            if compiled and not [d for d in code if not self.benign(d)]:
                break
            bad = set()
            for d in code:
                f, _ = self.owner(d, m, os.path.basename(path))
                if f and not f["stub"]:
                    bad.add(f["id"])
                    self.undecided[f["id"]] = "the verifier does not take this function: " + d["message"][:200]
            if not bad:
                self.undecided["*"] = "the verifier does not take this unit: " + "; ".join(d["message"][:200] for d in diags[:3]) + ("" if diags else raw[-300:])
                self.fns = {x["id"]: x for x in m["fns"]}
                return self
            stubs = sorted(set(stubs) | bad)
        else:
            self.undecided["*"] = "too many functions are outside the verifier's language"
            return self
        self.map = m
        self.fns = {x["id"]: x for x in m["fns"]}
        self.path = path
        self.verified, self.errors = vr["verified"], vr["errors"]
        for mod in res["times-ms"]["smt"].get("smt-run-module-times", []):
            for f in mod.get("function-breakdown", []):
                self.breakdown[f["function"]] = (f["time-micros"], f["rlimit"], f["success"])
                self.solver_ms += f["time-micros"] / 1000
        fails = self.collect(diags, m, path)
        if fails:
            # an obligation counts as failed only if other solver seeds do not discharge it either
            for seed in (7, 31):
                if REPLAYED or not any(self.concerns(k, v) for k, v in fails.items()):
                    break  # a history that fails on the real code is known already, or this property does not rest on them
                if seed == 31 and time.time() - T0 > 300:
                    break  # a check has 900 s
                res2, diags2, _ = self.verus(path, ["--rlimit", "60", "--multiple-errors", "6", "-V", "spinoff-all",
                                                    "--smt-option", f"smt.random_seed={seed}"])
                again = self.collect(diags2, m, path)
                fails = {k: v for k, v in fails.items() if k in again}
        for fid, v in fails.items():
            if fid is None:
                self.undecided["*lemma"] = "a lemma of the unit is no longer proved: " + v[0][0]
                continue
            f = self.fns[fid]
            if any("rlimit" in x[0] or "resource limit" in x[0].lower() or "timed out" in x[0] for x in v):
                self.undecided[fid] = "solver limit reached"
            elif f.get("loops") and f.get("loops") != base.get(fid, {}).get("loops"):
                self.undecided[fid] = "not proved, and the loops of this function have another form than the invariants were written for"
            elif f.get("closures", 0) > base.get(fid, {}).get("closures", 0):
                self.undecided[fid] = "not proved, and the function has a new closure without a contract"
            elif f.get("lost"):
                self.undecided[fid] = "not proved, and the body no longer has the form the rewrite expects: " + ", ".join(f["lost"])
            elif m["missing"]:
                self.undecided[fid] = "not proved, while items of the unit were not found"
            else:
                self.failed[fid] = v
        for fid, f in self.fns.items():
            if f.get("recursive") and fid not in self.failed:
                self.undecided.setdefault(fid, "calls itself: the contract is proved for calls that return, that they do is not")
        self.trusted = scan(open(path).read())
        if self.imported:
            self.trusted.append("contracts proved when their own unit is checked, taken here: " + ", ".join(self.imported))
        if not self.failed:
            self.run_vacuity(stubs)
        return self

    def concerns(self, fid, v):
        """do failed obligations `v` of a function decide the property of this run?"""
        if fid is None:
            return True
        props = self.fns[fid].get("props") or ",".join(config.UNITS[self.name])
        return any(PROP in (x[1] or props.split(",")) for x in v)

    def confirm(self):
        """thorough: the same obligations with other solver seeds, and with cvc5 as an independent back end"""
        path = f"{self.work}/{self.name}.rs"
        out = {}
        cmd = self.cmd
        for seed in (7, 31, 101):
            res, _, _ = self.verus(path, ["--rlimit", "60", "--multiple-errors", "0", "--smt-option", f"smt.random_seed={seed}"], timeout=1500)
            out[f"z3 seed {seed}"] = res.get("verification-results", {}).get("verified")
        res, diags, _ = self.verus(path, ["--rlimit", "60", "--multiple-errors", "0", "-V", "cvc5", "-V", "no-solver-version-check"],
                                   {"VERUS_CVC5_PATH": f"{VERIF}/tools/cvc5w"}, 2400)
        out["cvc5"] = res.get("verification-results", {}).get("verified")
        out["obligations"] = self.verified + self.errors
        self.cmd = cmd
        return out

    @staticmethod
    def is_proof_error(d):
        return bool(re.search(r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|possible (arithmetic|division|bit)|"
                              r"decreases not satisfied|might not|could not prove|unreachable|recommendation not met|rlimit|Resource limit|loop must have|timed out|"
                              r"aborting due to|constructed value may fail|cannot show|failed this|not satisfied", d["message"]))

    @staticmethod
    def benign(d):
        return d["message"].startswith("aborting due to")

    def collect(self, diags, m, path):
        fails = {}
        for d in diags:
            if self.benign(d) or d.get("code"):
                continue
            f, props = self.owner(d, m, os.path.basename(path))
            txt = d["message"]
            where = []
            for s in self.spans(d):
                if s.get("file_name", "").endswith(os.path.basename(path)):
                    where.append(f"{s['line_start']}: {' '.join(t['text'].strip() for t in s.get('text', [])[:2])} [{s.get('label') or ''}]")
            fails.setdefault(f["id"] if f else None, []).append((txt, sorted(props) if props else None, where, d.get("rendered", "")))
        return fails

    def run_vacuity(self, stubs):
        """every inserted `assert(false)` must fail: no contract or invariant excludes everything"""
        path, m = self.gen("v_" + self.name, ["--vacuity"] + (["--stub", ";;".join(stubs)] if stubs else []))
        src = open(path).read().split("\n")
        pts = {i + 1: l for i, l in enumerate(src) if "vp_nondet()" in l and "assert(false)" in l}
        res, diags, raw = self.verus(path, ["--multiple-errors", "60", "--rlimit", "30"])
        hit = set()
        for d in diags:
            for s in self.spans(d):
                if s.get("is_primary") and s["line_start"] in pts:
                    hit.add(s["line_start"])
        base = json.load(open(f"{VERIF}/units/baseline.json")).get(self.name, {}).get("*unreachable", [])
        self.vacuity = (len(pts), len(hit))
        for p, l in pts.items():
            if p not in hit:
                mm = re.search(r"/\*VAC (.*) (\S+)\*/", l)
                tag = f"{mm.group(1)} {mm.group(2)}"
                if tag not in base:
                    self.vacuous.append(tag)
                    self.undecided.setdefault(mm.group(1), f"the point `{mm.group(2)}` is unreachable under the contract (vacuous)")


def scan(text):
    """everything the verifier takes on trust in a generated unit"""
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//") or "// imported" in s:
            continue
        if "external_body" in s or "assume_specification" in s or re.search(r"\b(assume|admit)\s*\(", s) or "axiom fn" in s:
            j = i
            while j < len(lines) and not re.search(r"\b(fn|struct|assume_specification|trait|impl)\b", lines[j]):
                j += 1
            t = lines[min(j, len(lines) - 1)].strip()
            if t not in out:
                out.append(t[:160])
    return out


# ---------------------------------------------------------------- bounded engines
def engines_of(prop):
    rc, o, e = sh([HARNESS, "list"])
    return [l.split()[0] for l in o.splitlines() if prop in l.split()[1].split(",")]


def crash_shrink(engine, case):
    """shrinks a case that kills the process"""
    def bad(c):
        rc, o, e = sh([HARNESS, "case", engine, ",".join(map(str, c))], {"MALLOC_PERTURB_": "165"}, 130)
        return rc not in (0,)
    if not bad(case):
        return case, False
    t, chunk = time.time(), max(1, len(case) // 2)
    while True:
        i, any_ = 0, False
        while i < len(case) and time.time() - t < 30:
            c = case[:i] + case[i + chunk:]
            if bad(c):
                case, any_ = c, True
            else:
                i += chunk
        if (chunk == 1 and not any_) or time.time() - t >= 30:
            return case, True
        chunk = max(1, chunk // 2)


def run_engine(engine, budget, deep, work, seed):
    tr = f"{work}/trace-{engine}-{seed}"
    a = [HARNESS, "run", "--engine", engine, "--budget", str(budget), "--seed", str(seed), "--trace", tr]
    if deep:
        a.append("--deep")
    rc, o, e = sh(a, {"MALLOC_PERTURB_": "165"}, budget / 1000 + 400)
    stat = [l for l in o.splitlines() if l.startswith("STAT")]
    m = re.search(r"^FAIL engine=(\S+) case=(\S*) message=(.*)$", o, re.M)
    if m:
        return {"engine": engine, "case": m.group(2), "message": m.group(3)}, stat
    if rc == 0:
        return None, stat
    l = open(tr).readline().split() if os.path.exists(tr) else []
    case = [int(x) for x in l[1].split(",")] if len(l) > 1 else []
    what = "the process hangs" if rc in (3, -999) else f"the process died (status {rc}) {e.strip().splitlines()[-1] if e.strip() else ''}"
    if rc == 2:
        raise RuntimeError("harness: " + e[-300:])
    if rc not in (3, -999):
        case, sure = crash_shrink(engine, case)
    return {"engine": engine, "case": ",".join(map(str, case)), "message": what}, stat


MIRI = ["S01", "S02", "S03", "T01", "T02", "J01", "A01", "W02"]


def miri(prop, work):
    """thorough: short histories under Miri, which sees every undefined operation"""
    def one(e):
        tr = f"{work}/miri-{e}"
        rc, o, err = sh(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path", f"{VERIF}/harness/Cargo.toml", "--",
                         "run", "--engine", e, "--budget", "240000", "--seed", str(SEED), "--trace", tr],
                        {"CARGO_TARGET_DIR": f"{BUILD}/miri", "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks"}, 1500)
        stat = [l for l in o.splitlines() if l.startswith("STAT")]
        if "Undefined Behavior" in err:
            l = open(tr).readline().split() if os.path.exists(tr) else []
            ub = re.search(r"error: (Undefined Behavior: .*)", err)
            return {"engine": e, "case": l[1] if len(l) > 1 else "", "message": "under Miri: " + (ub.group(1) if ub else "Undefined Behavior")}, stat
        return None, [s + " (Miri)" for s in stat]
    names = engines_of(prop)
    if prop not in MIRI or not names:
        return [], []
    sh(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path", f"{VERIF}/harness/Cargo.toml", "--", "list"],
       {"CARGO_TARGET_DIR": f"{BUILD}/miri"}, 1500)
    fails, stats = [], []
    with cf.ThreadPoolExecutor(6) as ex:
        for f, s in ex.map(one, names):
            stats += s
            if f:
                fails.append(f)
    return fails, stats


def run_engines(prop, budget, deep, work, seeds):
    names = engines_of(prop)
    stats, fails = [], []
    with cf.ThreadPoolExecutor(7) as ex:
        for f, s in ex.map(lambda a: run_engine(a[0], budget, deep, work, a[1]), [(n, sd) for n in names for sd in seeds]):
            stats += s
            if f:
                fails.append(f)
    return names, stats, fails


# ---------------------------------------------------------------- findings
def known(prop):
    p = f"{VERIF}/known_findings.txt"
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    global TIER
    global PROP
    prop = PROP = sys.argv[1]
    if "--tier" in sys.argv:
        TIER = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    work = f"{BUILD}/work/{prop}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    replay = f"{VERIF}/evidence/replay-{prop}.txt"
    if os.path.exists(replay):
        os.remove(replay)
    quick = TIER == "quick"
    units = config.units_of(prop)
    ex = cf.ThreadPoolExecutor(8)
    fh = ex.submit(build_harness)
    rc, o, e = build_extract()
    if rc != 0:
        print("the extractor does not build:", e[-2000:])
        sys.exit(2)
    expanded = expand(work)

    def unit(u):
        x = Unit(u, work, expanded)
        try:
            x.run()
        except Exception as err:  # a broken unit leaves its functions undecided
            x.undecided["*"] = f"{type(err).__name__}: {err}"
        return x
    fu = [ex.submit(unit, u) for u in units]
    rc, o, e = fh.result()
    harness_ok = rc == 0
    names, stats, fails = [], [], []
    if harness_ok:
        try:
            names, stats, fails = run_engines(prop, 8000 if quick else 120000, not quick, work, [SEED] if quick else [SEED, SEED + 1])
            REPLAYED.extend(fails)
        except RuntimeError as err:
            harness_ok = False
            e = str(err)
    us = [f.result() for f in fu]
    confirmed, miri_stats, dep_stats, dep_fails = {}, [], [], []
    if not quick:
        if harness_ok and us:
            try:  # the contracts assumed of the dependencies, against the dependencies themselves
                _, dep_stats, dep_fails = run_engines("DEP", 60000, True, work, [SEED])
            except RuntimeError as err:
                dep_fails = [{"engine": "DEP", "case": "", "message": str(err)}]
        if harness_ok and not fails:
            fails, miri_stats = miri(prop, work)
        confirmed = {u.name: u.confirm() for u in us if not u.failed and not u.undecided}

    def mine(u, fid, props):
        fp = u.fns.get(fid, {}).get("props") or ",".join(config.UNITS[u.name])
        if props:
            return prop in props
        return prop in fp.split(",")
    broken = [(u, fid, [x for x in v if mine(u, fid, x[1])]) for u in us for fid, v in u.failed.items()]
    broken = [b for b in broken if b[2]]
    notes = []
    unsure = any(k.startswith("*") or mine(u, k, None) for u in us for k in u.undecided)
    if (broken or unsure) and not fails and harness_ok:
        # look harder for a concrete history
        names, s2, fails = run_engines(prop, (40000 if broken else 20000) if time.time() - T0 < 400 else 10000, True, work, [SEED + 100, SEED + 200])
        stats += s2
    viol = []
    for f in fails[:5]:
        viol.append(f"replayed on the real code: engine {f['engine']}, case {f['case'] or '(empty)'}: {f['message']}\n"
                    f"  replay: {HARNESS} case {f['engine']} {f['case']} (build it with: CARGO_TARGET_DIR={BUILD}/harness cargo build --offline --manifest-path {VERIF}/harness/Cargo.toml)\n")
    for u, fid, v in broken:
        for x in v:
            viol.append(f"obligation not discharged: {fid} ({u.fns[fid]['file']}:{u.fns[fid]['src_line']}) in unit {u.name}: {x[0]}\n    " + "\n    ".join(x[2]) + "\n" + x[3])
    try:
        files = {f["file"].replace("expanded:", "src/").removesuffix(".rs") + ".rs" for u in us for f in u.fns.values()}
        base_ = json.load(open(f"{VERIF}/units/baseline.json"))
        base = set(base_["*inventory"])
        crate = {"functions": base_["*functions"], "under_no_contract": base_["*no_contract"], "counted": "when units/baseline.json was made"}
        new = sorted({f"{f} | {k} :: {n}" for f, k, n, _ in inventory(expanded) if " for " in k and f.replace("expanded:", "src/").removesuffix(".rs") + ".rs" in files} - base)
    except (OSError, KeyError, ValueError):
        new, crate = [], {}
    und = {x: "a trait method this tree has and the contracts do not know: it has no obligation" for x in new}
    und |= {f"{u.name}: {k}": v for u in us for k, v in u.undecided.items() if k.startswith("*") or mine(u, k, None)}
    und |= {f"assumed contract of a dependency ({f['engine']} {f['case']})": f["message"] for f in dep_fails}
    cases = sum(int(re.search(r"cases=(\d+)", s).group(1)) for s in stats)
    distinct = sum(int(re.search(r"distinct=(\d+)", s).group(1)) for s in stats)
    funcs = []
    for u in us:
        for fid, f in u.fns.items():
            if mine(u, fid, None):
                st = "failed" if fid in u.failed else "undecided" if fid in u.undecided or "*" in u.undecided else "proved"
                funcs.append({"function": fid, "unit": u.name, "source": f"{f['file']}:{f['src_line']}", "status": st, "rewrites": f.get("rules"), "inlined": f.get("inlined"), "contract_only": bool(f.get("stub")) or not f.get("has_body")})
    obligations = sum(u.verified + u.errors for u in us)
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "proof" if us else "exploration",
        "coverage": {
            "obligations": obligations,
            "discharged": sum(u.verified for u in us),
            "checker_cmd": "; ".join(u.cmd for u in us) or "harness",
            "trusted_base": sorted({t for u in us for t in u.trusted}),
            "back_end": "Verus 0.2026.09.13 with its Z3",
            "solver_ms": {u.name: round(u.solver_ms) for u in us},
            "functions_under_contract": funcs,
            "functions_proved": sum(1 for f in funcs if f["status"] == "proved"),
            "undecided": und,
            "confirmed": confirmed or "in the thorough tier",
            "miri": miri_stats or "in the thorough tier, where it applies",
            "assumed_contracts_of_dependencies": dep_stats or "exercised in the thorough tier",
            "crate": crate,
            "vacuity_points": {u.name: {"inserted": u.vacuity[0], "reachable": u.vacuity[1]} for u in us},
            "bounded_stand_in": {"engines": names, "evaluations": cases, "distinct_nontrivial": distinct,
                                 "rule": "cases are lists of operations decoded by each engine: all short ones over a small alphabet, then random ones; distinct = different traces of observed results; bounded, never counted as proved", "stats": stats},
            "evaluations": cases, "distinct_nontrivial": distinct,
            "rule": "bounded replay of operation lists on the real crate against a reference model (see bounded_stand_in)",
            "samples": [s for s in stats[:3]] or ["none"],
        },
        "assumptions": ["each external_body / assume_specification in trusted_base", "the rewrites listed per function are faithful (DESIGN.md)", "machine arithmetic is checked, not idealised"],
        "wall_s": 0, "violations": len(fails) + len(broken),
    }
    kn = known(prop)
    if viol:
        with open(replay, "w") as f:
            f.write("\n".join(viol))
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop} [{TIER}]: {ev['coverage']['discharged']}/{obligations} obligations, {len(funcs)} functions under contract, "
          f"{cases} bounded cases, {ev['wall_s']} s")
    for k, v in und.items():
        print("undecided:", k, "-", v[:300])
    if not harness_ok:
        print("the bounded engines do not build or run:", e[-1500:])
    for l in kn:
        print(f"KNOWN-FINDING: property={prop} {l[0]} {l[1]}")
    if viol:
        print(open(replay).read()[:4000])
        print(f"VIOLATION property={prop} replay={replay}" + ("" if fails else " no-failing-input-found"))
        sys.exit(1)
    if not harness_ok and (und or not us):
        sys.exit(2)
    sys.exit(0)


main()
