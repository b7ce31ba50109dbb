#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decides one property for the code in /repo.

1. vex extracts the functions of /repo's current source mechanically, puts the contracts of
   contracts/*.vc on them, and Verus verifies every function against its contract.
2. The property's operations are run on the real crate against an independent model
   (native/), to find a concrete input when an obligation fails, and to cover what carries
   no contract.

Exit 0: nothing violated. Exit 1: a VIOLATION line was printed.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
TARGET = os.path.join(BUILD, "target")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
ENV.pop("RUSTFLAGS", None)
SYSTEM_LEAPS = "/usr/share/zoneinfo/right/UTC"

# messages of Verus for an obligation that is not discharged
FAILED = (
    "postcondition not satisfied", "precondition not satisfied", "assertion failed", "assertion not satisfied",
    "possible arithmetic underflow/overflow", "possible division by zero", "possible bit shift underflow/overflow",
    "invariant not satisfied", "decreases not satisfied", "requires not satisfied", "unreachable", "possible overflow",
    "bitvector assertion not satisfied", "bitvector ensures not satisfied", "could not prove termination", "recommendation not met", "loop invariant",
)
LIMIT = ("resource limit", "rlimit", "timed out", "canceled")


def run(cmd, timeout, **kw):
    """(return code, stdout, stderr); the return code is None after a timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         start_new_session=True, env=kw.pop("env", ENV), **kw)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        return None, out, err


# ---------------------------------------------------------------- building

def build_vex():
    rc, out, err = run(["cargo", "build", "--offline", "--release", "--quiet", "--target-dir", os.path.join(TARGET, "vex")],
                       600, cwd=os.path.join(V, "tool"))
    exe = os.path.join(TARGET, "vex", "release", "vex")
    if rc != 0 or not os.path.exists(exe):
        sys.stderr.write("building vex failed:\n" + err[-3000:])
        return None
    return exe


def build_native(hooks, profile="release"):
    """the native harness against /repo's working tree, None if that does not compile; profile wrap has no overflow checks"""
    target = os.path.join(TARGET, "native-hooks" if hooks else "native-plain")
    src = os.path.join(V, "native")
    if REPO != "/repo":
        d = os.path.join(BUILD, "native-src")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(src, d)
        t = open(os.path.join(d, "Cargo.toml")).read().replace('"/repo"', json.dumps(REPO))
        open(os.path.join(d, "Cargo.toml"), "w").write(t)
        src = d
    env = dict(ENV)
    env["RUSTFLAGS"] = ("--cfg momentous_verify " if hooks else "") + "-Awarnings"
    rc, out, err = run(["cargo", "build", "--offline", "--profile", profile, "--quiet", "--target-dir", target], 600, cwd=src, env=env)
    exe = os.path.join(target, profile, "vnative")
    if rc != 0 or not os.path.exists(exe):
        return None, err[-4000:]
    return exe, ""


# ---------------------------------------------------------------- deductive verification

class Verification:
    def __init__(self):
        self.functions = []       # of the extraction
        self.errors = []          # {fn, file, message, rendered, kind: failed|limit|other}
        self.verified = 0
        self.smt = {}             # module::function -> (success, ms)
        self.extraction = {}
        self.ran = False
        self.trouble = ""
        self.seconds = 0.0
        self.smt_ms = 0
        self.skipped = []
        self.trusted = []
        self.cmd = ""


def markers(path):
    """[(first line, last line, function key)] of an overlay file"""
    res, cur = [], None
    for i, l in enumerate(open(path, errors="replace"), 1):
        m = re.search(r"/\*@fn (.*?)\*/", l)
        if m:
            cur = (i, m.group(1))
        if "/*@endfn*/" in l and cur:
            res.append((cur[0], i, cur[1]))
            cur = None
    return res


def scan_trusted(ov):
    """every assumption in the verified text"""
    res = []
    for root, _, files in os.walk(os.path.join(ov, "src")):
        for f in sorted(files):
            p = os.path.join(root, f)
            lines = open(p, errors="replace").read().split("\n")
            rel = os.path.relpath(p, ov)
            for i, l in enumerate(lines):
                code = l.split("//")[0]
                for pat in ("external_body", "axiom fn", "assume_specification", "admit(", "assume(", "external_type_specification",
                            "uninterp spec fn", "external_trait_specification"):
                    if pat not in code:
                        continue
                    what = next((x.strip() for x in lines[i:i + 6] if re.search(r"\b(fn|struct|trait|enum|assume_specification)\b", x)), code.strip())
                    res.append("%s: %s (%s)" % (rel, re.sub(r"\s+", " ", what)[:110], pat.strip("(")))
    return sorted(set(res))


def verify(vex, work, rlimit=30):
    v = Verification()
    skip = set()
    begin = time.time()
    for attempt in range(12):
        ov = os.path.join(work, "overlay")
        shutil.rmtree(ov, ignore_errors=True)
        rc, out, err = run([vex, REPO, os.path.join(V, "contracts"), ov] + sorted(skip), 120)
        if rc != 0:
            v.trouble = "extraction failed: " + err[-2000:]
            return v
        v.extraction = json.load(open(os.path.join(ov, "extraction.json")))
        v.functions = v.extraction["functions"]
        marks = {}
        for root, _, files in os.walk(os.path.join(ov, "src")):
            for f in files:
                p = os.path.join(root, f)
                marks[os.path.relpath(p, ov)] = markers(p)
        cmd = ["verus", "--crate-type", "lib", "src/lib.rs", "--rlimit", str(rlimit), "--output-json", "--time-expanded",
               "--multiple-errors", "5", "--triggers-mode", "silent", "--error-format=json"]
        v.cmd = " ".join(cmd)
        rc, out, err = run(cmd, 400, cwd=ov)
        if rc is None:
            v.trouble = "Verus did not finish"
            return v
        try:
            js = json.loads(out[out.index("{"):])
        except ValueError:
            js = {}
        res = js.get("verification-results", {})
        errors = []
        for l in err.split("\n"):
            try:
                d = json.loads(l)
            except ValueError:
                if "panicked" in l or "internal error" in l:
                    v.trouble = "Verus: " + l[:500]
                continue
            if d.get("level") != "error" or not d.get("spans"):
                continue
            spans = sorted(d["spans"], key=lambda s: not s["is_primary"])
            # a failed postcondition of a trait's declaration belongs to the impl that fails it
            ats = [(f, k) for f, s in ((s["file_name"], s) for s in spans)
                   for a, b, k in marks.get(f, []) if a <= s["line_start"] <= b]
            at = next((x for x in ats if not x[1].startswith("trait ")), ats[0] if ats else None)
            m = d["message"]
            kind = "limit" if any(x in m.lower() for x in LIMIT) else "failed" if any(m.startswith(x) for x in FAILED) else "other"
            errors.append({"file": at[0] if at else spans[0]["file_name"], "fn": at[1] if at else None, "message": m, "kind": kind,
                           "rendered": (d.get("rendered") or "")[:3000]})
        done = bool(res) and not res.get("encountered-vir-error") and not any(e["kind"] == "other" for e in errors)
        if done and "verified" in res:
            v.ran = True
            v.errors = errors
            v.verified = res.get("verified", 0)
            v.skipped = sorted(skip)
            v.seconds = time.time() - begin
            v.smt_ms = js.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
            for m in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
                for f in m.get("function-breakdown", []):
                    v.smt[f["function"]] = (f.get("success", False), f.get("time-micros", 0) / 1000.0, f.get("mode:", ""))
            v.trusted = scan_trusted(ov)
            v.trouble = ""
            return v
        new = {"%s|%s" % (e["file"], e["fn"]) for e in errors if e["kind"] != "failed" and e["fn"]} - skip
        if not new:
            new = {"%s|%s" % (e["file"], e["fn"]) for e in errors if e["fn"]} - skip
        v.trouble = "; ".join("%s: %s" % (e["fn"] or e["file"], e["message"]) for e in errors)[:3000] or (v.trouble or err[-1500:])
        if not new:
            return v
        skip |= new
    return v


# ---------------------------------------------------------------- native search

# properties whose statement covers builds without overflow checks
WRAP = ("C14",)


def dictionary(path):
    """the integers written in /repo's source, to search near"""
    nums = set()
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            if not f.endswith(".rs"):
                continue
            t = open(os.path.join(root, f), errors="replace").read().split("#[cfg(test)]")[0]
            t = re.sub(r"//[^\n]*", "", t)
            for m in re.findall(r"\b0x[0-9a-fA-F_]+|\b\d[\d_]*", t):
                try:
                    n = int(m.replace("_", ""), 0) if m.startswith("0x") else int(m.replace("_", ""))
                except ValueError:
                    continue
                if 4 < n < 2 ** 100:
                    nums.add(n)
    nums |= {365, 366, 1440, 86400, 1461, 36524, 146097, 999_999_999, 60, 3600, 719528, 2932896}
    open(path, "w").write(" ".join(map(str, sorted(nums))))


def native(exe, prop, seed, secs, work, extra=()):
    rep = os.path.join(work, "report.json")
    scratch = os.path.join(work, "leaps")
    os.makedirs(scratch, exist_ok=True)
    if os.path.exists(rep):
        os.remove(rep)
    d = os.path.join(work, "dict")
    dictionary(d)
    rc, out, err = run([exe, prop, str(seed), str(secs), scratch, SYSTEM_LEAPS, d, rep], secs + 120)
    try:
        return json.load(open(rep)), rc
    except (OSError, ValueError):
        return None, rc


# ---------------------------------------------------------------- main

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if not args:
        print(__doc__)
        return 2
    if args[0] == "--setup" or "--setup" in sys.argv:
        return 0
    prop = args[0]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    begin = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replay"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        return decide(prop, tier, seed, begin, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def spec_of(prop):
    for l in open(os.path.join(V, "properties.jsonl")):
        d = json.loads(l)
        if d["id"] == prop:
            return d
    raise SystemExit("no property " + prop)


def decide(prop, tier, seed, begin, work):
    spec = spec_of(prop)
    notes = []
    # --- deductive verification
    vex = build_vex()
    v = verify(vex, work) if vex else Verification()
    if not vex:
        v.trouble = "the extraction tool did not build"
    if v.ran and any(e["kind"] == "limit" for e in v.errors):
        w = verify(vex, work, rlimit=120)
        if w.ran:
            v = w
    mine = [f for f in v.functions if prop in f["tags"] and not f.get("declaration")]
    others = [f for f in v.functions if prop not in f["tags"]]
    names = {(f["file"], f["fn"]): f for f in v.functions}
    limits = {(e["file"], e["fn"]) for e in v.errors if e["kind"] == "limit"}
    failed = {}
    stray = []
    for e in v.errors:
        if e["kind"] != "failed":
            continue
        if e["fn"] is None or (e["file"], e["fn"]) not in names:
            stray.append(e)
        else:
            failed.setdefault((e["file"], e["fn"]), []).append(e)
    free = set()
    for u in v.extraction.get("uncontracted", []):
        if " for " not in u["fn"] and u["fn"] != "add":
            n = u["fn"].split("::")[-1]
            free |= {n, "." + n} if "::" in u["fn"] else {n}

    def loose(f):
        if f.get("loose_closures"):
            return "it has a closure without contract"
        c = sorted(free & set(f.get("calls", [])))
        return "it calls %s, which has no contract" % c[0].strip(".") if c else ""

    undecided, broken, proved = [], [], []
    for f in mine:
        k = (f["file"], f["fn"])
        if not v.ran:
            undecided.append((f, "Verus did not run to the end: " + v.trouble[:300]))
        elif f["skipped"]:
            undecided.append((f, "its text is outside what Verus accepts"))
        elif f["problems"]:
            undecided.append((f, "; ".join(f["problems"])))
        elif k in limits:
            undecided.append((f, "the solver gave up"))
        elif k in failed and loose(f):
            # nothing is known about what it calls: an undischarged obligation says nothing about the code
            undecided.append((f, "%s: %s" % (loose(f), failed[k][0]["message"])))
        elif k in failed:
            broken.append((f, failed[k]))
        elif f["external_body"]:
            undecided.append((f, "its contract is assumed (external_body)"))
        else:
            proved.append(f)
    missing = [m for m in v.extraction.get("missing", [])]
    for e in stray:
        if e["file"].startswith("src/v") or not v.ran:
            notes.append("lemma not proved: %s: %s" % (e["file"], e["message"]))
        elif any(f["file"] == e["file"] for f in mine) or (e["file"] == "src/scale.rs" and prop in ("C11", "C12")):
            broken.append(({"fn": "lemma in " + e["file"], "file": e["file"], "line": 0, "tags": [prop]}, [e]))
    dep_problems = sorted({"%s" % f["fn"] for f in others if (f["file"], f["fn"]) in failed or f["skipped"] or f["problems"] or (f["file"], f["fn"]) in limits})
    # --- the real code
    exe, why = build_native(True)
    hooks = exe is not None
    if exe is None:
        notes.append("the hooks do not compile with this tree; only the public interface was run: " + why[-600:])
        exe, why2 = build_native(False)
        if exe is None:
            notes.append("the native harness does not compile: " + why2[-600:])
    rep, wrapped = None, 0
    if exe:
        secs = 240 if tier == "thorough" else 20
        rep, rc = native(exe, prop, seed, secs, work)
        if rep and not rep["failure"] and prop in WRAP:
            # the same operations where arithmetic is not checked by the compiler, as in a release build
            exe3, why3 = build_native(hooks, "wrap")
            rep3, rc3 = native(exe3, prop, seed + 1, secs / 4, work) if exe3 else (None, 1)
            if rep3:
                wrapped = rep3["evaluations"]
                if rep3["failure"]:
                    rep3["failure"]["profile"] = "wrap"
                    rep3["evaluations"] += rep["evaluations"]
                    rep = rep3
            else:
                notes.append("the harness without overflow checks did not run: " + why3[-300:])
        unproved = [f for f, w in undecided if not f["external_body"]]
        if rep and not rep["failure"] and (broken or dep_problems or unproved):
            # an obligation failed, here or in a callee, or could not be stated: look harder for an input
            rep2, rc = native(exe, prop, seed + 77, 600 if tier == "thorough" else 150, work)
            if rep2:
                rep2["evaluations"] += rep["evaluations"]
                rep = rep2
        if rep is None:
            notes.append("the native harness did not finish (exit %s)" % rc)
        elif not hooks:
            notes.append("native operations that need the hooks were not run")

    # --- verdict
    known = known_findings(prop)
    violation = None
    fail = rep and rep.get("failure")
    if fail and any(k.get("op") == fail["op"] and k.get("args") == fail["args"] for k in known):
        fail = None
    enumerated = bool(rep) and prop == "C01" and hooks and len(rep.get("exhaustive", [])) >= 2 and not fail
    if fail:
        path = os.path.join(V, "replay", prop + ".json")
        d = dict(fail, property=prop, title=spec["title"], replay_cmd="python3 /verif/replay.py " + path,
                 failed_obligations=[{"function": f["fn"], "file": f["file"], "errors": [e["rendered"] for e in es]} for f, es in broken])
        json.dump(d, open(path, "w"), indent=1)
        print("%s: %s" % (fail["call"], fail["what"]))
        violation = "VIOLATION property=%s replay=%s" % (prop, path)
    elif broken and not enumerated:
        path = os.path.join(V, "replay", prop + ".txt")
        with open(path, "w") as o:
            o.write("property %s: %s\n\nObligations that hold for the unchanged code and fail for this one:\n" % (prop, spec["title"]))
            for f, es in broken:
                o.write("\n== %s (%s:%s)\n" % (f["fn"], f["file"], f["line"]))
                for e in es:
                    o.write(e["rendered"] + "\n")
            o.write("\nNo failing input was found in %d runs of the real code.\n" % (rep["evaluations"] if rep else 0))
        for f, es in broken:
            print("obligation failed: %s (%s:%s): %s" % (f["fn"], f["file"], f["line"], es[0]["message"]))
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path)
    elif broken:
        notes.append("obligations failed, but every input in the domain was enumerated and is right: " + ", ".join(f["fn"] for f, _ in broken))

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    # --- evidence
    obligations = len(mine) + sum(1 for n, s in v.smt.items() if s[2] == "proof")
    discharged = len(proved) + sum(1 for n, s in v.smt.items() if s[2] == "proof" and s[0])
    vacuity = probe_run(vex, work, mine) if tier == "thorough" and v.ran and not v.errors else None
    times = {}
    for n, s in v.smt.items():
        for f in mine:
            if n.endswith("::" + f["name"]) and os.path.basename(f["file"])[:-3] in n:
                times[f["fn"]] = round(s[1], 1)
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": v.cmd or "verus (did not run)",
        "trusted_base": v.trusted,
        "functions_under_contract": [{"fn": f["fn"], "at": "%s:%s-%s" % (f["file"], f["line"], f["end_line"]),
                                      "status": "proved", "backend": "Verus/Z3", "solver_ms": times.get(f["fn"])} for f in proved]
        + [{"fn": f["fn"], "at": "%s:%s" % (f["file"], f["line"]), "status": "obligation failed"} for f, _ in broken]
        + [{"fn": f["fn"], "at": "%s:%s" % (f["file"], f["line"]), "status": "bounded only: " + w} for f, w in undecided],
        "lemmas_proved": sum(1 for n, s in v.smt.items() if s[2] == "proof" and s[0]),
        "verus_functions_verified_in_total": v.verified,
        "verus_wall_s": round(v.seconds, 1),
        "solver_ms": v.smt_ms,
        "callee_contracts_not_proved": dep_problems,
        "contract_anchors_missing": missing,
        "text_dropped_by_the_extraction": ["%s:%s %s" % (e["file"], e["line"], e["what"]) for e in v.extraction.get("edits", []) if e["kind"] == "dropped"],
        "dependency_functions_verified_from_registry_text": sorted(set("%s:%s %s" % ("/".join(e["file"].split("/")[-3:]), e["line"], e["what"]) for e in v.extraction.get("edits", []) if e["kind"] == "dependency-text")),
        "dependency_functions_assumed_source_missing": sorted(set("%s %s" % (e["file"], e["what"]) for e in v.extraction.get("edits", []) if e["kind"] == "dependency-assumed")),
        "functions_without_contract": ["%s:%s %s" % (u["file"], u["line"], u["fn"]) for u in v.extraction.get("uncontracted", [])],
    }
    if vacuity is not None:
        cov["vacuity_probes"] = vacuity
    if rep:
        cov.update({
            "evaluations": rep["evaluations"],
            "rule": "random inputs (small, boundary, near the constants of the source, around leap seconds) run on the real crate and compared with an independent model; every one is compared in full",
            "samples": rep["samples"],
            "native_operations": rep["per_operation"],
            "enumerated_completely": rep["exhaustive"],
            "leap_second_tables": rep["tables"],
            "harness_panics": rep["harness_panics"],
            "hooks": rep["hooks"],
        })
        if wrapped:
            cov["evaluations_without_overflow_checks"] = wrapped
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
        "assumptions": ["only inputs the stated preconditions allow are covered by the proof; see the `requires` clauses in contracts/"] + notes,
        "wall_s": round(time.time() - begin, 1), "violations": 1 if violation else 0,
    }
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d of %d tagged functions proved, %d failed, %d undecided; %d lemmas; %s native runs; %.0f s" % (
        prop, len(proved), len(mine), len(broken), len(undecided), cov["lemmas_proved"], rep["evaluations"] if rep else "no", time.time() - begin))
    for f, w in undecided:
        print("  undecided by proof: %s: %s" % (f["fn"], w[:160]))
    for n in notes:
        print("  note: " + n[:400].replace("\n", " "))
    if v.trouble and not v.ran:
        print("  note: " + v.trouble[:400].replace("\n", " "))
    if violation:
        print(violation)
        return 1
    return 0


def probe_run(vex, work, mine):
    """every function in turn is asked to ensure `false`: that must not be provable"""
    want = [f for f in mine if not f["external_body"] and not f["skipped"] and not f["fn"].startswith("macro ")]

    def one(k):
        f = want[k]
        ov = os.path.join(work, "probe%d" % k)
        env = dict(ENV, VEX_PROBE="%s|%s" % (f["file"], f["fn"]))
        rc, out, err = run([vex, REPO, os.path.join(V, "contracts"), ov], 120, env=env)
        changed = rc == 0 and any("ensures false" in open(p, errors="replace").read() for p in [os.path.join(ov, f["file"])])
        mod = f["file"][4:-3].replace("/mod", "").replace("/", "::")
        rc, out, err = run(["verus", "--crate-type", "lib", "src/lib.rs", "--rlimit", "30", "--triggers-mode", "silent",
                            "--verify-only-module", mod], 300, cwd=ov)
        shutil.rmtree(ov, ignore_errors=True)
        return f["fn"], changed, "postcondition not satisfied" in err or "assertion failed" in err

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        got = list(ex.map(one, range(len(want))))
    return {"functions": len(want), "not_vacuous": sum(1 for _, c, e in got if c and e),
            "probe_could_not_be_set": [n for n, c, e in got if not c],
            "vacuous": [n for n, c, e in got if c and not e]}


def known_findings(prop):
    try:
        d = json.load(open(os.path.join(V, "known-findings.json")))
    except OSError:
        return []
    return [f for f in d.get("findings", []) if f["property"] == prop]


if __name__ == "__main__":
    sys.exit(main())
