#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property on /repo's current tree.

1. vx extracts the functions under contract from /repo and weaves the contracts of
   specs/<unit>.rs into them; Verus discharges every obligation, function by function.
2. vacuity canaries: with `assert(false)` put at the start of every function under
   contract, every one of them must fail.
3. the replay crate runs the real code against the property's executable oracle,
   to turn a failed obligation into a failing input (and as the bounded stand-in for
   functions that could not be extracted or are trusted).
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(HERE, "work")
VX = os.path.join(HERE, "tools/vx/target/release/vx")
LOCALS = os.path.join(HERE, "specs/locals.tsv")
BASE = os.path.join(HERE, "specs/baseline.json")
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, UNITS  # noqa: E402


def sh(cmd, timeout=None, cwd=None, env=None):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=e, start_new_session=True)
    try:
        so, se = p.communicate(timeout=timeout)
        return p.returncode, so.decode("utf8", "replace"), se.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        so, se = p.communicate()
        return -999, so.decode("utf8", "replace"), se.decode("utf8", "replace")


def build_vx():
    rc, _, err = sh(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(HERE, "tools/vx"))
    if rc != 0:
        raise RuntimeError("the extractor does not build: " + err[-2000:])


def start_replay_build(crate="replay"):
    return subprocess.Popen(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(HERE, crate),
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


# ------------------------------------------------------------------ Verus on one unit
class UnitRun:
    def __init__(self, unit):
        self.unit = unit
        self.recs = []
        self.fails = []      # (function id, message, rendered)
        self.external = {}   # function id -> reason it could not be brought under contract
        self.dead = None     # the whole unit could not be processed
        self.funcs = []      # function-breakdown
        self.errors_raw = ""
        self.secs = 0.0
        self.cmd = ""
        self.out = ""
        self.retried = False

    def owner(self, line):
        for r in self.recs:
            if "lines" in r and r["lines"][0] <= line <= r["lines"][1]:
                return r
        return None


def text_owner(path, line):
    ls = open(path).read().split("\n")
    i = min(line, len(ls)) - 1
    while i >= 0:
        m = re.search(r"\bfn (\w+)", ls[i])
        if m:
            return "text " + m.group(1)
        i -= 1
    return "text ?"


def parse_diag(err, u, path):
    """-> (compile errors [(line, message)], failures [(id, message, rendered, kind)])"""
    comp, fails, rl = [], [], []
    for l in err.splitlines():
        if not l.startswith("{"):
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") != "error":
            if "Resource limit" in d.get("message", "") or "rlimit" in d.get("message", ""):
                d["level"] = "error"
            else:
                continue
        msg = d["message"]
        if msg.startswith("aborting due to"):
            continue
        spans = [s for s in d["spans"] if s["file_name"].endswith(os.path.basename(path))]
        verif = (re.search(r"not satisfied|assertion failed|possible (arithmetic|division|bit|unwinding)|failed|overflow|underflow|"
                           r"Resource limit|rlimit|unreachable|might not|decreases|recommendation|exhausted|could not|"
                           r"loop invariant|cannot prove|not be proved", msg) is not None
                 and d.get("code") is None and spans != [])
        # diagnostics of the front end never carry these shapes
        if verif and re.search(r"not supported|unsupported|expected|cannot find|mismatched|cyclic|must be|prophetic value", msg):
            verif = False
        if not verif:
            prim = [s["line_start"] for s in spans if s["is_primary"]] or [s["line_start"] for s in spans]
            comp.append((prim[0] if prim else None, msg, d.get("rendered", "")))
            continue
        prefer_secondary = msg.startswith("postcondition")
        order = sorted(spans, key=lambda s: (s["is_primary"] if prefer_secondary else not s["is_primary"]))
        who = None
        for s in order:
            r = u.owner(s["line_start"])
            if r and r["kind"] == "fn":
                who = r["path"]
                break
        if who is None and order:
            who = text_owner(path, order[0]["line_start"])
        fails.append((who or "?", msg, d.get("rendered", "")))
    return comp, fails


# A check has 900 s; the verifier gets at most this long of it.
T0 = time.time()
BUDGET = 660


# Properties that say a function returns.
TERMINATION = ("C10", "C20")


def slice_of_time():
    return max(30, min(200, T0 + BUDGET - time.time()))


def run_unit(unit, canary=False, bless=False, rlimit=None, keep=None, ext=None):
    u = UnitRun(unit)
    os.makedirs(WORK, exist_ok=True)
    tag = unit + ("_canary" if canary else "")
    out = os.path.join(WORK, tag + ".rs")
    rep = os.path.join(WORK, tag + ".json")
    u.out = out
    external = dict(ext or {})
    canaries = []
    t0 = time.time()
    for attempt in range(8):
        cmd = [VX, REPO, os.path.join(HERE, "specs", unit + ".rs"), out, rep, LOCALS]
        if bless:
            cmd.append("--bless")
        for e in external:
            cmd += ["--external", e]
        if canary:
            for e in (keep or []):
                cmd += ["--canary", e]
        rc, so, se = sh(cmd, timeout=120)
        if rc != 0:
            u.dead = "extraction failed: " + se[-1500:]
            break
        u.recs = json.load(open(rep))
        for r in u.recs:
            if r["kind"] == "fn" and r["unsupported"] and r["path"] not in external:
                external[r["path"]] = "unsupported construct: " + "; ".join(r["unsupported"])[:400]
            if r["kind"] == "missing":
                external[r["path"]] = r["error"]
        if canary:
            # the canaries are in the functions; the lemmas are proved in the other run
            t = open(out).read()
            t = re.sub(r"^(\s*)((?:pub )?(?:broadcast )?proof fn )", r"\1#[verifier::external_body] \2", t, flags=re.M)
            with open(out, "w") as f:
                f.write(t)
        vc = ["verus", out, "--output-json", "--time-expanded", "--triggers-mode", "silent", "--multiple-errors", "3"]
        extra = UNITS[unit].get("flags", [])
        vc += extra
        if rlimit:
            vc += ["--rlimit", str(rlimit)]
        vc += ["--", "--error-format=json"]
        u.cmd = " ".join(vc)
        rc, so, se = sh(vc, timeout=slice_of_time(), cwd=WORK)
        if rc == -999:
            # looking for further errors after the first can take forever
            vc[vc.index("--multiple-errors") + 1] = "0"
            u.cmd = " ".join(vc)
            rc, so, se = sh(vc, timeout=slice_of_time(), cwd=WORK)
        u.errors_raw = se
        if rc == -999:
            # leave out what is not as it was when the contracts were written
            try:
                base = json.load(open(BASE)).get(unit, {})
            except (OSError, ValueError):
                base = {}
            new = [r["path"] for r in u.recs if r["kind"] == "fn" and r["path"] not in external and base.get(r["path"], {}).get("hash") != r["hash"]]
            if new and time.time() < T0 + BUDGET:
                for x in new:
                    external[x] = "changed, and the verifier did not finish in time on it"
                continue
            u.dead = "Verus did not finish in time"
            break
        comp, fails = parse_diag(se, u, out)
        try:
            j = json.loads(so)
        except ValueError:
            j = None
        if comp:
            progress = False
            for line, msg, _ in comp:
                r = u.owner(line) if line else None
                if r and r["kind"] == "fn" and r["path"] not in external:
                    external[r["path"]] = "not accepted by the verifier's front end: " + msg[:300]
                    progress = True
            if not progress:
                # nothing says where: leave out what is not as it was when the contracts were written
                try:
                    base = json.load(open(BASE)).get(unit, {})
                except (OSError, ValueError):
                    base = {}
                for r in u.recs:
                    if r["kind"] == "fn" and r["path"] not in external and base.get(r["path"], {}).get("hash") != r["hash"]:
                        external[r["path"]] = "changed, and the verifier's front end rejects the unit: " + comp[0][1][:300]
                        progress = True
            if progress:
                continue
            u.dead = "the verifier's front end rejects the unit: " + "; ".join(m for _, m, _ in comp)[:1500]
            break
        if j is None or j["verification-results"].get("encountered-vir-error"):
            u.dead = "the verifier gave no result: " + se[-1500:]
            break
        u.fails = fails
        for m in j["times-ms"]["smt"].get("smt-run-module-times", []):
            u.funcs += m.get("function-breakdown", [])
        u.json = j
        if j["verification-results"]["errors"] > 0 and not fails:
            u.fails = [("?", "unattributed verification error", se[-3000:])]
        break
    else:
        u.dead = "extraction did not stabilise"
    u.external = external
    u.secs = time.time() - t0
    return u


# ------------------------------------------------------------------ trusted base
def scan_trusted(path):
    t = open(path).read()
    out = []
    for m in re.finditer(r"assume_specification(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]", t):
        out.append("assumed contract of external function " + " ".join(m.group(1).split()))
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*((?:pub )?(?:broadcast )?(?:proof )?(?:fn|struct|enum|type)\s+\w+)", t):
        out.append("external_body: " + m.group(1))
    for m in re.finditer(r"#\[verifier::exec_allows_no_decreases_clause\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?fn\s+(\w+)", t):
        if m.group(1) != "vx_unreachable":
            out.append("partial correctness only (termination not proved): " + m.group(1))
    for m in re.finditer(r"\b(assume|admit)\s*\(", t):
        out.append("UNPROVED: " + t[m.start():m.start() + 60].replace("\n", " "))
    return out


def relevant(pid, unit, path):
    pats = PROPS[pid]["units"][unit]
    return path.startswith("derive(") or any(re.search(p, path) for p in pats)


def structure_changed(base, r):
    b = base.get(r["path"])
    if b is None:
        return True
    return (b["loops"] != r["loops"] or b["rewrites"] != sorted(r["rewrites"].items()) and
            [list(x) for x in sorted(r["rewrites"].items())] != b["rewrites"]) or bool(r["lost"]) or (
            # loop invariants stand where they did only if the control constructs come in the same order
            b["loops"] > 0 and b.get("skel", r["skel"]) != r["skel"])


# ------------------------------------------------------------------ replay
def replay_search(pid, seed, ms, procs, crate="replay", timeout=None):
    exe = os.path.join(HERE, crate, "target/debug", crate)
    ps = []
    rid = PROPS[pid].get("replay", pid)
    for k in range(procs):
        trace = os.path.join(WORK, "trace_%s_%d.txt" % (pid, k))
        e = dict(os.environ)
        ps.append((k, trace, subprocess.Popen([exe, rid, str(seed * 1000 + k), str(ms)], stdout=subprocess.PIPE,
                                              stderr=subprocess.PIPE, env=e, cwd=WORK)))
    res = {"evaluations": 0, "distinct_nontrivial": 0, "samples": []}
    fail = None
    for k, trace, p in ps:
        try:
            so, se = p.communicate(timeout=(timeout or ms / 1000.0 + 120))
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
        so = so.decode("utf8", "replace")
        if p.returncode == 3 and "FAIL " in so:
            fail = fail or (seed * 1000 + k, so[so.index("FAIL "):])
        elif p.returncode == 0 and so.startswith("OK "):
            try:
                j = json.loads(so[3:])
            except ValueError:
                j = {"evaluations": int(re.search(r'"evaluations":(\d+)', so).group(1)),
                     "distinct_nontrivial": int(re.search(r'"distinct_nontrivial":(\d+)', so).group(1)), "samples": []}
            res["evaluations"] += j["evaluations"]
            res["distinct_nontrivial"] += j["distinct_nontrivial"]
            res["samples"] += j["samples"][:4]
        elif p.returncode == 0 and so.startswith("NONE"):
            res = None
            break
        else:
            # crashed (e.g. stack overflow): find the input
            e = dict(os.environ)
            e["REPLAY_TRACE"] = trace
            if os.path.exists(trace):
                os.remove(trace)
            p2 = subprocess.run([exe, rid, str(seed * 1000 + k), str(ms * 20)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                env=e, cwd=WORK, timeout=600)
            so2 = p2.stdout.decode("utf8", "replace")
            if p2.returncode == 3 and "FAIL " in so2:
                fail = fail or (seed * 1000 + k, so2[so2.index("FAIL "):])
            elif p2.returncode not in (0, 3):
                inp = open(trace).read() if os.path.exists(trace) else "?"
                m = re.match(r"case (\d+): ", inp)
                fail = fail or (seed * 1000 + k, "FAIL %s case %s\ninput: %s\nthe code under test kills the process (status %s)\n" % (
                    rid, m.group(1) if m else "?", inp, p2.returncode))
    for _, _, p in ps:
        shutil.rmtree(os.path.join(WORK, "scratch_%d" % p.pid), ignore_errors=True)
    if res:
        res["samples"] = res["samples"][:8]
    return res, fail


# ------------------------------------------------------------------ main
def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    P = PROPS[pid]
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    crate = P.get("crate", "replay")
    rb = start_replay_build(crate)
    build_vx()
    base_all = json.load(open(BASE)) if os.path.exists(BASE) else {}

    obligations = discharged = 0
    failed = []          # definite
    lost = []            # (fn, reason): obligations that could not be decided
    functions, solver_ms, trusted, cmds, rewrites, vac = [], 0.0, [], [], {}, []
    assumed_callees = []
    for unit in P["units"]:
        base = base_all.get(unit, {})
        u = run_unit(unit)
        if not u.dead and any("esource limit" in m or "rlimit" in m for _, m, _ in u.fails):
            u = run_unit(unit, rlimit=60, ext={k: v for k, v in u.external.items()})
        cmds.append(u.cmd)
        if u.dead:
            lost.append((unit, u.dead))
            obligations += 1
            continue
        fl = {}
        for who, msg, rendered in u.fails:
            fl.setdefault(who, []).append((msg, rendered))
        trusted += scan_trusted(u.out)
        for f in u.funcs:
            solver_ms += f["time-micros"] / 1000.0
        textfails = {w: v for w, v in fl.items() if w.startswith("text ") or w == "?"}
        keep = []
        for r in u.recs:
            if r["kind"] == "item":
                continue
            rel = relevant(pid, unit, r["path"])
            if r["path"] in u.external:
                if rel:
                    obligations += 1
                    lost.append((r["path"], u.external[r["path"]]))
                else:
                    assumed_callees.append(r["path"] + " (not extracted: " + u.external[r["path"]][:120] + ")")
                continue
            keep.append(r["path"])
            if not rel:
                continue
            obligations += 1
            functions.append("%s %s" % (r["file"], r["path"]))
            for k, v in r["rewrites"].items():
                rewrites[k] = rewrites.get(k, 0) + v
            if r["path"] in fl:
                det = fl[r["path"]]
                msgs = "; ".join(sorted(set(m for m, _ in det)))
                if pid not in TERMINATION and all(re.search("decreases|termination", m) for m, _ in det):
                    lost.append((r["path"], "its termination, which this property does not ask for, is not shown any more (%s)" % msgs))
                    lost_detail.append((r["path"], msgs, "".join(x for _, x in det)))
                elif structure_changed(base, r):
                    lost.append((r["path"], "restructured, its loop invariants or anchors no longer fit (%s)" % msgs))
                    failed_soft = (r["path"], msgs, "".join(x for _, x in det))
                    lost_detail.append(failed_soft)
                else:
                    failed.append((r["path"], msgs, "".join(x for _, x in det)))
            else:
                discharged += 1
        # lemmas and spec functions
        nl = len([f for f in u.funcs if f["mode:"] == "proof" or f["mode:"] == "spec"])
        obligations += nl
        discharged += nl - min(nl, len(textfails))
        for w, det in textfails.items():
            lost.append((w, "; ".join(m for m, _ in det)))
        # vacuity
        if not u.fails and not u.dead:
            c = run_unit(unit, canary=True, keep=keep, ext=u.external)
            bad = set(w for w, _, _ in c.fails)
            vac.append({"unit": unit, "canaries": len(keep), "failed_as_they_must": len([k for k in keep if k in bad])})
            for k in keep:
                if k not in bad and not c.dead and relevant(pid, unit, k):
                    lost.append((k, "vacuous: assert(false) is provable at its start"))

    # replay
    so, _ = rb.communicate()
    have_replay = rb.returncode == 0
    suspicious = bool(failed or lost)
    ms = P.get("ms", 6000)
    if tier == "thorough":
        ms *= 10
    if suspicious:
        ms = max(ms, 40000)
    res, fail = (None, None)
    if have_replay:
        res, fail = replay_search(pid, seed, ms, 7, crate)
    bounded = []
    for extra in P.get("extra", []):
        import importlib
        m = importlib.import_module(extra)
        x = m.run(pid, tier, seed, HERE, REPO, WORK)
        bounded.append(x["evidence"])
        obligations += x.get("obligations", 0)
        discharged += x.get("discharged", 0)
        solver_ms += x.get("solver_ms", 0)
        functions += x.get("functions", [])
        trusted += x.get("trusted", [])
        if x.get("cmd"):
            cmds.append(x["cmd"])
        if x.get("fail") and not fail:
            fail = ("-", x["fail"])
        failed += x.get("failed", [])
        lost += x.get("lost", [])

    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == pid]
    kf = []
    if fail:
        for k in known:
            if re.search(k["match"], fail[1]):
                kf.append(k)
                fail = None
                break
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    rdir = os.path.join(WORK, "violations")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, "%s.txt" % pid)
    violation = None
    if fail:
        with open(rpath, "w") as f:
            f.write("property %s: %s\n\n" % (pid, P["title"]))
            f.write(fail[1] + "\n")
            m = re.search(r"FAIL (\w+) case (\d+)", fail[1])
            if m and fail[0] != "-":
                f.write("reproduce: cd %s/%s && cargo build --offline && target/debug/%s %s %s 1000 %s\n\n" % (HERE, crate, crate, m.group(1), fail[0], m.group(2)))
            for w, m, r in failed + lost_detail:
                f.write("failed obligation in %s: %s\n%s\n" % (w, m, r))
        violation = "VIOLATION property=%s replay=%s" % (pid, rpath)
    elif failed:
        with open(rpath, "w") as f:
            f.write("property %s: %s\nno failing input found; the verifier rejects these obligations:\n\n" % (pid, P["title"]))
            for w, m, r in failed:
                f.write("failed obligation in %s: %s\n%s\n" % (w, m, r))
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rpath)

    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": "; ".join(cmds) or "verus",
        "trusted_base": sorted(set(trusted)) + ["Verus 0.2026.09.13 and Z3", "vstd's contracts of the standard library",
                                                "the extractor tools/vx (rewrites listed below)"] + P.get("trusted", []),
        "functions_under_contract": functions,
        "solver_time_ms": round(solver_ms, 1),
        "back_end": "Verus / Z3",
        "extraction_rewrites": rewrites,
        "vacuity": vac,
        "undecided": [{"function": a, "reason": b[:600]} for a, b in lost],
        "failed_obligations": [{"function": a, "message": b} for a, b, _ in failed],
        "bounded_parts": (P.get("bounded", []) + bounded),
        "note": "obligations counts functions under contract, lemmas and spec functions (each one a verification condition of its own); "
                "the concrete search below is never counted as proved",
    }
    if res:
        cov["concrete_search"] = {"evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"],
                                  "rule": P.get("rule", "random inputs; trivial ones (empty) not counted"), "samples": res["samples"]}
    elif not have_replay:
        cov["concrete_search"] = {"error": "the replay crate does not build on this tree: " + so.decode("utf8", "replace")[-800:]}
    if assumed_callees:
        cov["assumed_callees"] = assumed_callees
    level = P.get("level", "proof")
    if level != "proof":
        cov["explanation"] = P.get("explanation", "")
        if res:
            cov["evaluations"] = res["evaluations"]
            cov["distinct_nontrivial"] = res["distinct_nontrivial"]
            cov["samples"] = res["samples"]
            cov["rule"] = P.get("rule", "")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d/%d obligations discharged, %d undecided, search %s, %.1fs" % (
        pid, discharged, obligations, len(lost), res and res["evaluations"], time.time() - t0))
    for a, b in lost:
        print("  undecided: %s: %s" % (a, b[:300]))
    for a, b, _ in failed:
        print("  failed: %s: %s" % (a, b[:300]))
    if violation:
        print(open(rpath).read()[:3000])
        print(violation)
        sys.exit(1)
    if discharged == 0 and not res:
        print("no answer: nothing could be decided")
        sys.exit(2)
    sys.exit(0)


lost_detail = []


def bless():
    """Developer command: records the shape of the functions on the current tree."""
    build_vx()
    base = json.load(open(BASE)) if os.path.exists(BASE) else {}
    for unit in (sys.argv[2:] or list(UNITS)):
        u = run_unit(unit, bless=True)
        print(unit, u.dead or "ok", u.external, [(a, b) for a, b, _ in u.fails], "%.1fs" % u.secs)
        base[unit] = {r["path"]: {"hash": r["hash"], "loops": r["loops"], "skel": r["skel"], "rewrites": [list(x) for x in sorted(r["rewrites"].items())]}
                      for r in u.recs if r["kind"] == "fn"}
    with open(BASE, "w") as f:
        json.dump(base, f, indent=1, sort_keys=True)
        f.write("\n")


if __name__ == "__main__":
    if sys.argv[1] == "--bless":
        bless()
    elif sys.argv[1] == "--setup":
        build_vx()
        for crate in ("replay", "replay_bench"):
            so, _ = start_replay_build(crate).communicate()
            sys.stdout.write(so.decode("utf8", "replace")[-2000:])
    else:
        main()
