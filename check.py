#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]
Decides one property: extracts the functions that carry it from /repo's current source with their contracts, has Verus discharge
every obligation, and runs the bounded search for a concrete failing input (which also stands in where no contract applies).
Exit 0: held; 1: VIOLATION line; 2: no answer."""
import concurrent.futures as cf, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/tools")
import literals
import mirror
from plan import PLAN

REPO, BUILD = "/repo", HERE + "/build"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
try:
    for line in subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, text=True).stdout.split("\0"):
        if "=" in line:
            k, v = line.split("=", 1)
            if k.startswith(("CARGO", "RUST", "PATH")):
                ENV.setdefault(k, v) if k != "PATH" else ENV.__setitem__(k, v)
except OSError:
    pass
ENV.pop("RUSTFLAGS", None)


RULES = {
    "up4h": "random small grids, datasets and selections with values on limits and cell edges, NaN and infinities, against direct definitions (harness/src); mostly up to 5 cells per axis, 9 timesteps, 7 particles (one case in fifty: up to 64 cells on an axis, 150 timesteps or 70 particles)",
    "up4conv": "random small tables and lists with ties, equal times, NaN and infinities against direct definitions (harness/src)",
    "up4read": "random small files through converters and readers, with all options and refused inputs, against direct definitions (harness/read); hdf5 and VTK files are held in memory",
}

def sh(cmd, cwd=HERE, env=None, timeout=800):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)


class NoAnswer(Exception):
    pass


def lock(name):
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    f = open(f"{BUILD}/.{name}.lock", "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_extractor():
    with lock("up4x"):
        r = sh(["cargo", "build", "--offline"], cwd=HERE + "/up4x", env=dict(ENV, CARGO_TARGET_DIR=BUILD + "/up4x"))
    if r.returncode:
        raise NoAnswer("the extractor does not build\n" + r.stderr[-3000:])
    return BUILD + "/up4x/debug/up4x"


def build_harness(binary):
    with lock("harness"):
        mirror.mirror(REPO, BUILD + "/mirror")
        r = sh(["cargo", "build", "--offline", "--bin", binary], cwd=HERE + ("/harness/read" if binary == "up4read" else "/harness"),
               env=dict(ENV, CARGO_TARGET_DIR=BUILD + "/harness", RUSTFLAGS="--cfg up4_verif"))
    if r.returncode:
        raise NoAnswer("the bounded search does not build against /repo\n" + r.stderr[-3000:])
    return f"{BUILD}/harness/debug/{binary}"


# ------------------------------------------------------------------ proof
def read_map(path):
    fns, lines = [], {}
    for l in open(path):
        f = l.rstrip("\n").split("\t")
        if f[0] == "fn":
            fns.append(dict(kind=f[1], a=int(f[2]), b=int(f[3]), file=f[4], line=int(f[5]), path=f[6]))
        elif f[0] == "ln":
            lines[int(f[1])] = (f[2], int(f[3]))
    return fns, lines


def parse_errors(text, rs, fns, lines):
    """the verifier's error blocks, each with the function of /repo it lies in"""
    out = []
    for block in re.split(r"\n(?=error)", "\n" + text):
        block = block.strip("\n")
        if not block.startswith("error"):
            continue
        head = block.split("\n", 1)[0]
        if head.startswith(("error: aborting", "error: could not")):
            continue
        at = [int(x) for x in re.findall(re.escape(os.path.basename(rs)) + r":(\d+):", block)]
        nums = at + [int(x) for x in re.findall(r"^\s*(\d+)\s*\|", block, re.M)]
        hit = [f for f in fns if f["kind"] == "verified" and any(f["a"] <= n <= f["b"] for n in nums)]
        src = [lines[n] for n in nums if n in lines]
        out.append(dict(head=head, text=block, fns=sorted({f["path"] for f in hit}), src=sorted({f"{a}:{b}" for a, b in src}), code=bool(re.match(r"error\[E", head))))
    return out


def verus(rs, extra=()):
    t = time.time()
    cmd = ["verus", "--triggers-mode", "silent", "--output-json", "--time-expanded", *extra, os.path.basename(rs)]
    r = sh(cmd, cwd=os.path.dirname(rs), timeout=600)
    try:
        j = json.loads(r.stdout)
    except ValueError:
        j = {}
    return r, j, " ".join(cmd), time.time() - t


def prove(unit, only, extractor, work, tag=""):
    """verifies the functions `only` of one contract file"""
    rs, mp = f"{work}/{unit}{tag}.rs", f"{work}/{unit}{tag}.map"
    res = dict(unit=unit, functions=only, state="proved", obligations=0, discharged=0, smt_ms=0, failed=[], errors=[], why="", cmd="", wall=0.0)
    x = sh([extractor, f"{HERE}/contracts/{unit}.vc", REPO, HERE + "/prelude", rs, mp, ",".join(only)])
    if x.returncode:
        return dict(res, state="undecided", why="extraction: " + x.stderr.strip())
    with open(rs, "a") as f:
        f.write("fn main() {}\n")
    fns, lines = read_map(mp)
    have = {f["path"] for f in fns if f["kind"] == "verified"}
    missing = [p for p in only if p not in have]
    if missing:
        return dict(res, state="undecided", why="not extracted: " + ", ".join(missing))
    text = open(rs).read()
    res["trusted"] = [m.group(1) for m in re.finditer(r"external_body\]\s*(?:pub )?(?:fn|proof fn|struct) (\w+)", text)]
    res["axioms"] = re.findall(r"axiom fn (\w+)", text) + re.findall(r"proof fn (\w+)[^{]*\{ *admit\(\)", text)
    # a proof that fails is tried again with more resources and other solver seeds: which one finds it is an accident of the text
    tries = ((),) + tuple(("--rlimit", "60", "--smt-option", f"smt.random_seed={s}") for s in (11, 23, 5))
    for attempt, extra in enumerate(tries):
        last = attempt == len(tries) - 1 or attempt > 0 and res["wall"] > 150
        r, j, cmd, wall = verus(rs, extra)
        vr = j.get("verification-results", {})
        res.update(cmd=cmd, wall=res["wall"] + wall)
        errs = parse_errors(r.stderr, rs, fns, lines)
        # rustc's errors (those with a number) come before any obligation is tried
        if not vr or vr.get("encountered-vir-error") or not vr.get("verified", 0) + vr.get("errors", 0) or re.search(r"^error\[E\d+\]", r.stderr, re.M):
            return dict(res, state="undecided", errors=errs, why="the extracted text is outside the verifier's language: " + "; ".join(e["head"] for e in errs[:3]) + ("" if errs else r.stderr[-400:]))
        bd = [f for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) for f in m.get("function-breakdown", [])]
        res["smt_ms"] = sum(f["time"] for f in bd)
        res["obligations"], res["discharged"] = vr["verified"] + vr["errors"], vr["verified"]
        res["rlimit"] = sum(f["rlimit"] for f in bd)
        if vr.get("success") and vr["errors"] == 0 and vr["verified"] > 0 and vr.get("is-verifying-entire-crate", True):
            break
        bad = {f["function"].split("::", 1)[1] for f in bd if not f["success"]}
        res["failed"] = sorted({p for e in errs for p in e["fns"]} | (bad & have))
        res["errors"] = errs
        if not res["failed"]:
            if last:
                return dict(res, state="undecided", why="an obligation outside /repo's functions fails: " + "; ".join(e["head"] for e in errs[:3]))
            continue
        if last:
            return dict(res, state="failed")
    # every function of the property must have gone through the solver
    seen = {f["function"].split("::", 1)[1] for f in bd if f["success"]}
    quiet = [p for p in only if p not in seen and not p.startswith("__") and p.split("::")[-1] not in {s.split("::")[-1] for s in seen}]
    if quiet:
        return dict(res, state="undecided", why="the verifier did not report on " + ", ".join(quiet))
    res["failed"], res["errors"], res["state"] = [], [], "proved"
    return res


def probe(unit, only, extractor, work):
    """vacuity: `assert(false)` at the entry, in the body of each loop or behind it must fail, one point of every function at a time"""
    done, vacuous, k, last, wall = 0, [], 0, 0, 0.0
    while k <= last:
        rs, mp = f"{work}/{unit}_probe{k}.rs", f"{work}/{unit}_probe{k}.map"
        x = sh([extractor, f"{HERE}/contracts/{unit}.vc", REPO, HERE + "/prelude", rs, mp, ",".join(only)], env=dict(ENV, UP4X_PROBE=str(k)))
        if x.returncode:
            return None
        with open(rs, "a") as f:
            f.write("fn main() {}\n")
        points = {f[2]: int(f[1]) for f in (l.rstrip("\n").split("\t") for l in open(mp)) if f[0] == "pr" and f[2] in only}
        last = max(points.values()) - 1
        fns, lines = read_map(mp)
        r, j, cmd, w = verus(rs, ("--multiple-errors", "2"))
        if "verified" not in j.get("verification-results", {}):
            return dict(unit=unit, points=done, vacuous=[f"probe {k} did not run"], wall=round(wall, 1))
        wall += w
        hit = {p for e in parse_errors(r.stderr, rs, fns, lines) if "assertion" in e["head"] for p in e["fns"]}
        here = [p for p in only if points[p] > k]
        done += len(here)
        vacuous += [f"{p} (point {k})" for p in here if p not in hit]
        k += 1
    return dict(unit=unit, points=done, vacuous=vacuous, wall=round(wall, 1))


# ------------------------------------------------------------------ bounded search
def search(binary, prop, seed, seconds, procs):
    env = dict(ENV, UP4_LITS=",".join(literals.extra(REPO)))

    def one(k):
        # one process in two tries the numbers that are new in the source
        r = sh([binary, prop, str(seed + 1009 * k), "1000000000", str(seconds)], timeout=seconds + 120, env=env if k % 2 else ENV)
        try:
            j = json.loads(r.stdout.strip().split("\n")[-1])
            if j["failure"] and k % 2:
                j["failure"]["lits"] = env["UP4_LITS"]
            return j
        except ValueError:
            return dict(property=prop, cases=0, distinct=0, failure=dict(case=0, message="the search itself ended abnormally: " + (r.stderr or r.stdout)[-500:], broken=True))
    with cf.ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(one, range(procs)))
    fails = [r["failure"] for r in rs if r["failure"]]
    return dict(cases=sum(r["cases"] for r in rs), distinct=sum(r["distinct"] for r in rs), failure=fails[0] if fails else None, first=[seed + 1009 * k for k in range(procs)])


def findings(prop):
    out = []
    for l in open(HERE + "/known-findings.txt"):
        m = re.match(r"finding: property=(\S+) match=`([^`]*)` (.*)", l)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    plan = PLAN[prop]
    units = plan["units"]
    work = f"{BUILD}/work/{prop}"
    os.makedirs(work, exist_ok=True)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    os.makedirs(BUILD + "/replay", exist_ok=True)
    replay = f"{BUILD}/replay/{prop}.txt"
    secs, procs = (7, 4) if tier == "quick" else (90, 6)
    pool = cf.ThreadPoolExecutor(8)

    def searching():
        b = build_harness(plan["bin"])
        return b, search(b, prop, seed, secs, procs)

    fs = pool.submit(searching)
    proofs, problem, probes = [], None, []
    if units:
        extractor = build_extractor()
        proofs = list(pool.map(lambda u: prove(u, units[u], extractor, work), units))
        if tier == "thorough":
            probes = [p for p in pool.map(lambda u: probe(u, units[u], extractor, work), units) if p]
    try:
        binary, found = fs.result()
    except NoAnswer as e:
        binary, found, problem = None, dict(cases=0, distinct=0, failure=None, first=[]), str(e)
    if found["failure"] and found["failure"].get("broken"):
        problem, found["failure"] = found["failure"]["message"], None
    state = "none" if not proofs else "failed" if any(p["state"] == "failed" for p in proofs) else "undecided" if any(p["state"] == "undecided" for p in proofs) else "proved"
    if state in ("failed", "undecided") and not found["failure"] and binary:
        # the proof is not there: look harder for an input that shows why
        more = search(binary, prop, seed + 500009, 60 if tier == "quick" else 240, 7)
        found = dict(more, cases=found["cases"] + more["cases"], distinct=found["distinct"] + more["distinct"])
        if found["failure"] and found["failure"].get("broken"):
            problem, found["failure"] = found["failure"]["message"], None

    known = findings(prop)
    hit = [w for m, w in known if found["failure"] and m in found["failure"]["message"]]
    for _, w in known:
        print(f"KNOWN-FINDING: property={prop} {w}")
    violation = None
    rep = [f"property {prop}", f"/repo checked at {time.strftime('%F %T')}"]
    if found["failure"] and not hit:
        f = found["failure"]
        violation = f"VIOLATION property={prop} replay={replay}"
        rep += ["", "failing case on the real code:", f["message"], "", "replay: build with", "  python3 tools/mirror.py /repo build/mirror && (cd " + ("harness/read && CARGO_TARGET_DIR=../../build/harness" if plan["bin"] == "up4read" else "harness && CARGO_TARGET_DIR=../build/harness") + " RUSTFLAGS='--cfg up4_verif' cargo build --offline)",
                f"  UP4_LITS={f.get('lits', '')} build/harness/debug/{plan['bin']} {prop} --case {f['case']}"]
    elif state == "failed":
        violation = f"VIOLATION property={prop} replay={replay} no-failing-input-found"
    if state != "proved":
        for p in proofs:
            if p["state"] == "proved":
                continue
            rep += ["", f"contracts/{p['unit']}.vc: {p['state']} {p['why']}", "failed functions: " + ", ".join(p["failed"]), "verifier: " + p["cmd"]]
            for e in p["errors"]:
                rep += ["", "in " + ", ".join(e["src"]), e["text"]]
    if violation or state == "undecided":
        with open(replay, "w") as f:
            f.write("\n".join(rep) + "\n")

    vacuous = [v for p in probes for v in p["vacuous"]]
    cov = dict(
        bounded_search=dict(cases=found["cases"], distinct=found["distinct"], seeds=found["first"], rule=RULES.get(plan["bin"], RULES["up4h"])),
    )
    level = "proof" if units else "exploration"
    assumptions = ["f64 arithmetic is an uninterpreted function of its operands with the IEEE facts listed as axioms in prelude/core.rs; no algebraic law of real numbers is used", "ndarray and std behave as the external_body contracts of prelude/core.rs and prelude/grids.rs say", "the extraction drops what DESIGN.md lists (output macros, signal checks)", "integers are machine integers; overflow is an obligation"] if units else ["bounded: random cases only"]
    assumptions += plan["relies"]
    if units:
        trusted = sorted({x for p in proofs for x in p.get("trusted", [])})
        axioms = sorted({x for p in proofs for x in p.get("axioms", [])})
        cov.update(obligations=sum(p["obligations"] for p in proofs), discharged=sum(p["discharged"] for p in proofs),
                   checker_cmd="; ".join(p["cmd"] for p in proofs) or "verus", trusted_base=["Verus 0.2026.09.13 with Z3", "up4x (extraction)"] + ["axiom " + a for a in axioms] + ["assumed contract " + a for a in trusted],
                   functions_under_contract=[f for p in proofs for f in p["functions"]], solver_ms=sum(p["smt_ms"] for p in proofs), solver_rlimit=sum(p.get("rlimit", 0) for p in proofs), proof_state=state,
                   undecided=[p["unit"] + ": " + p["why"] for p in proofs if p["state"] == "undecided"], failed=[f for p in proofs for f in p["failed"]])
        if probes:
            cov["vacuity_probe"] = probes
    else:
        cov.update(evaluations=found["cases"], distinct_nontrivial=found["distinct"], rule=cov["bounded_search"]["rule"], samples=[f"{plan['bin']} {prop} --case {s * 1000000007 % 2**64}" for s in found["first"]])
    if state == "undecided" and not violation:
        level = "exploration"
        cov.update(evaluations=found["cases"], distinct_nontrivial=found["distinct"], rule=cov["bounded_search"]["rule"], samples=[f"{plan['bin']} {prop} --case {s * 1000000007 % 2**64}" for s in found["first"]])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    with open(f"{HERE}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: proof {state} ({cov.get('discharged', 0)}/{cov.get('obligations', 0)} obligations), bounded search {found['cases']} cases, {ev['wall_s']} s")
    if violation:
        print(violation)
        return 1
    if problem and state != "proved":
        print("no answer: " + problem)
        return 2
    if vacuous:
        print("no answer: contracts with contradictory assumptions: " + ", ".join(vacuous))
        return 2
    if state == "undecided":
        print("UNDECIDED-BY-PROOF (bounded search only): " + "; ".join(p["unit"] + ": " + p["why"] for p in proofs if p["state"] == "undecided"))
        if found["cases"] == 0:
            return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("no answer: " + str(e))
        sys.exit(2)
