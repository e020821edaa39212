#!/usr/bin/env python3
"""check.py PROPERTY [--seed N] [--time S] [--tier quick|thorough]

Builds the simulator and the instrumented code from /repo's working tree, explores seeded
schedules and faults in parallel worker processes, gates and replays any violation, and
writes evidence/<PROPERTY>.json.  Exit 0: held on everything explored; 1: VIOLATION; 2: error."""
import array, fcntl, glob, hashlib, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("REPO", "/repo")
SIM = os.path.join(ROOT, "sim")
sys.path.insert(0, HERE)
from plan import PLAN  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(os.path.relpath(p, "/").encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def repo_sources():
    out = []
    for d in ("containers", "include", "hashing", "tests"):
        for base, _, files in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(base, f) for f in files]
    out += [p for p in glob.glob(os.path.join(REPO, "*.[ch]pp"))]
    return out


def sim_sources():
    out = []
    for base, _, files in os.walk(SIM):
        out += [os.path.join(base, f) for f in files if f.endswith((".cpp", ".hpp", ".h", ".sh"))]
    return out


def build(suts):
    """Returns the directory with psim and the systems under test, built from the current trees."""
    key = digest(repo_sources() + sim_sources())
    top = os.path.join(ROOT, "build")
    os.makedirs(top, exist_ok=True)
    out = os.path.join(top, "c-" + key)
    with open(os.path.join(top, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.isdir(out):
            old = sorted(glob.glob(os.path.join(top, "c-*")), key=os.path.getmtime)
            for o in old[:-3]:
                subprocess.run(["rm", "-rf", o])
            os.makedirs(out)
        procs = []
        for t in ["core"] + list(suts):
            done = os.path.join(out, t + ".ok")
            if not os.path.exists(done):
                lf = open(os.path.join(out, t + ".log"), "w")
                procs.append((t, done, lf, subprocess.Popen(["bash", os.path.join(SIM, "build.sh"), out, t], stdout=lf, stderr=lf, env=dict(os.environ, REPO=REPO))))
        bad = False
        for t, done, lf, p in procs:
            if p.wait() != 0:
                bad = True
                log(f"check: building {t} failed:")
                log(open(lf.name).read()[-4000:])
            else:
                open(done, "w").close()
        if bad:
            sys.exit(2)
    return out


def psim(bdir, part):
    return [os.path.join(bdir, "psim")], ["--sut", os.path.join(bdir, f"sut_{part['sut']}.so"), "--prop", part["gen"]]


def replay(bdir, sut, path):
    try:
        p = subprocess.run([os.path.join(bdir, "psim"), "replay", "--sut", os.path.join(bdir, f"sut_{sut}.so"), "--brief", "1", path], capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return None, None, None, ""
    first = p.stdout.split("\n", 1)[0].split()
    r = dict(zip(first[0::2], first[1::2])) if len(first) >= 6 else {}
    return p.returncode, r.get("hash"), r.get("kind"), p.stdout


def known_findings(prop):
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith("KNOWN "):
            continue
        f = dict(x.split("=", 1) for x in line.split(" what=", 1)[0].split()[1:])
        f["what"] = line.split(" what=", 1)[1]
        if f["property"] == prop:
            out.append(f)
    return out


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    opt = {}
    while args:
        k = args.pop(0)
        opt[k.lstrip("-")] = args.pop(0)
    seed = int(opt.get("seed", os.environ.get("VERIF_SEED", "1")))
    tier = opt.get("tier", os.environ.get("VERIF_TIER", "quick"))
    plan = PLAN[prop]
    total = float(opt.get("time", plan.get("quick", 24) if tier == "quick" else plan.get("thorough", 600)))
    workers = int(opt.get("workers", os.cpu_count() or 8))
    t0 = time.time()
    log(f"check: property={prop} seed={seed} tier={tier} budget={total}s workers={workers}")
    suts = sorted({p["sut"] for p in plan["parts"]})
    bdir = build(suts)
    tb = time.time() - t0
    evd = os.path.join(ROOT, "evidence")
    rdir = os.path.join(evd, "replays")
    os.makedirs(rdir, exist_ok=True)
    work = os.path.join(ROOT, "build", f"w-{prop}-{os.getpid()}")
    os.makedirs(work)

    knowns = known_findings(prop)
    for k in knowns:
        print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)

    wsum = sum(p.get("weight", 1) for p in plan["parts"])
    results, violation, error = [], None, None
    for pi, part in enumerate(plan["parts"]):
        budget = total * part.get("weight", 1) / wsum
        exe, common = psim(bdir, part)
        procs = []
        for w in range(workers):
            out = os.path.join(work, f"{pi}-{w}")
            os.makedirs(out)
            cmd = exe + ["run"] + common + ["--seed", str(seed), "--worker", str(w), "--workers", str(workers), "--time", str(budget), "--out", out,
                                            "--hashes", os.path.join(out, "hashes"), "--minimise", str(plan.get("minimise", 10))]
            if knowns:
                cmd += ["--known", ",".join(k["signature"] for k in knowns)]
            procs.append((w, subprocess.Popen(cmd, stdout=open(os.path.join(out, "out"), "w"), stderr=open(os.path.join(out, "err"), "w")), out))
        deadline = time.time() + budget + 60
        live = list(procs)
        while live and not violation:
            for x in list(live):
                rc = x[1].poll()
                if rc is None:
                    continue
                live.remove(x)
                w, _, out = x
                if rc not in (0, 1):
                    error = f"worker {w} exited with {rc}: " + open(os.path.join(out, "err")).read()[-600:]
                    continue
                try:
                    r = json.loads(open(os.path.join(out, "out")).read())
                except ValueError:
                    error = f"worker {w}: unreadable result"
                    continue
                r["_part"] = part
                r["_hashes"] = os.path.join(out, "hashes")
                results.append(r)
                if "violation" not in r or violation:
                    continue
                v = r["violation"]
                rep = []
                for _ in range(2):
                    rc, h, kind, text = replay(bdir, part["sut"], v["replay"])
                    rep.append((rc, h, kind))
                if rep[0] == rep[1] == (1, v["hash"], v["kind"]):
                    name = f"{prop}-{seed}-{v['run']}-{part['sut']}.replay"
                    dst = os.path.join(rdir, name)
                    with open(v["replay"]) as f, open(dst, "w") as g:
                        g.write(f.read())
                        g.write(f"# replay with: {os.path.join(bdir, 'psim')} replay --sut {os.path.join(bdir, 'sut_' + part['sut'] + '.so')} {dst}\n")
                    violation = (v, dst, text)
                else:
                    error = f"replay in a fresh process differs: expected {v['hash']} {v['kind']}, got {rep}"
            if live and time.time() > deadline:
                error = f"{len(live)} workers did not stop in time"
                break
            time.sleep(0.02)
        for x in live:
            x[1].kill()
            x[1].wait()
        if violation:
            break

    # evidence
    agg = {}

    def add(d, s):
        for k, x in s.items():
            if isinstance(x, dict):
                add(d.setdefault(k, {}), x)
            elif isinstance(x, (int, float)):
                d[k] = d.get(k, 0) + x

    hashes = set()
    for r in results:
        add(agg, {k: v for k, v in r.items() if k not in ("samples", "violation", "wall") and not k.startswith("_")})
        try:
            a = array.array("Q")
            with open(r["_hashes"], "rb") as f:
                a.frombytes(f.read())
            hashes.update(a)
        except OSError:
            pass
    wall = time.time() - t0
    samples = [s for r in results[:2] for s in r.get("samples", [])][:6]
    runs = int(agg.get("runs", 0))
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(hashes),
        "rule": "One evaluation is one simulated run: operations, thread schedule, crash points, faults and environment choices are all drawn from (VERIF_SEED, run index). "
                "A run is non-trivial if the scheduler preempted a thread at least once, or a crash or fault was injected. Distinct means a different 64-bit hash over the whole execution "
                "(every scheduling point with thread, kind and address, every result, every crash). " + plan.get("rule", ""),
        "samples": samples,
        "runs_per_hour": int(runs / max(wall, 0.001) * 3600),
        "seeds_per_hour": int(runs / max(wall, 0.001) * 3600),
        "simulated_seconds": agg.get("sim_ns", 0) / 1e9,
        "scheduling_points": int(agg.get("steps", 0)),
        "context_switches": int(agg.get("switches", 0)),
        "points_by_kind": agg.get("kinds", {}),
        "faults_injected": dict(agg.get("faults", {}), kill_crash=agg.get("crash_kill", 0), power_crash=agg.get("crash_power", 0), cache_lines_lost=agg.get("lines_lost", 0),
                                cache_lines_torn=agg.get("lines_torn", 0), unsynced_directory_changes_lost=agg.get("meta_lost", 0), threads_suspended_forever=agg.get("stalls", 0),
                                threads_frozen_temporarily=agg.get("freezes", 0)),
        "reach": agg.get("reach", {}),
        "real_code": plan["real"],
        "stubs": plan["stubs"],
        "workers": workers,
        "build_s": round(tb, 2),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": plan.get("assumptions", []),
          "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    if violation:
        ev["violation"] = {"kind": violation[0]["kind"], "detail": violation[0]["detail"], "replay": violation[1]}
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    subprocess.run(["rm", "-rf", work])
    if violation:
        log(violation[2][:3000])
        print(f"VIOLATION property={prop} replay={violation[1]}", flush=True)
        sys.exit(1)
    if error:
        log("check: error:", error)
        sys.exit(2)
    log(f"check: {prop}: {runs} runs, {len(hashes)} distinct non-trivial executions, no violation, {wall:.1f} s")


if __name__ == "__main__":
    main()
