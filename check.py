#!/usr/bin/env python3
"""check.py <property> : decides one property for the current tree of /repo (see DESIGN.md).

Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.  Exit 2: no answer.
"""
import concurrent.futures, hashlib, json, os, re, resource, shutil, subprocess, sys, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from table import OUTSIDE, TABLE, KANI_CRATES, LL  # noqa: E402

REPO = "/repo"
BUILD = os.path.join(HERE, "target")
EVID = os.path.join(HERE, "evidence")
TOOLCHAIN = "stable"


def env(extra=None):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e.pop("RUSTFLAGS", None)
    e.update(extra or {})
    return e


def repo_hash():
    h = hashlib.sha256()
    for base in ("src",):
        for d, dirs, files in sorted(os.walk(os.path.join(REPO, base))):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".rs"):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def fresh(target):
    """Forget what was built from another state of /repo (timestamps may lie)."""
    mark = os.path.join(target, "repo.sha256")
    now = repo_hash()
    old = open(mark).read() if os.path.exists(mark) else ""
    if old != now:
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("lambdaworks-stark-", "lambdaworks_stark-")):
                    shutil.rmtree(os.path.join(fp, d))
        os.makedirs(target, exist_ok=True)
        with open(mark, "w") as f:
            f.write(now)


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              errors="replace", timeout=timeout, start_new_session=True,
                              preexec_fn=limit, **kw)
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        return subprocess.CompletedProcess(cmd, 124, out + "\n[timed out after %s s]" % timeout, "")


def engine(prop, bins, tier, features=()):
    """Runs the symbolic-execution binaries of a property; returns (merged result, problems)."""
    target = os.path.join(BUILD, "engine")
    fresh(target)
    problems, merged = [], dict(obligations=[], functions=[], bounds=[], assumptions=[], queries=0,
                                solver_s=0.0, paths=0, witnesses=0, identities=0)
    runs = []
    for feature in ("",) + tuple(features):
        args = ["cargo", "build", "--offline", "--manifest-path", os.path.join(HERE, "engine", "Cargo.toml")]
        for b in bins:
            args += ["--bin", b]
        if feature:
            args += ["--features", feature]
        r = run(args, 600, env=env({"CARGO_TARGET_DIR": target}))
        if r.returncode != 0:
            problems.append("the engine does not build against this tree%s:\n" % (feature and " with " + feature) + r.stdout[-3000:])
            continue
        for b in bins:
            exe = os.path.join(target, "debug", b)
            if features:
                # the next build overwrites it
                exe = os.path.join(target, "run-%s-%s" % (b, feature or "default"))
                shutil.copy2(os.path.join(target, "debug", b), exe)
            runs.append((b, feature, exe))

    def one(job):
        b, feature, exe = job
        out = os.path.join(target, "result-%s-%s.json" % (b, feature))
        if os.path.exists(out):
            os.remove(out)
        r = run([exe], 7200 if tier == "thorough" else 780, env=env({"RESULT": out, "VERIF_TIER": tier}))
        return r, out

    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        for (b, feature, _), (r, out) in zip(runs, pool.map(one, runs)):
            if r.returncode != 0 or not os.path.exists(out):
                problems.append("engine %s ended with %s:\n%s" % (b, r.returncode, r.stdout[-3000:]))
                if not os.path.exists(out):
                    continue
            v = json.load(open(out))
            if feature:
                for o in v["obligations"]:
                    o["name"] = "%s build: %s" % (feature, o["name"])
            for k in merged:
                if isinstance(merged[k], list):
                    merged[k] += [x for x in v[k] if x not in merged[k]]
                else:
                    merged[k] += v[k]
    return merged, problems


def findings():
    known, path = [], os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) obligation=/(.*)/ (.*)$", line.strip())
            if m:
                known.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return known


def open_(got):
    """No violation, and not everything decided either."""
    states = [o["status"] for o in got[0]["obligations"]]
    return "violated" not in states and (bool(got[1]) or set(states) != {"discharged"})


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for i, a in enumerate(sys.argv):
        if a == "--tier":
            tier = sys.argv[i + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    spec = TABLE[prop]
    res, problems = dict(obligations=[], functions=[], bounds=[], assumptions=[], queries=0, solver_s=0.0,
                         paths=0, witnesses=0, identities=0), []
    if spec.get("engine"):
        res, problems = engine(prop, spec["engine"], tier, spec.get("features", ()))
    settled = any(o["status"] == "violated" and not any(k[0] == prop and k[1].search(o["name"]) for k in findings())
                  for o in res["obligations"])
    def add(got):
        for k in res:
            res[k] = res[k] + got[0].get(k, type(res[k])())
        problems.extend(got[1])
    if not settled:
        import kanirun
        import llrun
        kani = lambda groups: kanirun.check(HERE, BUILD, groups, tier, KANI_CRATES)
        ll = lambda groups: llrun.check(HERE, BUILD, groups, tier, LL)
        if spec.get("kani"):
            add(kani(spec["kani"]))
        if spec.get("ll"):
            add(ll(spec["ll"]))
        if spec.get("either"):
            # two decision procedures for the same harnesses: the second answers when the first cannot
            order = [kani, ll] if spec["either"][0] == "kani" else [ll, kani]
            got = order[0](spec["either"][1:])
            if open_(got) or tier == "thorough" and not any(o["status"] == "violated" for o in got[0]["obligations"]):
                other = order[1](spec["either"][1:])
                if open_(got):
                    got = other
                elif not open_(other):
                    add(other)
            add(got)
    obligations = res["obligations"]
    violated = [o for o in obligations if o["status"] == "violated"]
    unsure = [o for o in obligations if o["status"] not in ("violated", "discharged")]
    if not obligations and not problems:
        problems.append("no obligation was checked")
    known = findings()
    new, matched = [], {}
    for o in violated:
        k = next((x for x in known if x[0] == prop and x[1].search(o["name"])), None)
        if k:
            matched.setdefault(k[2], []).append(o)
        else:
            new.append(o)
    for what, os_ in matched.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    replay_dir = os.path.join(EVID, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    for f in os.listdir(replay_dir):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(replay_dir, f))
    for i, o in enumerate(new):
        p = os.path.join(replay_dir, "%s-%d.json" % (prop, i))
        with open(p, "w") as f:
            json.dump(dict(property=prop, obligation=o["name"], counterexample=o["detail"],
                           rerun="python3 check.py %s" % prop), f, indent=1)
        print("  %s" % o["name"][:300])
        print("VIOLATION property=%s replay=%s" % (prop, p))
    coverage = dict(
        explanation=spec["explain"],
        obligations=len(obligations),
        discharged=sum(1 for o in obligations if o["status"] == "discharged"),
        known_findings=sum(len(v) for v in matched.values()),
        inconclusive=len(unsure),
        functions_encoded=res["functions"],
        bounds=list(dict.fromkeys(res["bounds"])),
        outside_the_bounds=[t for k, t in OUTSIDE.items() if k == "all" or spec.get(k) or spec.get("either")],
        paths=res["paths"],
        queries=res["queries"],
        identities_decided_by_normal_form=res["identities"],
        solver_seconds=round(res["solver_s"], 3),
        vacuity_witnesses=res["witnesses"],
        samples=[dict(name=o["name"][:400], status=o["status"], detail=str(o["detail"])[:400])
                 for o in obligations[:40]],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="other", coverage=coverage,
              assumptions=res["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d violated, %d known, %d without an answer, %.1f s" % (
        prop, len(obligations), coverage["discharged"], len(new), coverage["known_findings"],
        len(unsure), ev["wall_s"]))
    if new:
        return 1
    if problems or unsure:
        for p in problems:
            print("NO ANSWER:", p)
        for o in unsure:
            print("NO ANSWER: %s: %s" % (o["name"], str(o["detail"])[:500]))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
