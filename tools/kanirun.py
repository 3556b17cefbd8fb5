"""Runs groups of Kani harnesses of /verif/kani and replays their counterexamples natively."""
import os, re, shutil, subprocess, resource


def env(extra=None):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.update(extra or {})
    return e


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (28 << 30, 28 << 30))


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              errors="replace", timeout=timeout, start_new_session=True,
                              preexec_fn=limit, **kw)
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        return subprocess.CompletedProcess(cmd, 124, out + "\n[timed out after %s s]" % timeout, "")


def forget(target):
    """Drop what was built from another state of /repo."""
    for d, dirs, _ in os.walk(target):
        if os.path.basename(d) == ".fingerprint":
            for x in list(dirs):
                if x.startswith(("lambdaworks-stark-", "lambdaworks_stark-")):
                    shutil.rmtree(os.path.join(d, x))
            dirs[:] = []


def copy_sources(build, repo="/repo/src"):
    """The sources as they are, except that `std` is the one of shim/nd (its hash maps are lists under Kani)."""
    out = os.path.join(build, "kani-src")
    shutil.rmtree(out, ignore_errors=True)
    for d, _, files in os.walk(repo):
        to = os.path.join(out, os.path.relpath(d, repo))
        os.makedirs(to, exist_ok=True)
        for f in files:
            if f.endswith(".rs"):
                t = open(os.path.join(d, f)).read()
                t = re.sub(r"(?<![\w:$])(::)?std::", "::nd::mstd::", t)
                open(os.path.join(to, f), "w").write(t)




def parse(out):
    """harness -> dict(ok, failed checks, covers, time) from cargo kani's terse output."""
    res, current, block, owner = {}, {}, None, None
    for line in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", line)
        if m:
            current[m.group(1) or "0"] = m.group(2)
            if m.group(1) is None:
                owner, block = m.group(2), []
            continue
        m = re.match(r"Thread (\d+):\s*(.*)$", line)
        if m:
            owner, block = current.get(m.group(1)), []
            if m.group(2):
                block.append(m.group(2))
            continue
        if block is not None:
            block.append(line)
            m = re.match(r"Verification Time: ([0-9.]+)s", line)
            if m and owner:
                res[owner] = summary("\n".join(block), float(m.group(1)))
                block = None
            elif line.startswith("CBMC failed") or "timed out" in line.lower() or "out of memory" in line.lower():
                if owner and owner not in res:
                    res[owner] = dict(ok=False, checks=0, failed=[line.strip()], missed=0, covers=0, time=0.0)
    return res


def summary(text, secs):
    ok = "VERIFICATION:- SUCCESSFUL" in text
    m = re.search(r"\*\* (\d+) of (\d+) failed", text)
    checks = int(m.group(2)) if m else 0
    m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", text)
    covers = int(m.group(2)) if m else 0
    missed = covers - int(m.group(1)) if m else 0
    failed = re.findall(r"^Failed Checks: (.*)$", text, re.M)
    return dict(ok=ok, checks=checks, failed=failed, missed=missed, covers=covers, time=secs)


LIMITS = re.compile(r"unwinding assertion|harness limit|unsupported|not currently supported|recursion unwinding|"
                    r"CBMC|timed out|memory", re.I)


def values(out):
    """The byte strings of Kani's concrete playback, one per nondeterministic value."""
    tests = []
    for body in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        tests.append([v.replace(",", " ") for v in re.findall(r"vec!\[([0-9, \n]*)\]", body)])
    return tests


def check(here, build, names, tier, groups):
    crate = os.path.join(here, "kani")
    target = os.path.join(build, "kani")
    copy_sources(build)
    forget(target)
    res = dict(obligations=[], functions=[], bounds=[], assumptions=[], queries=0, solver_s=0.0, paths=0, witnesses=0)
    problems, harnesses, unwinds = [], [], {}
    for g in names:
        spec = groups[g]
        for k in ("functions", "bounds", "assumptions"):
            res[k] += [x for x in spec.get(k, []) if x not in res[k]]
        harnesses += spec["harnesses"]
        if tier == "thorough":
            harnesses += spec.get("thorough", [])
    if not harnesses:
        return res, problems
    per = 600 if tier == "quick" else 5400
    base = ["cargo", "kani", "--manifest-path", os.path.join(crate, "Cargo.toml"), "--target-dir", target,
            "-Z", "unstable-options", "--harness-timeout", "%ds" % per]
    cmd = list(base)
    for h in harnesses:
        cmd += ["--harness", "proofs::" + h]
    jobs = min(8, len(harnesses))
    r = run(cmd + ["-j", str(jobs), "--output-format", "terse"], 840 if tier == "quick" else 20000, env=env())
    got = {k.split("::")[-1]: v for k, v in parse(r.stdout).items()}
    if not got:
        return res, ["the Kani harnesses gave no result on this tree:\n" + r.stdout[-3000:]]
    replay = None
    for h in harnesses:
        v = got.get(h)
        if v is None:
            problems.append("Kani gave no verdict on %s (time or memory ran out):\n%s" % (h, r.stdout[-1500:]))
            continue
        res["queries"] += v["checks"]
        res["solver_s"] += v["time"]
        res["paths"] += 1
        res["witnesses"] += v["covers"] - v["missed"]
        name = "%s (%s)" % (h, groups_title(groups, names, h))
        if v["ok"]:
            if v["missed"]:
                res["obligations"].append(dict(name=name, status="inconclusive", detail="%d situation(s) the harness "
                                               "must reach are out of its reach" % v["missed"]))
            else:
                res["obligations"].append(dict(name=name, status="discharged", detail="%d checks hold for all values, "
                                               "%.1f s" % (v["checks"], v["time"])))
            continue
        real = [f for f in v["failed"] if not LIMITS.search(f)]
        if not real:
            # a bound was too small for this tree: once more with a larger one
            r2 = run(base + ["--harness", "proofs::" + h, "--unwind", "140", "--output-format", "terse"], 600, env=env())
            v2 = {k.split("::")[-1]: x for k, x in parse(r2.stdout).items()}.get(h)
            if v2 and v2["ok"] and not v2["missed"]:
                res["obligations"].append(dict(name=name, status="discharged",
                                               detail="%d checks hold for all values (larger unwinding)" % v2["checks"]))
                continue
            if v2:
                real = [f for f in v2["failed"] if not LIMITS.search(f)]
            if not real:
                problems.append("%s: %s" % (h, "; ".join(v["failed"])[:1500] or "no verdict"))
                continue
        # a counterexample: get its values and run them natively
        r3 = run(base + ["--harness", "proofs::" + h, "-Z", "concrete-playback", "--concrete-playback=print"], 700, env=env())
        if replay is None:
            t2 = os.path.join(build, "kani-native")
            forget(t2)
            b = run(["cargo", "build", "--offline", "--manifest-path", os.path.join(crate, "Cargo.toml"), "--bin", "replay"],
                    600, env=env({"CARGO_TARGET_DIR": t2, "RUSTUP_TOOLCHAIN": "stable"}))
            replay = os.path.join(t2, "debug", "replay")
            if b.returncode != 0:
                problems.append("the replay program does not build:\n" + b.stdout[-2000:])
                return res, problems
        reproduced, shown = None, []
        for vals in values(r3.stdout):
            p = run([replay, h], 120, env=env({"RUST_BACKTRACE": "0"}), input="\n".join(vals) + "\n")
            shown.append(dict(values=[x.strip() for x in vals], exit=p.returncode, output=p.stdout[-800:]))
            if p.returncode not in (0, 3):
                reproduced = shown[-1]
                break
        detail = dict(failed_checks=real, replay=reproduced or shown)
        if reproduced:
            res["obligations"].append(dict(name=name, status="violated", detail=detail))
        else:
            problems.append("%s: the counterexample does not replay: %s" % (h, str(detail)[:1500]))
    return res, problems


def groups_title(groups, names, h):
    for g in names:
        t = groups[g].get("titles", {}).get(h)
        if t:
            return t
    return "Kani"
