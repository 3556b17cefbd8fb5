"""Runs groups of harnesses of /verif/ll with the executor of tools/ll and replays their counterexamples natively."""
import glob, json, os, re, subprocess, sys, time
from kanirun import copy_sources, env, forget, run

PYTHON = "/opt/veriftools/pyvenv/bin/python3"
TOOLCHAIN = "stable"
FLAGS = "--cfg ll -C panic=abort -C no-vectorize-loops -C no-vectorize-slp -C codegen-units=1 --emit=llvm-bc,link"
# build-time crates whose code no harness can call
HOST = re.compile(r"^(proc_macro|quote|serde|syn-|thiserror|unicode|version_check|autocfg|zmij|zerocopy|memchr|replay)")


def tool(name):
    for d in glob.glob(os.path.expanduser("~/.rustup/toolchains/%s-*/lib/rustlib/*/bin" % TOOLCHAIN)):
        if os.path.exists(os.path.join(d, name)):
            return os.path.join(d, name)
    return name


def compile_ir(here, build, harnesses):
    """(path of the IR text or None, message)."""
    target = os.path.join(build, "ll")
    copy_sources(build)
    forget(target)
    deps = os.path.join(target, "debug", "deps")
    for f in glob.glob(os.path.join(deps, "harness-*.bc")) + glob.glob(os.path.join(deps, "lambdaworks_stark-*.bc")):
        os.remove(f)
    r = run(["cargo", "build", "--offline", "--manifest-path", os.path.join(here, "ll", "Cargo.toml"), "--lib"], 600,
            env=env({"CARGO_TARGET_DIR": target, "RUSTUP_TOOLCHAIN": TOOLCHAIN, "RUSTFLAGS": FLAGS}))
    if r.returncode != 0:
        return None, "the harnesses do not build against this tree:\n" + r.stdout[-3000:]
    newest = {}
    for f in sorted(glob.glob(os.path.join(deps, "*.bc")), key=os.path.getmtime):
        b = os.path.basename(f)
        if not HOST.match(b):
            newest[b.rsplit("-", 1)[0]] = f
    out = os.path.join(target, "harness.ll")
    bc = os.path.join(target, "all.bc")
    keep = [tool("opt"), "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(harnesses), bc, "-o", bc]
    for cmd in ([tool("llvm-link"), *newest.values(), "-o", bc], keep, [tool("llvm-dis"), bc, "-o", out]):
        r = run(cmd, 300)
        if r.returncode != 0:
            return None, "%s failed:\n%s" % (os.path.basename(cmd[0]), r.stdout[-2000:])
    # what the standard library has compiled ahead of time comes from the bitcode its archives carry
    defined = re.findall(r'^define [^@]*@("[^"]*"|[\w.$]+)\(', open(out).read(), re.M)
    with open(out + ".own", "w") as f:
        f.write("\n".join(defined))
    std = standard_library(os.path.join(target, "std"))
    if std:
        for cmd in ([tool("llvm-link"), bc, *["--only-needed"], *std, "-o", bc], keep, [tool("llvm-dis"), bc, "-o", out]):
            r = run(cmd, 300)
            if r.returncode != 0:
                return None, "%s failed:\n%s" % (os.path.basename(cmd[0]), r.stdout[-2000:])
    return out, ""


def standard_library(d):
    """Bitcode files of core and alloc, taken from the toolchain's archives."""
    got = []
    os.makedirs(d, exist_ok=True)
    for lib in glob.glob(os.path.expanduser("~/.rustup/toolchains/%s-*/lib/rustlib/*/lib/lib*.rlib" % TOOLCHAIN)):
        name = os.path.basename(lib)[3:].split("-")[0]
        if name not in ("core", "alloc"):
            continue
        for member in run([tool("llvm-ar"), "t", lib], 60).stdout.split():
            if not member.endswith(".o"):
                continue
            o = os.path.join(d, name + ".bc")
            if not os.path.exists(o):
                with open(os.path.join(d, name + ".o"), "wb") as f:
                    subprocess.run([tool("llvm-ar"), "p", lib, member], stdout=f, timeout=60)
                r = run([tool("llvm-objcopy"), "--dump-section", ".llvmbc=" + o, os.path.join(d, name + ".o"),
                         os.path.join(d, "unused.o")], 60)
                if r.returncode != 0:
                    continue
            got.append(o)
    return got


def check(here, build, names, tier, groups):
    res = dict(obligations=[], functions=[], bounds=[], assumptions=[], queries=0, solver_s=0.0, paths=0, witnesses=0)
    problems, harnesses, reach = [], [], {}
    for g in names:
        spec = groups[g]
        for k in ("functions", "bounds", "assumptions"):
            res[k] += [x for x in spec.get(k, []) if x not in res[k]]
        harnesses += spec["harnesses"]
        if tier == "thorough":
            harnesses += spec.get("thorough", [])
    for f in glob.glob(os.path.join(here, "ll", "src", "*.rs")) + glob.glob(os.path.join(here, "kani", "src", "*.rs")):
        t = open(f).read()
        here_reach, here_calls = {}, {}
        for m in re.finditer(r"^(?:pub )?fn (\w+).*?^}", t, re.M | re.S):
            here_reach[m.group(1)] = set(re.findall(r'reach!\(.*?, "([^"]*)"\);', m.group(0)))
            here_calls[m.group(1)] = set(re.findall(r"\b(\w+)(?:::<[^>]*>)?\(", m.group(0)))
        for _ in range(4):
            for g, called in here_calls.items():
                for c in called & set(here_reach):
                    here_reach[g] |= here_reach[c]
        reach.update(here_reach)
    ir, msg = compile_ir(here, build, harnesses)
    if ir is None:
        return res, [msg]
    per = 500 if tier == "quick" else 3600
    out = os.path.join(build, "ll", "results")
    os.makedirs(out, exist_ok=True)
    queue, running, got, stop = list(harnesses), [], {}, None
    e = env({"PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": os.path.join(here, "tools"), "PYTHONHASHSEED": "0"})
    while queue or running:
        while queue and len(running) < 8:
            h = queue.pop(0)
            f = os.path.join(out, h + ".json")
            if os.path.exists(f):
                os.remove(f)
            p = subprocess.Popen([PYTHON, "-m", "ll.exec", ir, h, str(per), f], env=e, stdout=subprocess.DEVNULL,
                                 stderr=subprocess.PIPE, text=True, start_new_session=True)
            running.append((h, f, p, time.time()))
        for x in list(running):
            h, f, p, t0 = x
            if p.poll() is None:
                if time.time() - t0 > per + 60 or stop and time.time() > stop:
                    p.kill()
                continue
            running.remove(x)
            err = p.stderr.read()
            got[h] = json.load(open(f)) if os.path.exists(f) else dict(problem="the executor ended: " + err[-800:])
            if got[h].get("bad") and stop is None:
                stop = time.time() + 30            # the rest may finish, but is not waited for
                for q in queue:
                    got[q] = dict(problem="not run")
                queue = []
        time.sleep(0.02)
    replay = None
    for h in harnesses:
        v = got[h]
        name = h
        res["queries"] += v.get("queries", 0)
        res["solver_s"] += v.get("solver_s", 0)
        res["paths"] += v.get("paths", 0)
        res["witnesses"] += len(v.get("reached", []))
        if v.get("bad") is None:
            missing = reach.get(h, set()) - set(v.get("reached", []))
            if v.get("problem"):
                problems.append("%s: %s" % (h, v["problem"]))
            elif missing:
                res["obligations"].append(dict(name=name, status="inconclusive", detail="not reached: " + ", ".join(missing)))
            elif not v["paths"]:
                res["obligations"].append(dict(name=name, status="inconclusive", detail="no path"))
            else:
                res["obligations"].append(dict(name=name, status="discharged", detail="%d paths, %d queries, %d functions of the "
                                               "IR, %.1f s" % (v["paths"], v["queries"], v["functions"], v["time"])))
            continue
        if replay is None:
            t2 = os.path.join(build, "ll-native")
            forget(t2)
            b = run(["cargo", "build", "--offline", "--manifest-path", os.path.join(here, "ll", "Cargo.toml"), "--bin", "replay"],
                    600, env=env({"CARGO_TARGET_DIR": t2, "RUSTUP_TOOLCHAIN": TOOLCHAIN}))
            replay = os.path.join(t2, "debug", "replay")
            if b.returncode != 0:
                problems.append("the replay program does not build:\n" + b.stdout[-2000:])
                return res, problems
        vals = [" ".join(map(str, x)) for x in v["bad"]["values"]]
        p = run([replay, h], 60, env=env({"RUST_BACKTRACE": "0"}), input="\n".join(vals) + "\n")
        detail = dict(problem=v["bad"]["message"], where=v["bad"]["where"], replay=dict(values=vals, exit=p.returncode, output=p.stdout[-800:]))
        if p.returncode not in (0, 3):
            res["obligations"].append(dict(name=name, status="violated", detail=detail))
        else:
            problems.append("%s: the counterexample does not replay: %s" % (h, str(detail)[:1500]))
    return res, problems
