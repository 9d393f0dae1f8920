#!/usr/bin/env python3
"""Decides the properties of /verif/properties.jsonl by symbolic execution of the real code.

  check.py ID [--tier quick|thorough]     run the check of one property
  check.py --replay FILE                  run a recorded counterexample against the real code
  check.py --setup                        build the engine and warm the dependency builds

Each run: (1) lays out a view of /repo's working tree, (2) compiles it with the harnesses to LLVM
bitcode (whole program, fat LTO) and, separately, to an ordinary native binary, (3) executes every
harness symbolically with engine/symx, (4) replays solver counterexamples and a sample of the
explored paths natively, (5) writes evidence/ID.json.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: counterexample that reproduces
natively.  Exit 2 or 3: the check itself failed (build error, unsupported code, bound exceeded).
"""
import argparse, concurrent.futures, glob, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, ".build"))
sys.path.insert(0, VERIF)
from specs import SPECS  # noqa: E402

TOOLCHAIN = "1.77.2-x86_64-unknown-linux-gnu"
JOBS = int(os.environ.get("VERIF_JOBS") or min(8, os.cpu_count() or 8))


class CheckError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------------------------- building
def write_if_changed(path, text):
    try:
        if open(path, encoding="utf-8").read() == text:
            return
    except (OSError, UnicodeDecodeError):
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def sync_tree(src, dst, omit):
    """Copies src to dst, touching only files whose content changed, and drops what is gone."""
    keep = set()
    for d, dirs, files in os.walk(src):
        rel = os.path.relpath(d, src)
        dirs[:] = [x for x in dirs if os.path.normpath(os.path.join(rel, x)) not in omit]
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            if r in omit:
                continue
            keep.add(r)
            a, b = os.path.join(d, f), os.path.join(dst, r)
            data = open(a, "rb").read()
            if r == os.path.join("parser", "mod.rs"):
                data = re.sub(rb"(?m)^\s*(pub(\([^)]*\))?\s+)?mod\s+semantic_info\s*;[^\n]*\n?", b"", data)
            if os.path.isfile(b) and open(b, "rb").read() == data:
                continue
            os.makedirs(os.path.dirname(b), exist_ok=True)
            with open(b, "wb") as o:
                o.write(data)
    for d, _, files in os.walk(dst):
        for f in files:
            p = os.path.join(d, f)
            if os.path.relpath(p, dst) not in keep:
                os.unlink(p)


def make_view():
    """/repo's library without what needs the missing peginator crate (same cut as /opt/vp/scope.py)."""
    view = os.path.join(BUILD, "view")
    sync_tree(os.path.join(REPO, "src"), os.path.join(view, "src"), {os.path.join("parser", "semantic_info")})
    man = open(os.path.join(REPO, "Cargo.toml"), encoding="utf-8").read()
    man = re.sub(r"(?ms)^\[workspace\]\n.*?(?=^\[)", "", man)
    man = re.sub(r"(?m)^hun_law_grammar\s*=[^\n]*\n", "", man)
    man = re.sub(r"(?ms)^\[dev-dependencies\]\n.*?(?=^\[|\Z)", "", man)
    man = re.sub(r"(?ms)^\[\[(test|bin|bench|example)\]\]\n.*?(?=^\[|\Z)", "", man)
    if "autobins" not in man:
        man = man.replace("[package]\n", "[package]\nautobins = false\n", 1)
    write_if_changed(os.path.join(view, "Cargo.toml"), man)
    if os.path.exists(os.path.join(REPO, "build.rs")):
        write_if_changed(os.path.join(view, "build.rs"), open(os.path.join(REPO, "build.rs"), encoding="utf-8").read())
    for f in os.listdir(REPO):  # data files a build script or include_str! may read
        p = os.path.join(REPO, f)
        if os.path.isfile(p) and f not in ("Cargo.toml", "Cargo.lock", "build.rs") and os.path.getsize(p) < 1 << 20:
            shutil.copy2(p, os.path.join(view, f))


def make_harness(name):
    h = os.path.join(BUILD, name)
    for f in glob.glob(os.path.join(VERIF, "harness", "src", "*.rs")):
        write_if_changed(os.path.join(h, "src", os.path.basename(f)), open(f, encoding="utf-8").read())
    for f in glob.glob(os.path.join(h, "src", "*.rs")):
        if not os.path.exists(os.path.join(VERIF, "harness", "src", os.path.basename(f))):
            os.unlink(f)
    man = open(os.path.join(VERIF, "harness", "Cargo.toml"), encoding="utf-8").read()
    feats = "\n".join("%s = []" % i.lower() for i in sorted(SPECS))
    man = man.replace("@FEATURES@", feats)
    if name == "sym":
        a = patched_anyhow()
        if a:
            man += '\n[patch.crates-io]\nanyhow = { path = "../anyhow" }\n'
    write_if_changed(os.path.join(h, "Cargo.toml"), man)
    lock = os.path.join(h, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), lock)
    return h


def patched_anyhow():
    """anyhow's own source with one change: error messages are not rendered (they are not part of any property)."""
    src = sorted(glob.glob("/root/.cargo/registry/src/*/anyhow-1.0.*"))
    if not src:
        return None
    dst = os.path.join(BUILD, "anyhow")
    if not os.path.isdir(dst):
        shutil.copytree(src[-1], dst)
        for f in (".cargo-ok", ".cargo_vcs_info.json", "Cargo.lock"):
            if os.path.exists(os.path.join(dst, f)):
                os.unlink(os.path.join(dst, f))
        p = os.path.join(dst, "src", "lib.rs")
        t = open(p, encoding="utf-8").read()
        new = re.sub(r"Error::msg\(\s*(crate::)?(alloc::)?fmt::format\(args\)\s*\)", 'Error::msg("")', t)
        if new == t:
            sys.stderr.write("note: anyhow's message rendering was not found; using it unpatched\n")
        open(p, "w", encoding="utf-8").write(new)
    return dst


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             RUSTFLAGS="--cfg hun_law_verif --cap-lints allow")
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
            del e[k]
    return e


def run(cmd, cwd, e=None, log=None):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if log:
        open(log, "w").write(p.stdout)
    if p.returncode:
        raise CheckError("%s failed (%d):\n%s" % (" ".join(cmd[:4]), p.returncode, p.stdout[-6000:]))
    return p.stdout


def build_engine(res):
    out = os.path.join(BUILD, "symx")
    src = sorted(glob.glob(os.path.join(VERIF, "engine", "symx", "*")))
    if os.path.exists(out) and all(os.path.getmtime(out) > os.path.getmtime(s) for s in src):
        res["engine"] = out
        return
    flags = subprocess.run(["llvm-config-18", "--cxxflags"], stdout=subprocess.PIPE, text=True).stdout.split()
    flags = [f for f in flags if f != "-fno-exceptions" and not f.startswith("-std=")]
    run(["clang++-18", "-O2", "-std=c++17", os.path.join(VERIF, "engine", "symx", "symx.cpp"), "-o", out] + flags +
        ["-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3", "-lpthread"], VERIF)
    res["engine"] = out


def build_sym(feats, res):
    h = make_harness("sym")
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target-sym")
    deps = os.path.join(BUILD, "target-sym", "release", "deps")
    for f in glob.glob(os.path.join(deps, "vph-*")):
        os.unlink(f)
    run(["cargo", "rustc", "--offline", "--release", "--features", ",".join(feats), "--", "--emit=llvm-bc", "-C", "linker=/bin/true"], h, e, os.path.join(BUILD, "sym.log"))
    bc = glob.glob(os.path.join(deps, "vph-*.bc"))
    if len(bc) != 1:
        raise CheckError("no bitcode produced: %r" % bc)
    res["bc"] = bc[0]


def build_native(feats, res):
    h = make_harness("nat")
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target-nat")
    run(["cargo", "build", "--offline", "--features", ",".join(feats + ["native"])], h, e, os.path.join(BUILD, "nat.log"))
    res["native"] = os.path.join(BUILD, "target-nat", "debug", "vph")


def build(feats, what=("engine", "sym", "native")):
    os.makedirs(BUILD, exist_ok=True)
    make_view()
    res, errs = {}, []

    def guard(f, *a):
        def g():
            try:
                f(*a)
            except CheckError as x:
                errs.append(str(x))
            except Exception as x:  # noqa
                errs.append("%s: %r" % (f.__name__, x))
        return threading.Thread(target=g)
    ts = []
    if "engine" in what:
        ts.append(guard(build_engine, res))
    if "sym" in what:
        ts.append(guard(build_sym, feats, res))
    if "native" in what:
        ts.append(guard(build_native, feats, res))
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise CheckError("\n".join(errs))
    return res


# ---------------------------------------------------------------------------------- native replay
def native(binary, entry, vectors):
    f = os.path.join(BUILD, "vec-%d.txt" % os.getpid())
    with open(f, "w") as o:
        for v in vectors:
            o.write(" ".join(str(x) for x in v) + "\n")
    try:
        p = subprocess.run([binary, entry, f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        raise CheckError("native replay of %s timed out" % entry)
    finally:
        os.unlink(f)
    out = [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")]
    return out, p.returncode


# ---------------------------------------------------------------------------------- known findings
def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) entry=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append({"entry": m.group(2), "match": m.group(3), "what": m.group(4)})
    return out


# ---------------------------------------------------------------------------------- check
POOL = None


class Pool:
    """Runs the harnesses, a few at a time."""

    def __init__(self, res, pid, todo, budget, tend):
        self.res, self.pid, self.budget, self.tend = res, pid, budget, tend
        self.procs, self.stopped = set(), False
        self.ex = concurrent.futures.ThreadPoolExecutor(max_workers=3)
        self.fut = {h["entry"]: self.ex.submit(self.run, h) for h in todo}

    def run(self, h):
        if self.stopped:
            return None
        out = os.path.join(BUILD, "out-%s-%s.jsonl" % (self.pid, h["entry"]))
        timeout = max(5, min(self.budget, self.tend - time.time()))
        cmd = [self.res["engine"], self.res["bc"], "--entry", h["entry"], "--out", out, "--timeout", "%d" % timeout, "--jobs", str(JOBS), "--sample", "400",
               "--max-violations", str(h.get("max_violations", 3))] + h.get("args", [])
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        self.procs.add(p)
        log = p.communicate()[0]
        self.procs.discard(p)
        if self.stopped:
            return None
        if p.returncode:
            raise CheckError("engine failed on %s: %s" % (h["entry"], log[-2000:]))
        recs = [json.loads(l) for l in open(out, encoding="utf-8", errors="replace") if l.strip()]
        summ = [r for r in recs if r["kind"] == "summary"]
        if not summ:
            raise CheckError("engine gave no summary on %s: %s" % (h["entry"], log[-2000:]))
        return recs, summ[0]

    def get(self, h):
        return self.fut[h["entry"]].result()

    def stop(self):
        self.stopped = True
        for p in list(self.procs):
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        self.ex.shutdown(wait=True)


def check(pid, tier, only=None):
    spec = SPECS[pid]
    t0 = time.time()
    res = build([pid.lower()])
    tb = time.time() - t0
    say("built in %.1f s" % tb)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = known_findings(pid)
    runs, violations, errors, knownhits, samples, unfinished = [], [], [], [], [], []
    validated = 0
    budget = spec.get("budget", {}).get(tier, 600 if tier == "quick" else 6 * 3600)
    tend = t0 + (820 if tier == "quick" else 12 * 3600)
    todo = [h for h in spec["harnesses"] if h.get("tier", "quick") == "quick" or tier == "thorough"]
    if only:
        todo = [h for h in todo if only in h["entry"]]
    global POOL
    pool = POOL = Pool(res, pid, todo, budget, tend)
    for h in todo:
        recs, summ = pool.get(h)
        timeout = budget
        summ["entry"], summ["bounds"] = h["entry"], h["bounds"]
        runs.append(summ)
        say("%s: %d paths (+%d pruned), %d solver queries, %d table decisions, %d assertions reached, %.1f s" % (
            h["entry"], summ["paths"], summ["pruned"], summ["z3_queries"], summ["domain_decisions"], summ["asserts_reached"], summ["wall_s"]))
        # counterexamples
        cex = [r for r in recs if r["kind"] == "violation"]
        for v in cex:
            history = []
            nat, rc = native(res["native"], h["entry"], [[x[1] for x in v["vals"]]])
            if not nat:  # the process died: an abort or stack overflow is a reproduction of a crash
                repro = rc != 0
                what = "process died with status %d" % rc
            else:
                n = nat[0]
                repro = (n["panic"] or bool(n["failed"])) and not n["pruned"]
                what = ("panic: " + n["msg"]) if n["panic"] else "assertions failed: %r" % n["failed"]
            if not repro and nat and not n["pruned"]:
                # the failure may depend on what the process did before (such as addresses of freed memory)
                before = [[x[1] for x in r["vals"]] for r in cex] * 4
                nat, rc = native(res["native"], h["entry"], before)
                bad = [i for i, n in enumerate(nat) if (n["panic"] or n["failed"]) and not n["pruned"]]
                if bad:
                    n, repro, history = nat[bad[0]], True, before[:bad[0]]
                    v = cex[bad[0] % len(cex)]
                    what = (("panic: " + n["msg"]) if n["panic"] else "assertions failed: %r" % n["failed"]) + ", after %d other inputs" % len(history)
            desc = "%s: %s (engine: %s id %d)" % (h["entry"], what, v["what"], v["id"])
            if not repro:
                errors.append("counterexample does not reproduce natively: %s %s" % (desc, json.dumps(v)[:1500]))
                continue
            k = [x for x in known if x["entry"] == h["entry"] and x["match"] in (what + " " + " ".join(v["stack"])).replace(" ", "_")]
            if k:
                knownhits.append(k[0]["what"])
                continue
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            rp = os.path.join(VERIF, "replay", "%s-%d.json" % (pid, len(violations)))
            with open(rp, "w") as o:
                json.dump({"property": pid, "entry": h["entry"], "vals": [x[1] for x in v["vals"]], "history": history, "what": what, "stack": v["stack"][:15]}, o, indent=1)
            violations.append((rp, desc))
        for r in [r for r in recs if r["kind"] == "error"]:
            errors.append("%s: %s at %s" % (h["entry"], r["what"], " < ".join(r["stack"][:6])))
        if summ["stop"] == 3:
            unfinished.append("%s: time ran out after %.0f s and %d paths" % (h["entry"], summ["wall_s"], summ["paths"]))
        if not violations and summ["stop"] == 0:
            for c in h.get("covers", []):
                if str(c) not in summ["covers"]:
                    errors.append("%s: vacuous: witness %d was not reached" % (h["entry"], c))
            if not summ["asserts_reached"] and not h.get("panic_only"):
                errors.append("%s: vacuous: no assertion was reached" % h["entry"])
        # agreement of the symbolic semantics with the native code on sampled paths
        smp = [r for r in recs if r["kind"] == "path"]
        if smp:
            nat, rc = native(res["native"], h["entry"], [[x[1] for x in r["vals"]] for r in smp])
            if len(nat) != len(smp):
                errors.append("%s: native replay died on a path the engine completed (status %d)" % (h["entry"], rc))
            for r, n in zip(smp, nat):
                if n["panic"] or n["pruned"] or n["failed"] or n["short"] or n["used"] != len(r["vals"]) or n["obs"] != r["obs"]:
                    if violations and (n["panic"] or n["failed"]):
                        continue
                    errors.append("%s: native execution disagrees with the symbolic one: %s vs %s" % (h["entry"], json.dumps(r)[:600], json.dumps(n)[:600]))
                    break
                validated += 1
            samples += [{"entry": h["entry"], "inputs": [x[1] for x in r["vals"]][:40], "observed": r["obs"][:12]} for r in smp[:3]]
        if violations and tier == "quick":
            break
    pool.stop()
    funcs = sorted(set(re.sub(r"::h[0-9a-f]{16}$", "", f).replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("..", "::") for r in runs for f in r["functions"]))
    cov = {
        "states": sum(r["paths"] + r["pruned"] for r in runs),
        "transitions": sum(r["forks"] for r in runs),
        "traces_validated_against_impl": validated,
        "samples": samples[:12],
        "exhaustive": not errors and not violations and not unfinished,
        "unfinished": unfinished,
        "what": "states: completed and assumption-pruned symbolic paths; transitions: branch decisions with two feasible sides; traces: sampled paths re-executed natively with equal observations",
        "instructions_executed": sum(r["instructions"] for r in runs),
        "solver_queries": sum(r["z3_queries"] for r in runs),
        "solver_sat": sum(r["z3_sat"] for r in runs),
        "solver_unsat": sum(r["z3_unsat"] for r in runs),
        "solver_unknown": sum(r["z3_unknown"] for r in runs),
        "solver_ms": sum(r["solver_ms"] for r in runs),
        "domain_decisions": sum(r["domain_decisions"] for r in runs),
        "assertions_reached": sum(r["asserts_reached"] for r in runs),
        "assertion_queries": sum(r["assert_queries"] for r in runs),
        "bounds": [{"harness": r["entry"], "bounds": r["bounds"], "paths": r["paths"], "pruned": r["pruned"], "solver_queries": r["z3_queries"], "wall_s": r["wall_s"], "witnesses": r["covers"], "assertions": r["assert_hits"]} for r in runs],
        "functions_encoded": len(funcs),
        "functions": funcs[:400],
        "build_s": round(tb, 1),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as o:
        json.dump(ev, o, indent=1, ensure_ascii=False)
    for w in sorted(set(knownhits)):
        say("KNOWN-FINDING: property=%s %s" % (pid, w))
    if violations:
        for rp, d in violations:
            say("counterexample: %s" % d)
        for rp, d in violations[:1]:
            say("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        for e in errors[:10]:
            say("ERROR: " + e)
        return 3
    for u in unfinished:
        say("NOT EXHAUSTED: " + u)
    say("property %s held on all %d paths (%.1f s)" % (pid, cov["states"], ev["wall_s"]))
    return 0


COMMON_ASSUMPTIONS = [
    "rustc 1.77.2 compiles the crate to LLVM bitcode faithfully; engine/symx executes it faithfully (sampled paths are compared with native execution on every run)",
    "Z3's unsat answers are right (sat answers are re-evaluated)",
    "guest heap allocation does not fail; environment variables are unset; hash seeds are fixed",
    "anyhow error messages are not rendered in the symbolic build",
]


def replay(path):
    r = json.load(open(path))
    res = build([r["property"].lower()], what=("native",))
    h = r.get("history", [])
    nat, rc = native(res["native"], r["entry"], h + [r["vals"]])
    dead = len(nat) <= len(h)
    say(json.dumps({"status": rc} if dead else nat[-1], indent=1))
    return 1 if (dead or nat[-1]["panic"] or nat[-1]["failed"]) else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    try:
        if a.replay:
            sys.exit(replay(a.replay))
        if a.setup:
            res = build([sorted(SPECS)[0].lower()])
            say("engine, bitcode and native builds work: %s" % ", ".join(sorted(res)))
            sys.exit(0)
        sys.exit(check(a.id, a.tier, a.only))
    except CheckError as x:
        say("ERROR: " + str(x))
        if POOL:
            POOL.stop()
        sys.exit(2)


main()
