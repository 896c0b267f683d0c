#!/usr/bin/env python3
"""check.py <property>: builds /repo's current sources with the property's harnesses, explores, writes evidence.

Exit 0: held on everything explored (known findings are printed). Exit 1 with a VIOLATION line: violated."""
import concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BSSL = "/usr/lib/x86_64-linux-gnu/android"
sys.path.insert(0, VERIF)
from checks import CHECKS, VARIANTS  # noqa: E402

COMMON = ["-std=c++17", "-g", "-fno-omit-frame-pointer", "-I" + REPO, "-isystem", "/usr/include/android",
          "-Wno-deprecated-declarations"]


def tree_hash(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def repo_files():
    r = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ("_build", ".git", "test")]
        r += [os.path.join(d, f) for f in fs if f.endswith((".cc", ".h", ".inc", ".cpp", ".hpp"))]
    return r


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(harness, variant):
    """Compiles /repo/src and the harness; returns the executable. Cached by content."""
    v = VARIANTS[variant]
    hsrc = os.path.join(VERIF, "harness", harness + ".cc")
    libs = glob.glob(os.path.join(VERIF, "lib", "*"))
    key = tree_hash(repo_files() + libs + [hsrc], json.dumps([v, COMMON, harness]))
    out = os.path.join(VERIF, "build", harness + "-" + variant + "-" + key)
    exe = os.path.join(out, "run")
    if os.path.exists(exe):
        os.utime(out)
        return exe
    for old in glob.glob(os.path.join(VERIF, "build", harness + "-" + variant + "-*")):
        try:
            if time.time() - os.path.getmtime(old) > 2400:
                shutil.rmtree(old, ignore_errors=True)
        except OSError:
            pass
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    cxx = "/usr/bin/clang++-18"
    jobs = []
    if v.get("lib", True):
        for f in sorted(glob.glob(REPO + "/src/*.cc")):
            jobs.append((f, v["repo_flags"]))
    jobs.append((hsrc, v["harness_flags"]))
    for f in v.get("extra", []):
        jobs.append((os.path.join(VERIF, f), v["extra_flags"]))

    def compile_one(j):
        o = os.path.join(tmp, j[0].strip("/").replace("/", "_") + ".o")
        p = run([cxx] + COMMON + j[1] + ["-c", j[0], "-o", o])
        return o, p

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(compile_one, jobs))
    for o, p in res:
        if p.returncode:
            print(p.stdout[:3000])
            print("BUILD FAILED:", o)
            shutil.rmtree(tmp, ignore_errors=True)
            return None
    p = run([cxx] + v["link_flags"] + [o for o, _ in res] +
            [BSSL + "/libcrypto.so", "-Wl,-rpath," + BSSL, "-lprotobuf"] +
            sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.so")) + ["-lpthread", "-ldl", "-o", os.path.join(tmp, "run")])
    if p.returncode:
        print(p.stdout[:3000])
        print("LINK FAILED")
        shutil.rmtree(tmp, ignore_errors=True)
        return None
    if os.path.exists(out):
        shutil.rmtree(tmp, ignore_errors=True)
    else:
        os.rename(tmp, out)
    return exe


def known_findings(prop):
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=" + prop + " key="):
                rest = l.split(" key=", 1)[1]
                k, _, desc = rest.partition(" ")
                r[k] = desc
    return r


def main():
    prop = sys.argv[1]
    tier = "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" or "--thorough" in sys.argv else "quick"
    only = [a.split("=")[1] for a in sys.argv if a.startswith("--suite=")]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    c = CHECKS[prop]
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    known = known_findings(prop)
    suites, violation, hits = [], None, {}
    for harness, variant in c["harnesses"]:
        exe = build(harness, variant)
        if exe is None:
            return 2
        js = os.path.join(VERIF, "build", "%s-%s-%s-%d.json" % (prop, harness, variant, os.getpid()))
        cmd = [exe, "--prop", prop, "--tier", tier, "--seed", str(seed), "--json", js]
        for k in known:
            cmd += ["--known", k]
        if only:
            cmd += ["--suite", only[0]]
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=1"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
        env.update(VARIANTS[variant].get("env", {}))
        p = subprocess.run(cmd, env=env, cwd=VERIF)
        if p.returncode not in (0, 1) and not os.path.exists(js):
            if only and p.returncode == 2:
                continue
            print("harness %s ended with %d" % (harness, p.returncode))
            return 2
        with open(js) as f:
            r = json.load(f)
        err = ""
        if os.path.exists(js + ".stderr"):
            err = open(js + ".stderr", errors="replace").read()
            os.unlink(js + ".stderr")
        os.unlink(js)
        for s in r["suites"]:
            s["harness"] = harness
            suites.append(s)
        for k, n in r["known_hits"].items():
            hits[k] = hits.get(k, 0) + n
        if "violation" in r:
            violation = r["violation"]
            violation.update(harness=harness, variant=variant, stderr=err[:20000], exe=exe)
            if not violation["reproduced"]:
                print("the failure could not be reproduced:", violation["msg"])
            break
    cov = {
        "states": sum(s["states"] for s in suites),
        "transitions": sum(s["transitions"] for s in suites),
        "traces_validated_against_impl": sum(s["executions"] for s in suites),
        "samples": [x for s in suites for x in s["samples"]][:12],
        "exhaustive": violation is None,
        "bounds": [{k: s[k] for k in ("harness", "suite", "what", "deviation_bound", "executions", "transitions", "states",
                                      "states_table_full", "merged_states", "merged_states_complete", "outcomes", "wall_s")} for s in suites],
        "meaning": "every execution runs the real code of /repo; states: distinct abstract configurations reached; transitions: "
                   "operations of the real code executed and compared with the oracle; traces: complete executions (leaves of the choice tree)",
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    if not only:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    for k, desc in known.items():
        if hits.get(k):
            print("KNOWN-FINDING: property=%s %s %s" % (prop, k, desc))
    if violation:
        rp = os.path.join(VERIF, "replays", prop + ".txt")
        with open(rp, "w") as f:
            f.write("property: %s\nharness: %s (%s), suite %s\nfailure: %s\nchoices: %s\nreplay: %s --prop %s --tier %s --replay %s '%s'\n\n"
                    "steps of the failing execution:\n%s\nsanitizer and library output:\n%s\n" %
                    (prop, violation["harness"], violation["variant"], violation["suite"], violation["msg"], violation["trace"],
                     violation["exe"], prop, tier, violation["suite"], violation["trace"], violation["notes"], violation["stderr"]))
        print(violation["msg"])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s: held on %d executions, %d transitions, %d states (%.1f s)" %
          (prop, cov["traces_validated_against_impl"], cov["transitions"], cov["states"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
