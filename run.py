#!/usr/bin/env python3
"""Runs one registered check: build the code under test from /repo's working tree, run the generators, write evidence.

usage: run.py check <PROPERTY> [--tier quick|thorough] [--seed N] [--time S]
       run.py replay <PROPERTY> <replay file>
       run.py build <variant>...      (developer convenience)
       run.py setup                   (MANIFEST setup_cmd)
Exit 0: the property held on everything explored (known findings are printed, not counted as violations).
Exit 1: VIOLATION property=<id> replay=<path> was printed.
Any other exit: the check could not be carried out.
"""
import concurrent.futures, hashlib, json, os, re, shlex, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
JOBS = os.cpu_count() or 4
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import checks as C  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg, log=""):
    sys.stderr.write(log[-6000:] + "\n" if log else "")
    sys.stderr.write("CHECK-NOT-CARRIED-OUT: %s\n" % msg)
    sys.exit(3)


def configure(variant):
    v = C.VARIANTS[variant]
    b = os.path.join(BUILD, variant, "iox")
    os.makedirs(b, exist_ok=True)
    env = dict(os.environ, GIT_DIR="/nonexistent")
    defs = {
        "CMAKE_BUILD_TYPE": "None",
        "CMAKE_C_COMPILER": v["cc"],
        "CMAKE_CXX_COMPILER": v["cxx"],
        "CMAKE_C_FLAGS": v["cflags"],
        "CMAKE_CXX_FLAGS": v["cflags"],
        "CMAKE_POLICY_VERSION_MINIMUM": "3.5",
        "BUILD_STRICT": "OFF", "CCACHE": "OFF", "DOWNLOAD_TOML_LIB": "OFF", "TOML_CONFIG": "ON",
        "BINDING_C": "ON", "ROUDI_ENVIRONMENT": "ON", "BUILD_TEST": "OFF", "EXAMPLES": "OFF", "INTROSPECTION": "OFF",
    }
    defs.update(v.get("defs", {}))
    r = sh(["cmake", "-S", os.path.join(REPO, "iceoryx_meta"), "-B", b, "-G", "Ninja"]
           + ["-D%s=%s" % kv for kv in defs.items()], env=env)
    if r.returncode != 0:
        die("cmake failed", r.stdout)
    return b


def include_flags(b):
    """the include paths and language options iceoryx itself uses, taken from its own build description"""
    cc = json.load(open(os.path.join(b, "compile_commands.json")))
    flags, seen = [], set()
    for e in cc:
        if not e["file"].endswith(".cpp"):
            continue
        args = shlex.split(e["command"])
        i = 0
        while i < len(args):
            a = args[i]
            if a == "-isystem":
                f = ("-isystem", args[i + 1])
                i += 1
            elif a.startswith("-I") or a.startswith("-D"):
                f = (a,)
            else:
                i += 1
                continue
            if f not in seen and not (f[0].startswith("-D") and "EXPORTS" in f[0]):
                seen.add(f)
                flags += list(f)
            i += 1
    return flags


_tree_hash = None


def tree_hash():
    """content hash of everything in /repo that can end up in a translation unit"""
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for top in ("iceoryx_platform", "iceoryx_hoofs", "iceoryx_posh", "iceoryx_binding_c", "iceoryx_meta"):
            for d, dirs, files in sorted(os.walk(os.path.join(REPO, top))):
                dirs[:] = sorted(x for x in dirs if x not in ("test", "testing"))
                for f in sorted(files):
                    p = os.path.join(d, f)
                    if os.path.islink(p):
                        continue
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
        _tree_hash = h.hexdigest()
    return _tree_hash


LIBS = {
    "platform": "platform/libiceoryx_platform.a",
    "hoofs": "hoofs/libiceoryx_hoofs.a",
    "posh": "posh/libiceoryx_posh.a",
    "posh_roudi": "posh/libiceoryx_posh_roudi.a",
    "posh_config": "posh/libiceoryx_posh_config.a",
    "posh_gateway": "posh/libiceoryx_posh_gateway.a",
    "binding_c": "iceoryx_binding_c/libiceoryx_binding_c.a",
    "roudi_env": None,
}


def find_lib(b, name):
    rel = LIBS[name]
    if rel and os.path.exists(os.path.join(b, rel)):
        return os.path.join(b, rel)
    base = {"roudi_env": "libiceoryx_posh_roudi_env.a"}.get(name, os.path.basename(rel or ""))
    for d, _, fs in os.walk(b):
        if base in fs:
            return os.path.join(d, base)
    die("library %s not found" % name)


TARGETS = {"platform": "iceoryx_platform", "hoofs": "iceoryx_hoofs", "posh": "iceoryx_posh",
           "posh_roudi": "iceoryx_posh_roudi", "posh_config": "iceoryx_posh_config",
           "posh_gateway": "iceoryx_posh_gateway", "binding_c": "iceoryx_binding_c",
           "roudi_env": "iceoryx_posh_roudi_env"}


def build(variant, harnesses, want_exe=()):
    """builds the libraries of the variant and the harness executables; returns {harness: exe}"""
    import fcntl
    os.makedirs(os.path.join(BUILD, variant), exist_ok=True)
    lock = open(os.path.join(BUILD, variant, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    v = C.VARIANTS[variant]
    b = configure(variant)
    inc = include_flags(b)
    hdir = os.path.join(BUILD, variant, "h")
    os.makedirs(hdir, exist_ok=True)
    libs = []
    for h in harnesses:
        for l in C.HARNESSES[h]["libs"]:
            if l not in libs:
                libs.append(l)
    order = ["binding_c", "roudi_env", "posh_gateway", "posh_config", "posh_roudi", "posh", "hoofs", "platform"]
    libs.sort(key=order.index)
    libhash = hashlib.sha256()
    for d in (os.path.join(HERE, "lib"),):
        for f in sorted(os.listdir(d)):
            libhash.update(open(os.path.join(d, f), "rb").read())

    def compile_one(job):
        src, obj, flags = job
        key = hashlib.sha256((tree_hash() + libhash.hexdigest() + repr(flags)).encode()
                             + open(src, "rb").read()).hexdigest()
        stamp = obj + ".key"
        if os.path.exists(obj) and os.path.exists(stamp) and open(stamp).read() == key:
            return None
        compiler = v["cxx"] if src.endswith(".cpp") else v["cc"]
        r = sh([compiler] + flags + ["-c", src, "-o", obj])
        if r.returncode != 0:
            return r.stdout
        open(stamp, "w").write(key)
        return None

    jobs, objs = [], {}
    for h in harnesses:
        hd = C.HARNESSES[h]
        objs[h] = []
        for s in hd["src"]:
            src = os.path.join(HERE, "harness", s)
            obj = os.path.join(hdir, h + "__" + os.path.basename(s) + ".o")
            std = ["-std=c++17"] if s.endswith(".cpp") else []
            plain = s in hd.get("plain", ())
            cfl = shlex.split(v["plain_cflags"] if plain and "plain_cflags" in v else v["cflags"])
            extra = hd.get("cflags", [])
            jobs.append((src, obj, std + cfl + extra + ["-w", "-I", os.path.join(HERE, "lib")] + inc))
            objs[h].append(obj)
    with concurrent.futures.ThreadPoolExecutor(max_workers=max(1, JOBS)) as ex:
        futs = [ex.submit(compile_one, j) for j in jobs]
        targets = [TARGETS[l] for l in libs] + list(want_exe)
        r = sh(["ninja", "-C", b, "-j", str(JOBS)] + targets)
        if r.returncode != 0:
            die("building iceoryx failed", r.stdout)
        for f in futs:
            e = f.result()
            if e is not None:
                die("compiling a harness failed", e)
    exes = {}
    for h in harnesses:
        hd = C.HARNESSES[h]
        exe = os.path.join(hdir, h)
        hl = [find_lib(b, l) for l in order if l in hd["libs"]]
        r = sh([v["cxx"]] + shlex.split(v.get("ldflags", "")) + objs[h] + ["-Wl,--start-group"] + hl
               + ["-Wl,--end-group"] + hd.get("ldlibs", []) + ["-lpthread", "-lrt", "-lacl", "-ldl", "-o", exe])
        if r.returncode != 0:
            die("linking a harness failed", r.stdout)
        exes[h] = exe
    exes["_iox"] = b
    return exes


def load_known():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return out


def purge_leftovers():
    """remove iceoryx resources that killed harness processes left in /dev/shm and /tmp"""
    for d, pref in (("/dev/shm", C.PREFIX + "_"), ("/tmp", C.PREFIX + "_")):
        try:
            for f in os.listdir(d):
                if f.startswith(pref):
                    p = os.path.join(d, f)
                    try:
                        if os.path.isdir(p) and not os.path.islink(p):
                            shutil.rmtree(p, ignore_errors=True)
                        else:
                            os.unlink(p)
                    except OSError:
                        pass
        except OSError:
            pass


def check(prop, tier, seed, time_override=None):
    t0 = time.time()
    spec = C.CHECKS[prop]
    work = os.path.join(BUILD, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev_path = os.path.join(HERE, "evidence", prop + ".json")
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    known = load_known().get(prop, {})
    by_variant = {}
    for part in spec["parts"]:
        by_variant.setdefault(part["variant"], [])
        if part["harness"] not in by_variant[part["variant"]]:
            by_variant[part["variant"]].append(part["harness"])
    exes = {}
    for variant, hs in by_variant.items():
        exes[variant] = build(variant, hs, want_exe=spec.get("want_exe", ()))
    t_build = time.time() - t0
    total = time_override or spec["time"][tier]
    wsum = sum(p.get("weight", 1.0) for p in spec["parts"])
    results, violation = [], None
    known_hits = {}
    for i, part in enumerate(spec["parts"]):
        out = os.path.join(work, "p%d" % i)
        os.makedirs(out, exist_ok=True)
        budget = total * part.get("weight", 1.0) / wsum
        cmd = [exes[part["variant"]][part["harness"]], "--test", ",".join(part["tests"]), "--seed", str(seed),
               "--time", "%.1f" % budget, "--jobs", str(part.get("jobs", JOBS)), "--out", out]
        for k in known:
            cmd += ["--known", k]
        env = dict(os.environ, IOX_LOG_LEVEL="off", VERIF_TIER=tier, VERIF_SEED=str(seed),
                   IOX_BUILD=exes[part["variant"]]["_iox"], VERIF_SCRATCH=out,
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0",
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:abort_on_error=1")
        purge_leftovers()
        with open(os.path.join(out, "stderr.txt"), "w") as ef:
            p = subprocess.Popen(cmd, env=env, stdout=ef, stderr=ef, start_new_session=True)
            try:
                p.wait(timeout=budget * 3 + 500)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                die("harness %s did not finish" % part["harness"])
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        purge_leftovers()
        rj = os.path.join(out, "result.json")
        if p.returncode not in (0, 1) or not os.path.exists(rj):
            die("harness %s exited with %s" % (part["harness"], p.returncode),
                open(os.path.join(out, "stderr.txt")).read())
        res = json.load(open(rj))
        for r in res:
            r["harness"] = part["harness"]
            r["variant"] = part["variant"]
            results.append(r)
            for k, n in r["known"].items():
                known_hits[k] = known_hits.get(k, 0) + n
            if r["violated"] and violation is None:
                rp = os.path.join(HERE, "evidence", "replay-%s-%s.txt" % (prop, r["test"]))
                shutil.copy(r["replay"], rp)
                violation = (r, rp)
        if violation:
            break
    samples = []
    for r in results:
        for s in r["samples"][:2]:
            samples.append({"test": r["test"], "case": s[:900]})
    evals = sum(r["evaluations"] for r in results)
    dn = sum(r["distinct_nontrivial"] for r in results)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": dn, "rule": spec["rule"], "samples": samples[:12],
            "discarded": sum(r["discarded"] for r in results),
            "unconfirmed": sum(r["unconfirmed"] for r in results),
            "unconfirmed_keys": [k for r in results for k in r["unconfirmed_keys"]][:10],
            "per_test": [{k: r[k] for k in ("test", "harness", "variant", "evaluations", "nontrivial",
                                            "distinct_nontrivial", "discarded", "wall_s", "buckets")} for r in results],
        },
        "assumptions": C.ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "build_s": round(t_build, 1),
        "violations": ([] if not violation else
                       [{"key": violation[0]["key"], "what": violation[0]["msg"], "replay": violation[1]}]),
        "known_findings_hit": known_hits,
    }
    json.dump(ev, open(ev_path, "w"), indent=1)
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    for k, d in known.items():
        print("KNOWN-FINDING: property=%s %s (observed %d times in this run)" % (prop, d, known_hits.get(k, 0)))
    print("%s tier=%s seed=%s: %d cases, %d distinct non-trivial, build %.0f s, total %.0f s" % (
        prop, tier, seed, evals, dn, t_build, time.time() - t0))
    if violation:
        r, rp = violation
        print("violated: test=%s key=%s %s" % (r["test"], r["key"], r["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if dn < 10:
        die("the generators produced almost nothing; the run says nothing about the property")
    return 0


def replay(prop, path):
    test = re.search(r"^test (\S+)", open(path).read(), re.M).group(1)
    for part in C.CHECKS[prop]["parts"]:
        if test in part["tests"]:
            ex = build(part["variant"], [part["harness"]], want_exe=C.CHECKS[prop].get("want_exe", ()))
            out = os.path.join(BUILD, "work", "replay-" + prop)
            os.makedirs(out, exist_ok=True)
            env = dict(os.environ, IOX_LOG_LEVEL=os.environ.get("IOX_LOG_LEVEL", "off"), IOX_BUILD=ex["_iox"],
                       VERIF_SCRATCH=out,
                       ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1")
            return subprocess.call([ex[part["harness"]], "--replay", path, "--out", out], env=env)
    die("test %s not part of %s" % (test, prop))


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        tov = None
        i = 2
        while i < len(a):
            if a[i] == "--tier":
                tier = a[i + 1]
            elif a[i] == "--seed":
                seed = int(a[i + 1])
            elif a[i] == "--time":
                tov = float(a[i + 1])
            i += 2
        return check(a[1], tier, seed, tov)
    if a[0] == "replay":
        return replay(a[1], a[2])
    if a[0] == "build":
        if len(a) == 3 and a[2] in C.HARNESSES:
            print(build(a[1], [a[2]]))
            return 0
        for v in a[1:]:
            hs = sorted({p["harness"] for c in C.CHECKS.values() for p in c["parts"] if p["variant"] == v})
            print(build(v, hs))
        return 0
    if a[0] == "setup":
        for tool in ("cmake", "ninja", "g++", "clang++"):
            if not shutil.which(tool):
                die("missing tool " + tool)
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
