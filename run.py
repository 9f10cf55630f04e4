#!/usr/bin/env python3
"""Driver: builds a property's harness from /repo's working tree, runs it, writes evidence.

  run.py check P01 [quick|thorough]     run one property's check
  run.py replay FILE                    run a saved failing case again (FILE: replays/*.json)
  run.py build [P01 ...]                only build (setup)

Exit status of check: 0 held on everything explored, 1 violation (with a VIOLATION line), 2 the check itself
could not run (build failure and the like).
"""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
NCPU = 8
sys.path.insert(0, VERIF)
from checks import PROPS  # noqa: E402

LIB = """diagnostic/diagnostic diagnostic/hdfdiagnostic functions grid/mpisubdivision parser/deckscanner
parser/parser parser/parsertoken tools/literature util/exceptions util/factor variables/blockclasses
variables/block variables/blockparameters variables/dependencies variables/function_expression
variables/variables""".split()

VARIABLES = [x for x in LIB if x.startswith(("variables/", "parser/", "util/exceptions", "functions"))]
MPISET = [x for x in LIB if x not in ("diagnostic/hdfdiagnostic", "tools/literature")]
OUTSET = VARIABLES + ["diagnostic/diagnostic", "tools/literature"]
LIBSETS = {"out": OUTSET, "mpi": MPISET, "none": ["util/exceptions"], "grid": ["util/exceptions", "util/factor", "functions"], "vars": VARIABLES, "all": LIB}

# config name -> (config.hpp lines, extra compile flags, extra link flags)
HDF = ["-I/usr/include/hdf5/openmpi"]
HDFL = ["-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi", "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/openmpi", "-lhdf5"]
MPIC, MPIL = [], []


def mpi_flags():
    global MPIC, MPIL
    if not MPIC:
        MPIC = subprocess.check_output(["mpicxx", "--showme:compile"], text=True).split()
        MPIL = subprocess.check_output(["mpicxx", "--showme:link"], text=True).split()
    return MPIC, MPIL


def config(name):
    """the feature set a harness is built with: text of config.hpp, compile flags, link flags"""
    lines, cf_, lf = [], [], []
    feats = set(name.split("+"))
    if "mpi" in feats:
        lines += ["#define SCHNEK_HAVE_MPI", "#ifndef OMPI_SKIP_MPICXX", "#define OMPI_SKIP_MPICXX", "#endif"]
        c, l = mpi_flags()
        cf_ += c
        lf += l
    if "hdf" in feats:
        lines += ["#define SCHNEK_HAVE_HDF5", "#define SCHNEK_USE_HDF_PARALLEL"]
        cf_ += HDF
        lf += HDFL
    if "hdfs" in feats:  # HDF5 without its parallel interface
        lines += ["#define SCHNEK_HAVE_HDF5"]
        cf_ += HDF
        lf += HDFL
    if "kokkos" in feats:
        lines += ["#define SCHNEK_HAVE_KOKKOS"]
        cf_ += ["-DKOKKOS_DEPENDENCE", "-I/usr/include/trilinos"]
        lf += ["-ltrilinos_kokkoscore"]
    lines += ['#define SCHNEK_VERSION "1.2.0"', "#define SCHNEK_VERSION_MAJOR 1", "#define SCHNEK_VERSION_MINOR 2"]
    return "\n".join(lines) + "\n", cf_, lf


SAN = {"asan": ["-fsanitize=address", "-fno-omit-frame-pointer"], "none": [],
       "asan+ub": ["-fsanitize=address,undefined", "-fno-sanitize=signed-integer-overflow,float-cast-overflow", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]}


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness")):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if base.endswith("harness") and f.endswith(".cpp"):
                    continue  # compiled one by one, hashed with their own unit
                h.update(os.path.relpath(p, base).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def sh(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[:2500]))
    return p.stdout


def compile_unit(job):
    src, obj, flags = job
    if os.path.exists(obj):
        return
    tmp = obj + ".%d.tmp" % os.getpid()
    sh(["g++", "-c", src, "-o", tmp] + flags, None)
    os.replace(tmp, obj)


def build(pid):
    """build every binary of a property in parallel; returns {binary name: path}"""
    th = tree_hash()
    jobs, links, bins = [], [], {}
    for b in PROPS[pid]["bins"]:
        cfg = b.get("config", "plain")
        text, cfl, lfl = config(cfg)
        cdir = os.path.join(BUILD, "cfg_" + cfg.replace("+", "_"))
        for sub in ("grid", "grid/iteration"):
            os.makedirs(os.path.join(cdir, "src", sub), exist_ok=True)
        cpath = os.path.join(cdir, "src", "config.hpp")
        if not os.path.exists(cpath) or open(cpath).read() != text:
            with open(cpath, "w") as fh:
                fh.write(text)
        incs = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "harness"),
                "-I" + os.path.join(cdir, "src", "grid"), "-I" + os.path.join(cdir, "src", "grid", "iteration")]
        flags = ["-std=c++17", "-O1", "-g1", "-w", "-fPIC", "-pthread"] + SAN[b.get("san", "asan")] + incs + cfl
        flags += b.get("flags", [])
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        objs = []
        units = [(os.path.join(REPO, "src", x + ".cpp"), []) for x in LIBSETS[b.get("lib", "none")]]
        units += [(os.path.join(VERIF, "harness", x), b.get("hflags", [])) for x in b["src"]]
        keys = [th]
        for src, extra in units:
            with open(src, "rb") as fh:
                body = fh.read()
            k = hashlib.sha256((th + src + text + " ".join(flags + extra)).encode() + body).hexdigest()[:24]
            keys.append(k)
            obj = os.path.join(BUILD, "obj", os.path.basename(src)[:-4] + "-" + k + ".o")
            objs.append(obj)
            jobs.append((src, obj, flags + extra))
        out = os.path.join(BUILD, "bin", b["name"] + "-" + hashlib.sha256("".join(keys).encode()).hexdigest()[:16])
        bins[b["name"]] = out
        links.append((out, objs, SAN[b.get("san", "asan")], lfl + b.get("libs", []), flags))
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    jobs = list({j[1]: j for j in jobs}.values())
    jobs.sort(key=lambda j: 0 if "/harness/" in j[0] else 1)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(compile_unit, jobs))
    for out, objs, san, lfl, flags in links:
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            try:
                sh(["g++", "-pthread"] + san + ["-o", tmp] + objs + lfl + ["-ldl"], None)
            except RuntimeError:
                # a header may have come to need more of the library: link with all of it
                more = []
                for x in LIB:
                    src = os.path.join(REPO, "src", x + ".cpp")
                    obj = out + "-" + x.replace("/", "_") + ".o"
                    if not any(os.path.basename(o).startswith(os.path.basename(x) + "-") for o in objs):
                        more.append((src, obj, flags))
                with cf.ThreadPoolExecutor(NCPU) as ex:
                    list(ex.map(compile_unit, more))
                sh(["g++", "-pthread"] + san + ["-o", tmp] + objs + [m[1] for m in more] + lfl + ["-ldl"], None)
            os.replace(tmp, out)
    return bins


def env_for_run():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_odr_violation=0:detect_container_overflow=0"
    e["OMP_NUM_THREADS"] = "2"
    e["OMP_PROC_BIND"] = "false"
    e["OMPI_ALLOW_RUN_AS_ROOT"] = "1"
    e["OMPI_ALLOW_RUN_AS_ROOT_CONFIRM"] = "1"
    e["OMPI_MCA_btl_vader_backing_directory"] = "/dev/shm"
    e["LC_ALL"] = "C"
    e["HDF5_USE_FILE_LOCKING"] = "FALSE"
    return e


def run_batch(job):
    """one process: a batch of cases of one property function"""
    binp, fn, seed, first, cases, np, work, idx, opts = job
    out = os.path.join(work, "%s-%s.json" % (fn, idx))
    cmd = [binp, "--prop", fn, "--out", out, "--err", out + ".err", "--seed", str(seed), "--first", str(first),
           "--cases", str(cases)]
    if np:
        cmd += ["--np", str(np)]
    for k, v in opts.items():
        cmd += ["--" + k, str(v)]
    sub = os.path.join(work, "cwd-%s-%s" % (fn, idx))
    os.makedirs(sub)
    p = subprocess.run(cmd, cwd=sub, env=env_for_run(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace", start_new_session=True)
    shutil.rmtree(sub, ignore_errors=True)
    res = {"rc": p.returncode, "out": out, "log": p.stdout[-4000:], "fn": fn, "np": np}
    if p.returncode == 0:
        with open(out) as fh:
            res["stats"] = json.load(fh)
    elif p.returncode == 3:
        with open(out + ".fail") as fh:
            res["fail"] = json.load(fh)
        try:
            res["fail"]["stderr"] = open(out + ".err", errors="replace").read()[:3000]
        except OSError:
            res["fail"]["stderr"] = ""
    for f in (out, out + ".fail", out + ".err", out + ".shm"):
        if os.path.exists(f):
            os.unlink(f)
    return res


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return [k for k in json.load(fh) if k.get("property") == pid and k.get("status") == "known"]


def check(pid, tier):
    t0 = time.time()
    spec = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = spec.get("budget", {}).get(tier, 240 if tier == "quick" else 780)
    try:
        bins = build(pid)
    except RuntimeError as e:
        print("BUILD-FAILED property=%s" % pid)
        print(e)
        return 2
    t_build = time.time() - t0
    work = tempfile.mkdtemp(prefix="work-%s-" % pid, dir=BUILD)
    try:
        return explore(pid, tier, spec, seed, budget, bins, t0, t_build, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def explore(pid, tier, spec, seed, budget, bins, t0, t_build, work):
    # jobs: each function's cases are cut in batches; every batch has its own first index
    jobs = []
    for f in spec["fns"]:
        total = f["quick"] if tier == "quick" else f.get("thorough", f["quick"] * 15)
        nb = f.get("batches", 8 if tier == "quick" else 64)
        if "nps" in f:
            nb = max(nb, len(f["nps"]))
        per = max(1, (total + nb - 1) // nb)
        for i in range(nb):
            np = f["nps"][i % len(f["nps"])] if "nps" in f else 0
            jobs.append((i, (bins[f["bin"]], f["fn"], (seed * 1000003 + 17) & 0xFFFFFFFF, i * per, per, np, work,
                             "%d" % i, f.get("opts", {}))))
    jobs.sort(key=lambda j: j[0])
    jobs = [j[1] for j in jobs]
    par = spec.get("parallel", NCPU)
    results, failures, errors, inconclusive, skipped = [], [], [], 0, 0
    deadline = time.time() + budget

    def guarded(j):
        if time.time() > deadline or failures:
            return None
        r = run_batch(j)
        if r["rc"] == 3:
            failures.append(r)
        return r

    with cf.ThreadPoolExecutor(par) as ex:
        for r in ex.map(guarded, jobs):
            if r is None:
                skipped += 1
            elif r["rc"] == 0:
                results.append(r)
            elif r["rc"] == 4:
                inconclusive += 1
                print("INCONCLUSIVE batch of %s: %s" % (r["fn"], r["log"][-600:]))
            elif r["rc"] != 3:
                errors.append(r)
    evals = sum(r["stats"]["evaluations"] for r in results)
    disc = sum(r["stats"]["discards"] for r in results)
    nontriv = sum(r["stats"]["nontrivial"] for r in results)
    hashes = set()
    labels, samples, per_fn = {}, [], {}
    for r in results:
        hashes.update((r["fn"], r["np"], h) for h in r["stats"]["hashes"])
        for k, v in r["stats"]["labels"].items():
            labels[k] = labels.get(k, 0) + v
        per_fn[r["fn"]] = per_fn.get(r["fn"], 0) + r["stats"]["evaluations"]
        if sum(1 for x in samples if x["fn"] == r["fn"]) < 2:
            for x in r["stats"]["samples"][-1:]:
                samples.append({"fn": r["fn"], "np": r["np"], "case": x[:1200]})
    # listed known findings: their probe must still show the finding
    for k in known_findings(pid):
        res = run_batch((bins[k["bin"]], k["probe"], 1, 0, 1, k.get("np", 0), work, "probe", {"shrink-ms": 1, "hang-ms": 20000}))
        if res["rc"] == 3:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hashes), "rule": spec["rule"], "samples": samples,
            "nontrivial": nontriv, "discarded": disc, "cases_per_check_function": per_fn,
            "class_distribution": dict(sorted(labels.items())), "inconclusive_batches": inconclusive,
            "batches_not_run_for_time": skipped, "build_s": round(t_build, 1),
        },
        "assumptions": spec.get("assumptions", []), "violations": len(failures),
        "wall_s": round(time.time() - t0, 2),
    }
    if failures:
        f = failures[0]
        if not samples:
            ev["coverage"]["samples"] = [{"fn": f["fn"], "case": f["fail"]["input"][:1200]}]
        ev["coverage"]["evaluations"] = max(evals, int(f["fail"]["evaluations"]))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if failures:
        f = failures[0]["fail"]
        f["property"] = pid
        f["bin"] = next(x["bin"] for x in spec["fns"] if x["fn"] == f["property_fn"])
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        name = "%s-%s.json" % (pid, hashlib.sha256(json.dumps(f["choices"]).encode() + f["property_fn"].encode()).hexdigest()[:10])
        path = os.path.join(rdir, name)
        with open(path, "w") as fh:
            json.dump(f, fh, indent=1)
        print("%s: %s\n%s\n%s" % (f["property_fn"], f["message"], f["input"][:3000], f.get("stderr", "")[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR in %s: rc=%s\n%s" % (e["fn"], e["rc"], e["log"]))
        return 2
    print("%s %s: held on %d cases (%d distinct non-trivial), build %.1f s, total %.1f s"
          % (pid, tier, evals, len(hashes), t_build, time.time() - t0))
    if skipped:
        print("note: %d of %d batches not run, time budget" % (skipped, len(jobs)))
    return 0


def replay(path):
    with open(path) as fh:
        f = json.load(fh)
    bins = build(f["property"])
    work = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    try:
        ch = os.path.join(work, "choices")
        with open(ch, "w") as fh:
            fh.write(" ".join(str(c) for c in f["choices"]))
        err = os.path.join(work, "err")
        cmd = [bins[f["bin"]], "--prop", f["property_fn"], "--out", os.path.join(work, "o"), "--err", err]
        if f["np"]:
            cmd += ["--np", str(f["np"])]
        if f["kind"] == "choices":
            cmd += ["--replay", ch]
        else:
            cmd += ["--seed", str(f["seed"]), "--first", str(f["first"]), "--cases", str(f["case"] - f["first"] + 1)]
        r = subprocess.run(["timeout", "-k", "5", "300"] + cmd, cwd=work, env=env_for_run())
        if os.path.exists(err):
            sys.stdout.write(open(err, errors="replace").read()[:4000])
        if r.returncode == 3:
            print("VIOLATION property=%s replay=%s" % (f["property"], path))
            return 1
        return 0 if r.returncode == 0 else 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    if a and a[0] == "check":
        return check(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick"))
    if a and a[0] == "replay":
        return replay(a[1])
    if a and a[0] == "build":
        for p in a[1:] or sorted(PROPS):
            build(p)
            print("built", p)
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
