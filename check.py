#!/usr/bin/env python3
"""Decides one property of libpomp by generated-input search.

    check.py <ID>                 run the check (VERIF_SEED, VERIF_TIER)
    check.py <ID> --replay FILE   re-run one saved failing case
    check.py --setup              build everything

Exit 0: held on everything explored.  Exit 1, with a VIOLATION line: broken.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("POMP_REPO", "/repo")
HARN = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
CC = "/usr/bin/clang-18" if os.path.exists("/usr/bin/clang-18") else "clang"
CXX = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"

SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=shift-base,nonnull-attribute,pointer-overflow,function",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
    "plain": [],
}

sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, check=False, **kw)
    if p.returncode != 0:
        raise RuntimeError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-6000:]))
    return p.stdout.decode("utf-8", "replace")


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def lib_sources():
    """What the build of /repo compiles, asked of its Makefile.am, else every
    portable source."""
    src = os.path.join(REPO, "src")
    return sorted(glob.glob(os.path.join(src, "*.c")))


def headers():
    return glob.glob(os.path.join(REPO, "src", "*.h")) + glob.glob(os.path.join(REPO, "include", "*"))


def prune(prefix, keep):
    ds = sorted(glob.glob(os.path.join(BUILD, prefix + "-*")), key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


def finish(tmp, final):
    """Atomically publish a build directory."""
    try:
        os.rename(tmp, final)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)


def pool_run(jobs):
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for f in [ex.submit(*j) for j in jobs]:
            f.result()


def build_shim(variant):
    key = digest([os.path.join(HARN, "shim.c"), os.path.join(HARN, "shim.h"), os.path.join(HARN, "gensyms.sh")],
                 CC + str(SAN[variant]))
    out = os.path.join(BUILD, "shim-%s-%s" % (variant, key))
    if not os.path.isdir(out):
        tmp = tempfile.mkdtemp(prefix="tmp", dir=BUILD)
        sh([CC, "-g", "-O1", "-w", *SAN[variant], "-I", HARN, "-c", os.path.join(HARN, "shim.c"), "-o", tmp + "/shim.o"])
        syms = sh(["sh", os.path.join(HARN, "gensyms.sh"), tmp + "/shim.o"])
        with open(tmp + "/syms.txt", "w") as f:
            f.write(syms)
        finish(tmp, out)
    return out


def build_lib(variant, shimmed=True, defs=()):
    srcs = lib_sources()
    shim = build_shim(variant) if shimmed else ""
    key = digest(srcs + headers(), CC + variant + os.path.basename(shim) + str(SAN[variant]) + str(defs))
    out = os.path.join(BUILD, "lib%s-%s-%s" % ("" if shimmed else "raw", variant, key))
    if os.path.isdir(out):
        os.utime(out)
        return out
    tmp = tempfile.mkdtemp(prefix="tmp", dir=BUILD)
    base = set(os.path.basename(s) for s in srcs)

    def one(s):
        o = os.path.join(tmp, os.path.basename(s)[:-2] + ".o")
        sh([CC, "-g", "-O1", "-std=gnu99", "-w", "-fPIC", *SAN[variant], "-DPOMP_API_EXPORTS", *defs,
            "-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "src"), "-c", s, "-o", o])
        if shimmed:
            sh(["objcopy", "--redefine-syms", os.path.join(shim, "syms.txt"), o])
    # sources that another source includes are not compiled on their own
    todo = []
    included = set()
    for s in srcs:
        with open(s, encoding="utf-8", errors="replace") as f:
            for line in f:
                line = line.strip()
                if line.startswith("#") and "include" in line and '.c"' in line:
                    included.add(line.split('"')[1].split("/")[-1])
    for s in srcs:
        if os.path.basename(s) not in included:
            todo.append(s)
    assert base
    pool_run([(one, s) for s in todo])
    sh(["ar", "rcs", tmp + "/libpomp.a"] + sorted(glob.glob(tmp + "/*.o")))
    finish(tmp, out)
    prune("lib%s-%s" % ("" if shimmed else "raw", variant), 3)
    return out


def build_obj(path, variant, extra=()):
    hdrs = glob.glob(os.path.join(HARN, "*.h")) + glob.glob(os.path.join(HARN, "*.hpp"))
    key = digest([path] + hdrs + glob.glob(os.path.join(REPO, "include", "*")), CXX + str(SAN[variant]) + str(extra))
    name = os.path.basename(path).rsplit(".", 1)[0]
    out = os.path.join(BUILD, "obj-%s-%s-%s" % (name, variant, key))
    if not os.path.isdir(out):
        tmp = tempfile.mkdtemp(prefix="tmp", dir=BUILD)
        cxx = path.endswith(".cpp")
        sh([CXX if cxx else CC, "-g", "-O1", "-std=c++17" if cxx else "-std=gnu11", "-Wall", "-Wno-unused-function",
            "-Wno-format-security", "-Wno-format-zero-length", *SAN[variant], *extra, "-I", HARN, "-I", os.path.join(REPO, "include"),
            "-c", path, "-o", tmp + "/o.o"])
        finish(tmp, out)
        prune("obj-%s-%s" % (name, variant), 2)
    return out + "/o.o"


def build_bin(spec):
    """spec: name, srcs, variant, shimmed"""
    os.makedirs(BUILD, exist_ok=True)
    variant = spec.get("variant", "asan")
    shimmed = spec.get("shimmed", variant == "asan")
    objs, res = [], {}

    def lib():
        res["lib"] = build_lib(variant, shimmed, tuple(spec.get("defs", ())))
    srcs = [os.path.join(HARN, s) for s in spec["srcs"] + ["pbt.cpp"]]

    def obj(s):
        res[s] = build_obj(s, variant, tuple(spec.get("cflags", ())))
    pool_run([(lib,)] + [(obj, s) for s in srcs])
    objs = [res[s] for s in srcs]
    if shimmed:
        objs.append(os.path.join(build_shim(variant), "shim.o"))
    key = digest(objs, res["lib"])
    out = os.path.join(BUILD, "bin-%s-%s" % (spec["name"], key))
    if not os.path.isdir(out):
        tmp = tempfile.mkdtemp(prefix="tmp", dir=BUILD)
        sh([CXX, "-g", *SAN[variant], *objs, res["lib"] + "/libpomp.a", "-lpthread", "-lrt", *spec.get("ldflags", ()),
            "-o", tmp + "/" + spec["name"]])
        finish(tmp, out)
        prune("bin-%s" % spec["name"], 2)
    return os.path.join(out, spec["name"])


def build_so():
    """The library as a shared object, for ctypes."""
    os.makedirs(BUILD, exist_ok=True)
    lib = build_lib("plain", False)
    out = os.path.join(BUILD, "so-" + os.path.basename(lib))
    if not os.path.isdir(out):
        tmp = tempfile.mkdtemp(prefix="tmp", dir=BUILD)
        sh([CC, "-shared", "-Wl,--whole-archive", lib + "/libpomp.a", "-Wl,--no-whole-archive", "-lpthread", "-lrt",
            "-o", tmp + "/libpomp.so"])
        finish(tmp, out)
        prune("so", 3)
    return out + "/libpomp.so"


def build_cli():
    """The command line tool, with sanitizers."""
    os.makedirs(BUILD, exist_ok=True)
    lib = build_lib("asan", False)
    src = os.path.join(REPO, "tools", "pomp_cli.c")
    out = os.path.join(BUILD, "cli-" + digest([src] + headers(), os.path.basename(lib)))
    if not os.path.isdir(out):
        tmp = tempfile.mkdtemp(prefix="tmp", dir=BUILD)
        sh([CC, "-g", "-O1", "-std=gnu99", "-w", *SAN["asan"], "-I", os.path.join(REPO, "include"), src, lib + "/libpomp.a",
            "-lpthread", "-lrt", "-o", tmp + "/pomp-cli"])
        finish(tmp, out)
        prune("cli", 3)
    return out + "/pomp-cli"


def prepare(spec, env):
    """Builds what the run needs; the command to run."""
    if "py" in spec:
        env["POMP_SO"] = build_so()
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        if spec.get("cli"):
            env["POMP_CLI"] = build_cli()
        for k, s2 in spec.get("bins", {}).items():
            env[k] = build_bin(s2)
        return [sys.executable, "-B", os.path.join(HARN, spec["py"])]
    return [build_bin(spec)]


def known_findings(pid):
    """Open findings of this property: lines 'open: property=<id> <what fails>'."""
    res = []
    with open(os.path.join(HERE, "known_findings.txt"), encoding="utf-8") as f:
        for line in f:
            if line.startswith("open: property=%s " % pid):
                res.append(line.strip().split(" ", 2)[2])
    return res


def env_for(scratch, pid):
    e = dict(os.environ)
    common = "log_path=%s/san.%s:exitcode=99" % (scratch, pid)
    e["ASAN_OPTIONS"] = common + ":detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:" \
        "abort_on_error=0:handle_abort=1:quarantine_size_mb=16:malloc_context_size=8:print_legend=0"
    e["UBSAN_OPTIONS"] = common + ":print_stacktrace=1:halt_on_error=1"
    e["TSAN_OPTIONS"] = common + ":halt_on_error=1:second_deadlock_stack=1"
    e["TMPDIR"] = scratch
    e["LC_ALL"] = "C.UTF-8"
    e["POMP_REPO"] = REPO
    e.pop("PRODUCT_ROOT_CFG", None)
    return e


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        os.makedirs(BUILD, exist_ok=True)
        seen = set()
        for pid, c in CHECKS.items():
            for spec in c["runs"]:
                if spec["name"] not in seen:
                    seen.add(spec["name"])
                    prepare(spec, {})
                    print("built", spec["name"], flush=True)
        return 0
    pid = args[0]
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    check = CHECKS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    rdir = os.path.join(HERE, "replays", pid)
    os.makedirs(rdir, exist_ok=True)
    env = env_for(scratch, pid)
    merged = dict(evaluations=0, distinct_nontrivial=0, nontrivial=0, rule="", targets={}, classes={}, samples=[],
                  unreproduced=0)
    violations = []
    try:
        for spec in check["runs"]:
            evf = os.path.join(scratch, "ev.json")
            if os.path.exists(evf):
                os.unlink(evf)
            exe = prepare(spec, env)
            if replay:
                p = subprocess.run(exe + ["--replay", replay, "--prop", pid, "--scratch", scratch], env=env, check=False)
                if p.returncode == 3:
                    continue
                if p.returncode == 1:
                    print("VIOLATION property=%s replay=%s" % (pid, replay))
                return p.returncode
            secs = spec["quick"] if tier == "quick" else spec["thorough"]
            scale = float(os.environ.get("VERIF_TIME_SCALE", "1"))
            cmd = exe + ["--seed", str(seed), "--time", str(secs * scale), "--prop", pid, "--evidence", evf,
                         "--replay-dir", rdir, "--scratch", scratch] + list(spec.get("args", ()))
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, check=False)
            out = p.stdout.decode("utf-8", "replace")
            sys.stdout.write(out)
            sys.stdout.flush()
            if os.path.exists(evf):
                with open(evf) as f:
                    ev = json.load(f)
                for k in ("evaluations", "distinct_nontrivial", "nontrivial", "unreproduced"):
                    merged[k] += ev.get(k, 0)
                merged["rule"] += ("" if not merged["rule"] else " | ") + ev.get("rule", "")
                for tname, tv in ev.get("targets", {}).items():
                    k = tname if tname not in merged["targets"] else spec["name"] + ":" + tname
                    merged["targets"][k] = tv
                for cname, cv in ev.get("classes", {}).items():
                    merged["classes"][cname] = merged["classes"].get(cname, 0) + cv
                merged["samples"] += ev.get("samples", [])[:8]
                if ev.get("unreproduced_msgs"):
                    merged.setdefault("unreproduced_msgs", "")
                    merged["unreproduced_msgs"] += ev["unreproduced_msgs"]
            elif p.returncode == 0:
                raise RuntimeError("no evidence from %s" % cmd)
            if p.returncode == 1:
                path = ""
                for line in out.splitlines():
                    if line.startswith("REPLAY "):
                        path = line[7:].strip()
                violations.append(path)
                break
            if p.returncode != 0:
                raise RuntimeError("%s: exit %d" % (" ".join(cmd), p.returncode))
        for k in known_findings(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        ev = dict(property=pid, tier=tier, seed=seed, level=check["level"], coverage=merged,
                  assumptions=check.get("assumptions", []), wall_s=round(time.time() - t0, 2),
                  violations=len(violations))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if violations:
            print("VIOLATION property=%s replay=%s" % (pid, violations[0]), flush=True)
            return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
