#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [extra args]   build /repo's working tree and run the property's check
   check.py --setup                                    build everything once, to see that it builds
   check.py --replay FILE                              re-run a replay file (exit 1 while it still fails)"""
import sys, os, subprocess, hashlib, shutil, tempfile, glob, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
H = os.path.join(VERIF, "harness")

BASES = """osc_match osc_bundle_s osc_bundle_u osc_bundle_iterator_s osc_bundle_iterator_u osc_error osc_mem
osc_message_s osc_message_u osc_message_iterator_s osc_message_iterator_u osc_atom_s osc_atom_u osc_array
osc_atom_array_s osc_atom_array_u osc_expr osc_vtable osc_dispatch osc_hashtab osc_linkedlist osc_util osc_rset
osc_query osc_strfmt osc_expr_rec osc_typetag contrib/strptime osc_timetag osc_serial""".split()
PARSERS = ["osc_parser", "osc_expr_parser", "osc_legacy_parser"]
SCANNERS = ["osc_scanner", "osc_expr_scanner", "osc_legacy_scanner"]
SAN = ["-fsanitize=address,bounds,null,return,unreachable,integer-divide-by-zero",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CFLAGS = ["-std=c99", "-O1", "-g1", "-fwrapv", "-fno-strict-aliasing", "-w", "-DLINUX_VERSION", "-D_XOPEN_SOURCE=500"] + SAN + [
    "-fsanitize-coverage=inline-8bit-counters"]
CXXFLAGS = ["-std=c++17", "-O1", "-g1", "-fwrapv", "-fno-strict-aliasing", "-Wno-everything", "-DLINUX_VERSION"] + SAN
ENV = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", LC_ALL="C.UTF-8")


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stdout.write("build failed: %s\n%s\n" % (" ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))
        sys.stdout.flush()
        os._exit(2)


def repo_sources():
    out = []
    for pat in ("*.c", "*.h", "*.r", "*.y", "*.l", "contrib/*.c", "contrib/*.h"):
        for f in glob.glob(os.path.join(REPO, pat)):
            b = os.path.relpath(f, REPO)
            if re.match(r"osc_\w*(parser|scanner)\.[ch]$", b):
                continue  # generated
            out.append(b)
    return sorted(out)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:16]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def build_lib(pool):
    files = repo_sources()
    key = sha(" ".join(CFLAGS), *[x for f in files for x in (f, rd(os.path.join(REPO, f)))])
    dest = os.path.join(BUILD, "lib-" + key)
    if os.path.exists(os.path.join(dest, "libo.a")):
        return dest
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    os.makedirs(os.path.join(tmp, "contrib"))
    for f in files:
        shutil.copy(os.path.join(REPO, f), os.path.join(tmp, f))
    list(pool.map(lambda p: run(["bison", "-p", p + "_", "-d", "-o", p + ".c", p + ".y"], tmp), PARSERS))
    list(pool.map(lambda s: run(["flex", "-o", s + ".c", "--prefix=" + s + "_", "--header-file=" + s + ".h", s + ".l"], tmp),
                  SCANNERS))
    srcs = ["osc_expr"] + [b for b in BASES if b != "osc_expr"] + PARSERS + SCANNERS
    # osc_expr.c is by far the slowest: it goes first
    list(pool.map(lambda b: run(["clang"] + CFLAGS + (["-fsanitize=vla-bound"] if b == "osc_dispatch" else []) + ["-I.", "-c", b + ".c", "-o", b.replace("/", "_") + ".o"], tmp), srcs))
    run(["ar", "rcs", "libo.a"] + [b.replace("/", "_") + ".o" for b in srcs], tmp)
    try:
        os.rename(tmp, dest)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return dest


def obj(src, extra_inc=None):
    """compile one harness file, cached by the content of the harness headers, the library headers and itself"""
    hdrs = sorted(glob.glob(os.path.join(H, "*.hpp")))
    rh = [os.path.join(REPO, f) for f in repo_sources() if f.endswith(".h")]
    key = sha(" ".join(CXXFLAGS), rd(src), *[rd(h) for h in hdrs + rh])
    o = os.path.join(BUILD, "obj-%s-%s.o" % (os.path.basename(src)[:-4], key))
    if not os.path.exists(o):
        os.makedirs(BUILD, exist_ok=True)
        t = o + ".%d.tmp" % os.getpid()
        run(["clang++"] + CXXFLAGS + ["-I", H, "-I", REPO, "-c", src, "-o", t])
        os.rename(t, o)
    return o


def build(prop, pool):
    mod = os.path.join(H, "prop_%s.cpp" % prop.lower())
    if not os.path.exists(mod):
        sys.exit("no such property: " + prop)
    libf = pool.submit(build_lib, ThreadPoolExecutor(8))
    srcs = [os.path.join(H, "pt.cpp"), os.path.join(H, "model.cpp"), mod]
    for extra in re.findall(rb"^// uses: (\S+)", rd(mod), re.M):
        srcs.append(os.path.join(H, extra.decode()))
    objs = list(pool.map(obj, srcs))
    lib = libf.result()
    # "redefine: malloc free": the library's references to these go to libo_malloc, libo_free of the harness
    syms = b" ".join(re.findall(rb"^// redefine: (.*)", rd(mod), re.M)).decode().split()
    key = sha(lib, " ".join(syms), *objs)
    exe = os.path.join(BUILD, "%s-%s" % (prop, key))
    if not os.path.exists(exe):
        t = exe + ".%d.tmp" % os.getpid()
        a = os.path.join(lib, "libo.a")
        if syms:
            a = t + ".a"
            run(["objcopy"] + ["--redefine-sym=%s=libo_%s" % (s, s) for s in syms] + [os.path.join(lib, "libo.a"), a])
        run(["clang++"] + SAN + ["-rdynamic", "-o", t] + objs + [a, "-lm"])
        if syms:
            os.remove(a)
        os.rename(t, exe)
    return exe


def main():
    pool = ThreadPoolExecutor(8)
    a = sys.argv[1:]
    if not a:
        sys.exit(__doc__)
    if a[0] == "--setup":
        for m in sorted(glob.glob(os.path.join(H, "prop_*.cpp"))):
            p = os.path.basename(m)[5:-4].upper()
            print(p, build(p, pool), flush=True)
        return 0
    if a[0] == "--replay":
        prop = re.match(r"property (\S+)", open(a[1]).read()).group(1)
        exe = build(prop, pool)
        return subprocess.run([exe, "--replay", a[1]]).returncode
    prop = a[0]
    tier = "quick"
    rest = a[1:]
    if rest and rest[0] in ("quick", "thorough"):
        tier = rest.pop(0)
    exe = build(prop, pool)
    env = dict(os.environ, VERIF_TIER=tier)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    return subprocess.run([exe, "--evidence", os.path.join(VERIF, "evidence", prop + ".json"),
                           "--replays", os.path.join(VERIF, "replays"),
                           "--findings", os.path.join(VERIF, "known_findings.txt")] + rest, env=env).returncode


if __name__ == "__main__":
    sys.exit(main())
