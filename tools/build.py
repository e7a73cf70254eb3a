#!/usr/bin/env python3
"""Builds libmx from /repo's working tree plus the harnesses of /verif, without cmake.

Content-hash incremental (never trusts time stamps), unity chunks for speed; a chunk that does not
compile as one unit is compiled file by file, so that a refactoring which is fine in the project's
own build can not break ours.  Everything is written below /verif/build (git-ignored).

usage: build.py VARIANT [HARNESS...]      VARIANT: plain | san | tsan | fuzz
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MX_REPO", "/repo")
OUT = os.environ.get("MX_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(REPO, "Sourcecode")
CXX = "clang++"
JOBS = int(os.environ.get("MX_JOBS", "0")) or max(1, min(8, os.cpu_count() or 4))
INC = ["-I" + os.path.join(SRC, "include"), "-I" + os.path.join(SRC, "private"),
       "-I" + os.path.join(SRC, "private/mx/ezxml/src/include"),
       "-I" + os.path.join(SRC, "private/mx/ezxml/src/private")]
BASE = ["-std=c++17", "-w", "-include", "cstdint", "-fno-omit-frame-pointer", "-pthread"]
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined"]
VARIANTS = {
    "plain": ["-O1"],
    "san": ["-O1", "-gline-tables-only"] + SAN,
    "tsan": ["-O1", "-gline-tables-only", "-fsanitize=thread"],
    "fuzz": ["-O1", "-gline-tables-only", "-fsanitize=fuzzer-no-link"] + SAN,
}
LINK = {"plain": [], "san": [], "tsan": [], "fuzz": ["-fsanitize=fuzzer"]}
CHUNK = {"core/elements": 40, "default": 1}

_hash = {}


def fhash(p):
    h = _hash.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash[p] = h
    return h


def deps_of(dfile):
    with open(dfile) as f:
        t = f.read()
    t = t.replace("\\\n", " ")
    t = t.split(":", 1)[1]
    out, cur, i = [], "", 0
    while i < len(t):
        c = t[i]
        if c == "\\" and i + 1 < len(t) and t[i + 1] == " ":
            cur += " "; i += 2; continue
        if c.isspace():
            if cur:
                out.append(cur); cur = ""
        else:
            cur += c
        i += 1
    if cur:
        out.append(cur)
    return [p for p in out if not p.startswith("/usr/")]


def up_to_date(obj, key):
    st = obj + ".st"
    try:
        with open(st) as f:
            s = json.load(f)
    except (OSError, ValueError):
        return False
    if s.get("key") != key or not os.path.exists(obj):
        return False
    return all(fhash(p) == h for p, h in s["deps"].items())


def compile_one(src, obj, flags):
    """-> error text or None"""
    key = hashlib.sha256(" ".join([CXX, src] + flags).encode()).hexdigest()
    if up_to_date(obj, key):
        return None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    d = obj + ".d"
    r = subprocess.run([CXX] + flags + ["-MMD", "-MF", d, "-c", src, "-o", obj],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return r.stdout or ("compiler ended with %d" % r.returncode)
    with open(obj + ".st", "w") as f:
        json.dump({"key": key, "deps": {p: fhash(p) for p in deps_of(d)}}, f)
    return None


def lib_sources():
    groups = []
    for d in ("api", "core", "impl", "utility", "ezxml"):
        top = os.path.join(SRC, "private/mx", d)
        files = []
        for r, _, fs in os.walk(top):
            if "/test" in r[len(top):].lower():
                continue
            files += [os.path.join(r, f) for f in fs if f.endswith(".cpp")]
        files.sort()
        if d == "core":
            el = [f for f in files if "/core/elements/" in f]
            rest = [f for f in files if "/core/elements/" not in f]
            n = CHUNK["core/elements"]
            for i in range(0, len(el), n):
                groups.append(("el%03d" % (i // n), el[i:i + n]))
            for f in rest:
                groups.append((None, [f]))
        else:
            for f in files:
                groups.append((None, [f]))
    return groups


def objname(variant, src):
    rel = os.path.relpath(src, SRC if src.startswith(SRC) else VERIF).replace("/", "_")
    return os.path.join(OUT, variant, "obj", rel + ".o")


def build_group(variant, flags, g):
    name, files = g
    if name is None:
        o = objname(variant, files[0])
        e = compile_one(files[0], o, flags)
        return ([o], e)
    u = os.path.join(OUT, variant, "unity", name + ".cpp")
    text = "".join('#include "%s"\n' % f for f in files)
    os.makedirs(os.path.dirname(u), exist_ok=True)
    if not os.path.exists(u) or open(u).read() != text:
        with open(u, "w") as f:
            f.write(text)
        _hash.pop(u, None)
    o = os.path.join(OUT, variant, "obj", "unity_" + name + ".o")
    e = compile_one(u, o, flags)
    if e is None:
        return ([o], None)
    objs = []
    for f in files:
        of = objname(variant, f)
        e = compile_one(f, of, flags)
        if e:
            return ([], e)
        objs.append(of)
    return (objs, None)


def tables(h):
    """further sources of a harness: HARNESS_tab*.cpp"""
    d, b = os.path.dirname(h), os.path.basename(h)[:-4]
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.startswith(b + "_tab") and f.endswith(".cpp"))


def build(variant, harnesses):
    t0 = time.time()
    os.makedirs(os.path.join(OUT, variant), exist_ok=True)
    lock = open(os.path.join(OUT, variant, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    flags = BASE + VARIANTS[variant] + INC
    groups = lib_sources()
    # long ones first
    groups.sort(key=lambda g: (-len(g[1]), -sum(os.path.getsize(f) for f in g[1])))
    hflags = flags + ["-I" + os.path.join(VERIF, "src"), "-I/usr/include/libxml2"]
    common = sorted(os.path.join(VERIF, "src/common", f)
                    for f in os.listdir(os.path.join(VERIF, "src/common")) if f.endswith(".cpp")) \
        if os.path.isdir(os.path.join(VERIF, "src/common")) else []
    hs = [os.path.join(VERIF, "src", h + ".cpp") for h in harnesses]
    errs, objs = [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fh = [(h, ex.submit(compile_one, h, objname(variant, h), hflags)) for h in hs + common + sum((tables(h) for h in hs), [])]
        futs = [ex.submit(build_group, variant, flags, g) for g in groups]
        for h, f in fh:
            e = f.result()
            if e:
                errs.append("%s:\n%s" % (h, e))
        for f in futs:
            o, e = f.result()
            if e:
                errs.append(e)
            objs += o
    if errs:
        sys.stderr.write("\n".join(e[:4000] for e in errs[:5]) + "\n")
        return 2
    objs.sort()
    for h in hs:
        exe = os.path.join(OUT, variant, os.path.basename(h)[:-4])
        o = [objname(variant, x) for x in [h] + tables(h) + common]
        rsp = exe + ".rsp"
        key = hashlib.sha256(json.dumps([CXX, flags, LINK[variant],
                                         [[p, fhash2(p)] for p in o + objs]]).encode()).hexdigest()
        kf = exe + ".key"
        if os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key:
            continue
        with open(rsp, "w") as f:
            f.write("\n".join(o + objs))
        r = subprocess.run([CXX, "-fuse-ld=lld" if HAVE_LLD else "-pthread"] + BASE[:1] + VARIANTS[variant] +
                           LINK[variant] + ["@" + rsp, "-pthread", "-lxml2", "-o", exe],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[:4000] + "\n")
            return 2
        with open(kf, "w") as f:
            f.write(key)
    sys.stderr.write("build %s: %.1f s\n" % (variant, time.time() - t0))
    return 0


def fhash2(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


HAVE_LLD = any(os.path.exists(os.path.join(d, "ld.lld")) for d in os.environ.get("PATH", "/usr/bin").split(":"))

if __name__ == "__main__":
    sys.exit(build(sys.argv[1], sys.argv[2:]))
