"""Content-addressed, parallel C++ builder for the harnesses.

Every object is keyed on the compile command and on the *contents* of the source and of every
header of /repo, /verif and /opt/vp it includes, so a change in /repo's working tree is always
seen and an untouched file is never rebuilt.  The cache (/verif/.cache, ignored by git) is only
an accelerator: everything works from an empty one.
"""
import hashlib, os, re, subprocess, sys, json, fcntl, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
JOBS = os.cpu_count() or 4

BASE_FLAGS = ["-g1", "-w", "-include", "iostream", "-include", "algorithm",
              "-DBOOST_TIMER_ENABLE_DEPRECATED", "-D_GLIBCXX_ASSERTIONS", "-fno-strict-aliasing"]
BASE_INC = ["", "common", "utf8", "utf8case", "tiniconv", "uchardet/src", "fex/fex", "maxent",
            "formats", "tools", "common/plugins", "common/j"]
MODES = {
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "plain": ["-O1"],
    "fast": ["-O2"],
}

class BuildError(Exception):
    pass

_hash_memo = {}
def file_hash(p):
    h = _hash_memo.get(p)
    if h is None:
        with open(p, "rb") as f:
            h = hashlib.sha1(f.read()).hexdigest()
        _hash_memo[p] = h
    return h

def _tracked(p):
    return p.startswith(REPO + "/") or p.startswith(VERIF + "/") or p.startswith("/opt/vp/")

def _parse_deps(text):
    text = text.replace("\\\n", " ")
    deps = text.split(":", 1)[1].split()
    return [os.path.normpath(d) for d in deps]

def compile_one(src, flags, compiler):
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
    cmd = [compiler] + flags + ["-c", src]
    ck = hashlib.sha1(("\0".join(cmd)).encode()).hexdigest()
    index = os.path.join(CACHE, "obj", ck + ".idx")
    deps = None
    if os.path.exists(index):
        try:
            deps = json.load(open(index))
        except ValueError:
            deps = None
    def key_of(deps):
        h = hashlib.sha1(ck.encode())
        for d in deps:
            if not os.path.exists(d):
                return None
            h.update(d.encode()); h.update(file_hash(d).encode())
        return h.hexdigest()
    if deps is not None:
        k = key_of(deps)
        if k and os.path.exists(os.path.join(CACHE, "obj", k + ".o")):
            return os.path.join(CACHE, "obj", k + ".o"), False
    tmp = os.path.join(CACHE, "obj", "%s.%d.%d" % (ck, os.getpid(), threading.get_ident()))
    r = subprocess.run(cmd + ["-MD", "-MF", tmp + ".d", "-o", tmp + ".o"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd="/")
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout.decode("utf-8", "replace")[-6000:]))
    deps = sorted(set(d for d in _parse_deps(open(tmp + ".d").read()) if _tracked(d)))
    os.unlink(tmp + ".d")
    k = key_of(deps)
    obj = os.path.join(CACHE, "obj", k + ".o")
    os.replace(tmp + ".o", obj)
    with open(tmp + ".idx", "w") as f:
        json.dump(deps, f)
    os.replace(tmp + ".idx", index)
    return obj, True

def build(name, harness_srcs, repo_srcs, mode="asan", std="gnu++14", inc=(), defs=(), libs=(),
          flags=(), src_flags=None, ldflags=()):
    """Returns the path of the linked executable."""
    ensure_generated(repo_srcs)
    src_flags = src_flags or {}
    common = BASE_FLAGS + MODES[mode] + ["-I%s" % os.path.join(REPO, d) if d else "-I" + REPO
                                         for d in list(inc) + BASE_INC]
    common += ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "tools/fallback")]
    if JNI:
        common += ["-I" + JNI, "-I" + os.path.join(JNI, "linux")]
    common += ["-D" + d for d in defs] + list(flags)
    jobs = []
    def add(path, is_repo, rel):
        if path.endswith(".c"):
            cf = [f for f in common if f not in ("-include", "iostream", "algorithm")]
            jobs.append((path, cf + list(src_flags.get(rel, [])), "gcc"))
        else:
            s = std
            extra = list(src_flags.get(rel, []))
            if any(e.startswith("-std=") for e in extra):
                s = None
            jobs.append((path, (["-std=" + s] if s else []) + common + extra, "g++"))
    for s in harness_srcs:
        add(os.path.join(VERIF, "harness", s), False, s)
    for s in repo_srcs:
        if s.startswith("gen:"):
            add(os.path.join(CACHE, "gen", s[4:]), True, s)
        else:
            add(os.path.join(REPO, s), True, s)
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda j: compile_one(*j), jobs))
    objs = [r[0] for r in res]
    link = ["g++"] + (["-fsanitize=address"] if mode == "asan" else []) + list(ldflags) + objs
    link += ["-l" + l for l in libs] + ["-lpthread", "-ldl"]
    def do_link(link):
        return subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    lk = hashlib.sha1("\0".join(link).encode()).hexdigest()
    os.makedirs(os.path.join(CACHE, "bin"), exist_ok=True)
    exe = os.path.join(CACHE, "bin", name + "-" + lk[:16])
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        r = do_link(link + ["-o", tmp])
        if r.returncode != 0 and b"undefined reference" in r.stdout:
            # code moved between files: offer everything else of common/ to the linker
            have = set(repo_srcs)
            more = [f for f in sorted(os.path.join("common", x) for x in os.listdir(os.path.join(REPO, "common")) if x.endswith(".cpp")) if f not in have]
            n0 = len(jobs)
            for m in more: add(os.path.join(REPO, m), True, m)
            def quiet(j):
                try: return compile_one(*j)[0]
                except BuildError: return None
            with ThreadPoolExecutor(JOBS) as ex:
                extra = [o for o in ex.map(quiet, jobs[n0:]) if o]
            ar = tmp + ".a"
            subprocess.run(["ar", "rcs", ar] + extra, check=True)
            k = link.index(objs[-1]) + 1
            r = do_link(link[:k] + [ar] + link[k:] + ["-llog4cpp", "-lboost_filesystem", "-lboost_system", "-lboost_program_options", "-lboost_regex", "-lpcrecpp", "-lpcre", "-o", tmp])
            os.unlink(ar)
        if r.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (name, r.stdout.decode("utf-8", "replace")[-6000:]))
        os.replace(tmp, exe)
    return exe

def _find_jni():
    for d in ("/usr/lib/jvm/java-17-openjdk-amd64/include",):
        if os.path.isdir(d):
            return d
    return None
JNI = _find_jni()

def _gen(out, deps, cmds):
    """Generated sources, made from /repo's grammar files into the cache."""
    h = hashlib.sha1()
    for d in deps:
        h.update(file_hash(d).encode())
    stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    os.makedirs(os.path.dirname(out), exist_ok=True)
    for c in cmds:
        r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           cwd=os.path.dirname(out))
        if r.returncode != 0:
            raise BuildError("%s failed:\n%s" % (c, r.stdout.decode("utf-8", "replace")))
    open(stamp, "w").write(h.hexdigest())

GR = os.path.join(REPO, "tools/parsers/gobio/translator")
TR = os.path.join(REPO, "tools/translators/transferer")
def _out(n): return os.path.join(CACHE, "gen", n)
GENERATORS = {
    "grparser.bis.cpp": lambda: _gen(_out("grparser.bis.cpp"), [GR + "/grparser.y"], ["bison -Wno-all -p grparser -o %s %s/grparser.y" % (_out("grparser.bis.cpp"), GR)]),
    "lex.grlex.cpp": lambda: _gen(_out("lex.grlex.cpp"), [GR + "/lex.grlex.lpp"], ["flex -P grlex -o %s %s/lex.grlex.lpp" % (_out("lex.grlex.cpp"), GR)]),
    "trparser.tab.cpp": lambda: _gen(_out("trparser.tab.cpp"), [TR + "/trparser.y"], ["bison -Wno-all -d -p trparser -o %s %s/trparser.y" % (_out("trparser.tab.cpp"), TR)]),
    "lex.trlex.cpp": lambda: _gen(_out("lex.trlex.cpp"), [TR + "/lex.trlex.lpp"], ["flex -o%s %s/lex.trlex.lpp" % (_out("lex.trlex.cpp"), TR)]),
}
def ensure_generated(srcs):
    for s in srcs:
        if s.startswith("gen:"):
            GENERATORS[s[4:]]()
