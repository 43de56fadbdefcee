# Compiles /repo's current sources (plus a harness) to LLVM bitcode for the executor and to a native replay binary.
import concurrent.futures as cf, glob, hashlib, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/repos/plywood/src"
HARN = VERIF + "/harness"
WORK = VERIF + "/build"
CACHE = WORK + "/cache"
CLANG = "/usr/bin/clang++"
LLVM = "/usr/lib/llvm-18/bin/"

# module -> (source dir, include dir, dependencies)
MODULES = {
    "platform": ("platform/ply-platform", "platform", []),
    "runtime": ("runtime/ply-runtime", "runtime", ["platform"]),
    "reflect": ("reflect/ply-reflect", "reflect", ["runtime"]),
    "math": ("math/math/ply-math", "math/math", ["platform"]),
    "math-serial": ("math/serial/ply-math-serial", "math/serial", ["math", "reflect"]),
    "pylon": ("pylon/pylon/pylon", "pylon/pylon", ["runtime"]),
    "pylon-reflect": ("pylon/reflect/pylon-reflect", "pylon/reflect", ["pylon", "reflect"]),
    "image": ("image/image/image", "image/image", ["runtime", "math"]),
    "web-common": ("web/common/web-common", "web/common", ["runtime"]),
    "web-markdown": ("web/markdown/web-markdown", "web/markdown", ["reflect", "web-common"]),
    "web-documentation": ("web/documentation/web-documentation", "web/documentation", ["reflect"]),
    "web-serve-docs": ("web/serve-docs/ply-web-serve-docs", "web/serve-docs", ["pylon-reflect", "web-documentation", "web-common"]),
    "cpp": ("cpp/ply-cpp", "cpp", ["reflect"]),
    "crowbar": ("crowbar/ply-crowbar", "crowbar", ["reflect"]),
    "audio": ("audio/primitives/audio-primitives", "audio/primitives", ["reflect"]),
    "cook": ("cook/ply-cook", "cook", ["reflect"]),
    "build-common": ("build/common/ply-build-common", "build/common", ["reflect"]),
    "build-target": ("build/target/ply-build-target", "build/target", ["build-common"]),
    "build-provider": ("build/provider/ply-build-provider", "build/provider", ["build-common", "pylon-reflect"]),
    "build-repo": ("build/repo/ply-build-repo", "build/repo", ["build-target", "build-provider", "cpp"]),
    "build-folder": ("build/folder/ply-build-folder", "build/folder", ["build-repo"]),
}

def closure(mods):
    out = []
    def go(m):
        for d in MODULES[m][2]:
            go(d)
        if m not in out:
            out.append(m)
    for m in mods:
        go(m)
    return out

def sources(mods):
    r = []
    for m in closure(mods):
        d = SRC + "/" + MODULES[m][0]
        for root, dirs, files in os.walk(d):
            if os.path.basename(root) in ("codegen",):
                continue
            for f in sorted(files):
                p = os.path.join(root, f)
                if f.endswith(".cpp") and not f.endswith(".modules.cpp"):
                    r.append(p)
    return r

BASE = ["-include", "utility", "-w", "-std=c++14", "-fno-stack-protector", "-fno-exceptions", "-DPLY_WITH_ASSERTS=1", "-pthread", "-g",
        "-include", "ply-runtime/Core.h", "-include", "ply-runtime/thread/Atomic.h"]
def includes(mods):
    inc = ["-I" + HARN, "-I" + HARN + "/config"]
    for m in closure(mods):
        inc.append("-I" + SRC + "/" + MODULES[m][1])
        fb = HARN + "/codegen/" + m
        if os.path.isdir(fb):
            inc += ["-I" + fb, "-idirafter", fb]
    return inc

BC_FLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm"]
OPT_PASSES = "always-inline,sroa,early-cse,simplifycfg"
NAT_FLAGS = ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-DSX_NATIVE=1"]

_hh = {}
def header_hash():
    if "h" not in _hh:
        h = hashlib.sha256()
        for top in (SRC, HARN):
            for root, dirs, files in os.walk(top):
                dirs.sort()
                for f in sorted(files):
                    p = os.path.join(root, f)
                    if f.endswith(".cpp") and "/impl" not in root and "/impl" not in p:
                        continue
                    if f.endswith((".h", ".inl", ".cpp", ".hpp", ".inc")):
                        h.update(p.encode()); h.update(open(p, "rb").read())
        _hh["h"] = h.hexdigest()
    return _hh["h"]

def compile_one(src, flags, bc):
    h = hashlib.sha256()
    h.update(header_hash().encode()); h.update(repr((src, flags, bc, OPT_PASSES, BC_FLAGS, NAT_FLAGS)).encode()); h.update(open(src, "rb").read())
    out = CACHE + "/" + h.hexdigest()[:32] + (".bc" if bc else ".o")
    if os.path.exists(out):
        return out, ""
    tmp = out + ".%d.tmp" % os.getpid()
    if bc:
        p = subprocess.run([CLANG] + flags + BC_FLAGS + ["-c", src, "-o", tmp + "0"], capture_output=True, text=True)
        if p.returncode == 0:
            p = subprocess.run([LLVM + "opt", "-passes=" + OPT_PASSES, tmp + "0", "-o", tmp], capture_output=True, text=True)
        try: os.unlink(tmp + "0")
        except OSError: pass
    else:
        p = subprocess.run([CLANG] + flags + NAT_FLAGS + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if p.returncode != 0:
        return None, src + "\n" + p.stderr[:3000]
    os.replace(tmp, out)
    return out, ""

class BuildError(Exception):
    pass

_built = {}
def build(harness, mods, defines, bc, extra=(), exclude=(), srcdefs=None):
    """srcdefs: {substring of a source path: [flags]} added for those sources only."""
    # A harness can carry its own build directives: "// SX: srcdef SUBSTR FLAGS...", "// SX: extra PATH", "// SX: exclude SUBSTR"
    srcdefs = dict(srcdefs or {}); extra = list(extra); exclude = list(exclude)
    for line in open(HARN + "/" + harness):
        if line.startswith("// SX: "):
            w = line[7:].split()
            if w[0] == "srcdef": srcdefs[w[1]] = w[2:]
            elif w[0] == "extra": extra.append(w[1])
            elif w[0] == "exclude": exclude.append(w[1])
    key = (harness, tuple(mods), tuple(defines), bc, tuple(extra), tuple(exclude))
    if key in _built:
        return _built[key]
    os.makedirs(CACHE, exist_ok=True)
    flags = BASE + ["-D" + d for d in defines] + includes(mods)
    srcs = [HARN + "/" + harness] + [s for s in sources(mods) if not any(e in s for e in exclude)] + [e.replace("@SRC", SRC).replace("@HARN", HARN) for e in extra]
    srcs.append(HARN + ("/env.cpp" if bc else "/native.cpp"))
    with cf.ThreadPoolExecutor(8) as ex:
        def one(s):
            f = list(flags)
            for k, v in (srcdefs or {}).items():
                if k in s:
                    f += v
            return compile_one(s, f, bc)
        res = list(ex.map(one, srcs))
    errs = [e for o, e in res if o is None]
    if errs:
        raise BuildError("\n".join(errs))
    objs = [o for o, e in res]
    name = hashlib.sha256(repr((key, objs)).encode()).hexdigest()[:24]
    out = CACHE + "/" + name + (".linked.bc" if bc else ".exe")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        if bc:
            p = subprocess.run([LLVM + "llvm-link", "-o", tmp] + objs, capture_output=True, text=True)
        else:
            p = subprocess.run([CLANG, "-fsanitize=address", "-rdynamic", "-pthread", "-o", tmp] + objs + ["-ldl"], capture_output=True, text=True)
        if p.returncode != 0:
            raise BuildError(p.stderr[:4000])
        os.replace(tmp, out)
    _built[key] = out
    return out
