#!/usr/bin/env python3
"""Builds the simulation binaries from /repo's current working tree.

Compile commands come from the project's own CMake configuration, so source
files that are added or moved are picked up.  Objects are cached by content
(source + every header + flags), never by time stamp.
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("BSIM_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, "build")
SIM = os.path.join(HERE, "sim")
TOOLS = {"BSMPT": "BSMPT.cpp", "CalcCT": "CalcCT.cpp", "NLOVEV": "NLOVEV.cpp", "VEVEVO": "VEVEVO.cpp",
         "TripleHiggsNLO": "TripleHiggsNLO.cpp", "CalcTemps": "CalcTemps.cpp", "CalcGW": "CalcGW.cpp",
         "MinimaTracer": "MinimaTracer.cpp", "PotPlotter": "PotPlotter.cpp"}
# what the access-instrumented build needs (the rest of the library never runs in parallel)
INSTR_DIRS = ("src/minimizer", "src/models", "src/utility", "src/ThermalFunctions")


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def file_hash(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode())
                    h.update(file_hash(p).encode())
    return h.hexdigest()


def configure():
    cm = os.path.join(BUILD, "cm")
    shutil.rmtree(cm, ignore_errors=True)
    os.makedirs(cm)
    env = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C.UTF-8")
    sh(["cmake", "-S", REPO, "-B", cm, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release", "-DBUILD_TESTING=OFF",
        "-DUseLibCMAES=OFF", "-DUseNLopt=ON", "-DBSMPTCompileBaryo=OFF", "-DMakeAdditionalTesting=OFF",
        "-DBSMPTUseVectorization=OFF", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
        "-DCMAKE_EXPORT_PACKAGE_REGISTRY=OFF", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
        "-DGSL_DIR=/opt/vp/cmake/GSL", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"], env=env)
    return json.load(open(os.path.join(cm, "compile_commands.json")))


def unit_flags(cmd):
    """the project's own flags for one source file, without -o/-c and file names"""
    out, skip = [], False
    for a in cmd.split()[1:]:
        if skip:
            skip = False
        elif a == "-o" or a == "-c":
            skip = True
        else:
            out.append(a)
    return out


def build(want, jobs=None, verbose=True):
    """want: set of binary names: tool names, 'mt', 'api'"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    cmds = configure()
    cm_inc = os.path.join(BUILD, "cm", "include")
    hdr = tree_hash([os.path.join(REPO, "include"), cm_inc], (".h", ".hpp", ".in", ".tpp", ".inl"))
    hdr_src = tree_hash([os.path.join(REPO, "src")], (".h", ".hpp", ".inl", ".tpp"))
    simh = tree_hash([SIM], (".hpp",))
    lib, progs = {}, {}
    seen = set()
    for c in cmds:
        f = os.path.normpath(os.path.join(c["directory"], c["file"]))
        rel = os.path.relpath(f, REPO)
        if f in seen:
            continue
        seen.add(f)
        if rel.startswith("src/prog/"):
            progs[os.path.basename(f)] = (f, unit_flags(c["command"]))
        elif rel.startswith("src/"):
            lib[rel] = (f, unit_flags(c["command"]))
    base_flags = None
    jobs_list = []  # (obj, argv)
    cxxv = sh(["g++", "--version"]).splitlines()[0]

    def unit(src, flags, extra_key=""):
        key = hashlib.sha256("|".join([file_hash(src), os.path.basename(src), hdr, hdr_src, cxxv, extra_key] +
                                      [f.replace(BUILD, "@B").replace(REPO, "@R") for f in flags]).encode()).hexdigest()[:32]
        obj = os.path.join(BUILD, "obj", key + ".o")
        if not os.path.exists(obj):
            jobs_list.append((obj, ["g++"] + flags + ["-c", src, "-o", obj + ".tmp%d" % os.getpid()], src))
        return obj

    # -g0, the project's optimisation level kept; assertions make undefined container use a crash
    common = ["-D_GLIBCXX_ASSERTIONS", "-fno-builtin-malloc"]
    instr = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-DBSIM_INSTRUMENTED"]

    def o2(flags):
        return [f for f in flags if f not in ("-O3", "-pedantic", "-Wall", "-Wextra", "-Wshadow")] + ["-O2", "-w"]

    plain_objs = {}
    need_plain = bool(want - {"mt"})
    need_instr = "mt" in want
    if need_plain:
        for rel, (f, fl) in lib.items():
            plain_objs[rel] = unit(f, o2(fl) + common)
    instr_objs = {}
    if need_instr:
        for rel, (f, fl) in lib.items():
            if rel.startswith(INSTR_DIRS):
                instr_objs[rel] = unit(f, o2(fl) + common + instr)
    any_flags = next(iter(lib.values()))[1]
    hflags = ["-I" + os.path.join(REPO, "include"), "-I" + cm_inc, "-isystem", "/usr/include/eigen3", "-I" + SIM,
              "-DNDEBUG", "-O2", "-w", "-std=c++17", "-DNLOPT_DLL"]
    for a in any_flags:
        if a.startswith("-std="):
            hflags[hflags.index("-std=c++17")] = a
    rt = unit(os.path.join(SIM, "sim_rt.cpp"), hflags + ["-fno-builtin"], simh)
    bins = {}
    env_o = None
    if need_plain:
        stub = unit(os.path.join(SIM, "tsan_stub.cpp"), hflags, simh)
    for name in sorted(want):
        if name == "mt":
            objs = [unit(os.path.join(SIM, "h_mt.cpp"), hflags + common + instr, simh),
                    unit(os.path.join(SIM, "tsan_rt.cpp"), hflags, simh), rt] + [instr_objs[k] for k in sorted(instr_objs)]
        elif name == "api":
            objs = [unit(os.path.join(SIM, "h_api.cpp"), hflags + common, simh), stub, rt] + \
                [plain_objs[k] for k in sorted(plain_objs)]
        else:
            src, fl = progs[TOOLS[name]]
            objs = [unit(os.path.join(SIM, "h_tool.cpp"), hflags + common, simh),
                    unit(src, o2(fl) + common + ["-Dmain=tool_main"]), stub, rt] + \
                [plain_objs[k] for k in sorted(plain_objs)]
        bins[name] = objs

    errors = []
    lock = threading.Lock()

    def run(j):
        obj, argv, src = j
        if errors:
            return
        try:
            sh(argv)
            os.replace(argv[-1], obj)
        except BuildError as e:
            with lock:
                errors.append(str(e))

    jobs_list = list({j[0]: j for j in jobs_list}.values())
    # large units first
    jobs_list.sort(key=lambda j: -os.path.getsize(j[2]))
    if jobs_list and verbose:
        print("build: compiling %d units" % len(jobs_list), flush=True)
    with ThreadPoolExecutor(jobs or os.cpu_count()) as ex:
        list(ex.map(run, jobs_list))
    if errors:
        raise BuildError(errors[0])
    links = []
    out = {}
    for name, objs in bins.items():
        key = hashlib.sha256("|".join(objs).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, "bin", "%s-%s" % (name, key))
        out[name] = exe
        if not os.path.exists(exe):
            wrap = ["-Wl,--wrap=" + s for s in wraps(objs)] if name not in ("mt", "api") else []
            links.append((exe, ["g++", "-o", exe + ".tmp", "-no-pie", "-rdynamic"] + objs + wrap +
                          ["-lgsl", "-lgslcblas", "-lnlopt", "-ldl", "-lpthread", "-lm"]))

    def link(j):
        try:
            sh(j[1])
            os.replace(j[0] + ".tmp", j[0])
        except BuildError as e:
            with lock:
                errors.append(str(e))

    with ThreadPoolExecutor(jobs or os.cpu_count()) as ex:
        list(ex.map(link, links))
    if errors:
        raise BuildError(errors[0])
    prune()
    return out


WRAPS = ["_ZN5BSMPT7ModelID7FChooseENS0_8ModelIDsERKNS_12ISMConstantsE",
         "_ZN5BSMPT22Class_Potential_Origin9initModelENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "exit"]


def wraps(objs):
    return WRAPS


def prune():
    """keep the cache bounded"""
    d = os.path.join(BUILD, "obj")
    fs = sorted((os.path.getatime(os.path.join(d, f)), f) for f in os.listdir(d))
    for _, f in fs[:-600]:
        os.unlink(os.path.join(d, f))
    d = os.path.join(BUILD, "bin")
    fs = sorted((os.path.getmtime(os.path.join(d, f)), f) for f in os.listdir(d))
    for _, f in fs[:-60]:
        os.unlink(os.path.join(d, f))


if __name__ == "__main__":
    names = set(sys.argv[1:]) or (set(TOOLS) | {"mt", "api"})
    try:
        for k, v in build(names).items():
            print(k, v)
    except BuildError as e:
        print(e)
        sys.exit(2)
