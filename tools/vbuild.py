"""Builds the simulation binaries from /repo's working tree plus /verif/sim and /verif/harness.

variant "plain": library compiled as is.
variant "tsan":  library compiled with -fsanitize=thread against our own run-time (sim/hooks_tsan.cpp),
                 so that every memory access of the library is a simulator event.
Objects are cached by content under /verif/build; a fresh copy builds everything.
"""
import concurrent.futures, fcntl, glob, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
INC = ["-I" + REPO + "/include", "-I" + REPO + "/mdflib/src", "-I" + REPO + "/mdf2csv/src", "-I" + VERIF + "/sim", "-I" + VERIF + "/harness"]
BASE = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-w"]


class BuildError(Exception):
    pass


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _headers(dirs):
    out = []
    for d in dirs:
        for r, _, fs in os.walk(d):
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".inc", ".ipp")):
                    out.append(os.path.join(r, f))
    return sorted(out)


def build(variant):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(variant)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


def _build(variant):
    repo_h = _h(*[_read(p) for p in _headers([REPO + "/include", REPO + "/mdflib/src", REPO + "/mdf2csv/src"])])
    ver_h = _h(*[_read(p) for p in _headers([VERIF + "/sim", VERIF + "/harness"])])
    jobs, objs = [], []
    lib = sorted(glob.glob(REPO + "/mdflib/src/**/*.cpp", recursive=True))
    tool = [p for p in sorted(glob.glob(REPO + "/mdf2csv/src/*.cpp")) if os.path.basename(p) not in ("main.cpp", "logtoconsole.cpp")]
    libflags = BASE + ["-O1"] + (["-fsanitize=thread"] if variant == "tsan" else [])
    own = sorted(glob.glob(VERIF + "/harness/*.cpp")) + [VERIF + "/sim/sim.cpp"]
    own.append(VERIF + ("/sim/hooks_tsan.cpp" if variant == "tsan" else "/sim/hooks_off.cpp"))
    for src, flags, hh in [(s, libflags, repo_h) for s in lib] + [(s, libflags + ["-std=c++20"], repo_h) for s in tool] + [(s, BASE + ["-O1"], repo_h + ver_h) for s in own]:
        o = os.path.join(BUILD, "obj", os.path.basename(src)[:-4] + "_" + _h(_read(src), hh, " ".join(flags), src) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((src, flags, o))
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)

    def comp(j):
        src, flags, o = j
        tmp = o + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++"] + flags + INC + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[:6000]))
        os.replace(tmp, o)

    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(comp, jobs))
    exe = os.path.join(BUILD, "vsim_%s_%s" % (variant, _h(*objs)))
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(BUILD, "vsim_%s_*" % variant)):
            if len(glob.glob(os.path.join(BUILD, "vsim_%s_*" % variant))) > 6:
                os.unlink(old)
        tmp = exe + ".tmp"
        r = subprocess.run(["g++", "-rdynamic", "-o", tmp] + objs + ["-lz", "-lexpat", "-lboost_program_options", "-ldl", "-lpthread"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("link failed:\n" + r.stdout.decode(errors="replace")[:6000])
        os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        try:
            print(build(v))
        except BuildError as e:
            print(e)
            sys.exit(2)
