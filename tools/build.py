#!/usr/bin/env python3
"""Content-hash incremental builder for the simulators.

Compiles /repo's current working tree (instrumented: ASan + trace-pc-guard) together
with the harness in /verif/sim into /verif/build/<binary>. An object is reused only if
its command and the contents of every file it was compiled from are unchanged."""
import fcntl, glob, hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("UIMA_REPO", "/repo")
OUT = os.path.join(VERIF, "build") if REPO == "/repo" else os.path.join(VERIF, "build", "alt-" + hashlib.sha1(REPO.encode()).hexdigest()[:8])
CXX = os.environ.get("SIM_CXX", "clang++")
JDK = "/usr/lib/jvm/java-17-openjdk-amd64/include"

def pkg(*a):
    return subprocess.run(["pkg-config", *a], capture_output=True, text=True).stdout.split()

S = REPO + "/src"
BASE = ["-std=gnu++17", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-fno-pie", "-fsanitize=address",
        "-fno-access-control", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS",
        "-DNDEBUG", "-DTRACEOFF", "-DUIMA_PREFIX=/opt/uimasim", "-DUIMA_VERSION=2.5.0", "-D_REENTRANT", "-D_GNU_SOURCE", "-D_LARGEFILE64_SOURCE"]
DEPS_CFLAGS = pkg("--cflags", "apr-1", "xerces-c", "icu-uc")
INC = ["-I" + S + "/framework", "-I" + S + "/cas", "-I" + S + "/jni", "-I" + S + "/utils", "-I" + JDK, "-I" + JDK + "/linux"]
COV = ["-fsanitize-coverage=trace-pc-guard,trace-stores"]
LIBS = pkg("--libs", "apr-1", "xerces-c", "icu-uc", "icu-i18n") + ["-lpthread", "-ldl"]
WRAPS = ["_Znwm", "_Znam", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "time", "apr_time_now", "apr_sleep",
         "apr_thread_mutex_create", "apr_thread_mutex_lock", "apr_thread_mutex_trylock", "apr_thread_mutex_unlock", "apr_thread_mutex_destroy",
         "apr_thread_cond_create", "apr_thread_cond_wait", "apr_thread_cond_timedwait", "apr_thread_cond_signal", "apr_thread_cond_broadcast",
         "apr_thread_create", "apr_thread_join", "apr_thread_exit", "apr_thread_detach", "apr_os_thread_current", "apr_thread_pool_get",
         "apr_dso_load", "apr_dso_unload", "apr_dso_sym", "apr_dso_error", "mkstemp",
         "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_once", "fopen",
         "strcpy", "strncpy", "strcat", "sprintf", "snprintf", "__asan_memcpy", "__asan_memmove", "__asan_memset",
         "_ZN11xercesc_3_29XMLString9transcodeEPKcPDsmPNS_13MemoryManagerE", "_ZN11xercesc_3_29XMLString9transcodeEPKDsPcmPNS_13MemoryManagerE"]

def sut(paths, extra=()):
    return [(p, BASE + COV + ["-D_UIMA_LIBRARY_"] + list(extra) + DEPS_CFLAGS + INC) for p in paths]

def harness(paths, extra=()):
    return [(p, BASE + list(extra) + DEPS_CFLAGS + ["-I" + VERIF + "/sim/core", "-I" + VERIF + "/sim"] + INC) for p in paths]

def g(pat):
    return sorted(glob.glob(pat))

def targets():
    lib = [p for p in g(S + "/framework/*.cpp") + g(S + "/cas/*.cpp")]
    jni = g(S + "/jni/*.cpp")
    core = harness(g(VERIF + "/sim/core/*.cpp"))
    t = {}
    t["uimasim"] = dict(units=sut(lib) + core + harness(g(VERIF + "/sim/cas/*.cpp") + g(VERIF + "/sim/eng/*.cpp")), wraps=WRAPS)
    if os.path.isdir(VERIF + "/sim/runae"):
        t["runaesim"] = dict(units=sut(lib) + sut([S + "/utils/runAECpp.cpp"], ["-Dmain=runae_main"]) + core + harness(g(VERIF + "/sim/runae/*.cpp")) +
                             harness([VERIF + "/sim/cas/" + x for x in ("world.cpp", "ser.cpp", "damage.cpp") if os.path.exists(VERIF + "/sim/cas/" + x)] + [VERIF + "/sim/eng/eng.cpp"]),
                             wraps=WRAPS + ["exit", "apr_dir_open", "apr_dir_read", "apr_dir_close"])
    if os.path.isdir(VERIF + "/sim/svc"):
        stub = ["-I" + VERIF + "/sim/svc/stub"]
        svc = [S + "/utils/ActiveMQAnalysisEngineService.cpp", S + "/utils/deployCppService.cpp"]
        t["svcsim"] = dict(units=sut(lib) + sut(svc, ["-Dmain=deploy_main", "-DU_USING_ICU_NAMESPACE=1"] + stub) + core + harness(g(VERIF + "/sim/svc/*.cpp"), stub) +
                         harness([VERIF + "/sim/cas/" + x for x in ("world.cpp", "ser.cpp", "damage.cpp") if os.path.exists(VERIF + "/sim/cas/" + x)] + [VERIF + "/sim/eng/eng.cpp"]), wraps=WRAPS + ["exit",
            "apr_socket_create", "apr_socket_connect", "apr_socket_send", "apr_socket_recv", "apr_socket_close", "apr_socket_timeout_set", "apr_sockaddr_info_get", "apr_socket_shutdown", "apr_socket_opt_set"])
    return t

_hc = {}
def fhash(p):
    try:
        st = os.stat(p)
    except OSError:
        return "missing"
    k = (p, st.st_mtime_ns, st.st_size)
    if k not in _hc:
        with open(p, "rb") as f:
            _hc[k] = hashlib.sha1(f.read()).hexdigest()
    return _hc[k]

def compile_one(src, flags, log):
    cmd = [CXX] + flags + ["-c", src]
    key = hashlib.sha1("\0".join(cmd).encode()).hexdigest()[:16]
    base = os.path.join(OUT, "obj", os.path.basename(src).rsplit(".", 1)[0] + "." + key)
    obj, meta, dep = base + ".o", base + ".json", base + ".d"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if all(fhash(p) == h for p, h in m["deps"].items()):
                return obj, False, m["sig"]
        except Exception:
            pass
    r = subprocess.run(cmd + ["-o", obj + ".tmp", "-MD", "-MF", dep], capture_output=True, text=True)
    if r.returncode:
        log.append("FAILED " + src + "\n" + r.stderr[:6000])
        return None, True, ""
    deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    d = {p: fhash(p) for p in dict.fromkeys(os.path.normpath(x) for x in deps)}
    sig = hashlib.sha1((key + json.dumps(sorted(d.items()))).encode()).hexdigest()
    os.replace(obj + ".tmp", obj)
    with open(meta + ".tmp", "w") as f:
        json.dump({"deps": d, "sig": sig}, f)
    os.replace(meta + ".tmp", meta)
    os.unlink(dep)
    return obj, True, sig

def build(names):
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    T = targets()
    log = []
    t0 = time.time()
    n = 0
    for name in names:
        t = T[name]
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            res = list(ex.map(lambda u: compile_one(u[0], u[1], log), t["units"]))
        if log:
            print("\n".join(log), file=sys.stderr)
            return False
        n += sum(1 for r in res if r[1])
        exe = os.path.join(OUT, name)
        link = [CXX, "-fsanitize=address", "-no-pie", "-g1", "-o", exe + ".tmp"] + [r[0] for r in res] + ["-Wl,--wrap=" + w for w in t["wraps"]] + LIBS
        lsig = hashlib.sha1(("\0".join(link) + "\0".join(r[2] for r in res)).encode()).hexdigest()
        sf = exe + ".sig"
        if not (os.path.exists(exe) and os.path.exists(sf) and open(sf).read() == lsig):
            r = subprocess.run(link, capture_output=True, text=True)
            if r.returncode:
                print("LINK FAILED\n" + r.stderr[-6000:], file=sys.stderr)
                return False
            os.replace(exe + ".tmp", exe)
            open(sf, "w").write(lsig)
        # drop stale objects
        keep = {os.path.basename(r[0]) for r in res}
    print("build: %s (%d units recompiled, %.1fs)" % (", ".join(names), n, time.time() - t0))
    return True

if __name__ == "__main__":
    names = sys.argv[1:] or list(targets())
    sys.exit(0 if build(names) else 2)
