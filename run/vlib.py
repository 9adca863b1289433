"""Building modules of the current /repo and running the verifier and the
native driver on them.  Standard library only."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
ENGINE = VERIF + "/build/vc"
CONFIGS = ["default", "default-altsbox", "uint32", "mmx", "sse2", "sse2-altsbox", "ssse3", "avx2", "avx2-altsbox",
           "neon-aarch64", "neon-aarch64-altsbox", "uint64-ppc64be", "uint64-ppc64be-altsbox", "uint32-ppc64be", "default-i386", "sse2-i386",
           "uint32-altsbox", "mmx-altsbox", "ssse3-altsbox", "uint32-ppc64be-altsbox", "default-malloc", "sse2-posix"]
LANES = {"default": 64, "default-i386": 64, "default-altsbox": 64, "uint32": 32, "mmx": 64, "uint64-ppc64be": 64, "uint64-ppc64be-altsbox": 64,
         "uint32-ppc64be": 32, "avx2": 256, "avx2-altsbox": 256, "default-malloc": 64, "mmx-altsbox": 64, "uint32-altsbox": 32, "uint32-ppc64be-altsbox": 32}
SAFETY = {"bounds", "alignment", "shift-amount", "signed-overflow", "division", "frame", "lifetime", "null-pointer",
          "uninitialised-pointer", "free", "allocation-argument", "precondition"}
FUNCTIONAL = {"postcondition", "contract", "noninterference", "symmetry"}

def lanes(cfg): return LANES.get(cfg, 128)
def simd(cfg):
    if cfg.startswith("mmx"): return ["-mmmx"]
    if cfg.startswith("sse2"): return ["-msse", "-msse2"]
    if cfg.startswith("ssse3"): return ["-mssse3"]
    if cfg.startswith("avx2"): return ["-mavx2"]
    return []
def target(cfg):
    if cfg.startswith("neon"): return ["-target", "aarch64-linux-gnu", "--sysroot=/usr/aarch64-linux-gnu", "-I/usr/aarch64-linux-gnu/include"]
    if "ppc64be" in cfg: return ["-target", "powerpc64-linux-gnu", "-I/usr/powerpc64-linux-gnu/include"]
    if cfg.endswith("i386"): return ["-target", "i386-linux-gnu", "-I/usr/include/x86_64-linux-gnu", "-I" + VERIF + "/configs/include-i386"] + simd(cfg)
    return simd(cfg)
def native_cc(cfg):
    if cfg.startswith("neon"): return "aarch64-linux-gnu-gcc", ["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"]
    if "ppc64be" in cfg: return "powerpc64-linux-gnu-gcc", ["qemu-ppc64", "-L", "/usr/powerpc64-linux-gnu"]
    if cfg.endswith("i386"): return None, ["none"]     # no 32-bit C library
    emu = []
    if cfg.startswith("avx2") and " avx2" not in open("/proc/cpuinfo").read(): emu = ["qemu-x86_64", "-cpu", "max"]
    return "gcc", emu
def sources(cfg):
    """the library's source files for a configuration, from its Makefile.am"""
    d = REPO + "/src"
    r = [f for f in sorted(os.listdir(d)) if f.endswith(".c")]
    drop = "dvbcsa_bs_transpose_stream.c" if "uint32" in cfg else "dvbcsa_bs_transpose_stream32.c"
    return [d + "/" + f for f in r if f != drop]

EMPTY = {"obligations": {}, "failures": [], "functions": [], "library": [], "contracts_used": [], "notes": [], "sat_time": 0, "sat_calls": 0}

class Context:
    def __init__(self, tier, seed, limit):
        self.t0 = time.time()
        self.deadline = self.t0 + limit
        self.tier, self.seed = tier, seed
        os.makedirs(VERIF + "/work", exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run", dir=VERIF + "/work")
        self.pool = ThreadPoolExecutor(8)
        self.side = ThreadPoolExecutor(6)      # native runs
        self.lock = threading.Lock()
        self.memo = {}
        self.errors = []
        self.stopped = False          # no further verifier runs
        self.procs = set()            # verifier runs under way
    def close(self):
        self.stop(); self.pool.shutdown(wait=False, cancel_futures=True); self.side.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(self.dir, ignore_errors=True)
    def left(self): return self.deadline - time.time()
    def stop(self):
        """end the verifier runs under way and start no others"""
        with self.lock:
            self.stopped = True
            for p in self.procs:
                try: os.killpg(p.pid, 9)
                except OSError: pass
    def resume(self): self.stopped = False
    def sh(self, cmd, timeout=None, env=None, stoppable=False):
        timeout = min(timeout or 1e9, max(self.left(), 5))
        e = dict(os.environ); e["VC_TMP"] = self.dir; e["ASAN_OPTIONS"] = "detect_leaks=0"; e.pop("MAKEFLAGS", None)
        if env: e.update(env)
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=self.dir, start_new_session=True)
        if stoppable:
            with self.lock: self.procs.add(p)
            if self.stopped: self.stop()
        try:
            o, x = p.communicate(timeout=timeout)
            return p.returncode, o.decode("latin1"), x.decode("latin1")
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, 9)
            except OSError: pass
            p.communicate()
            return -99, "", "timeout after %d s" % timeout
        finally:
            if stoppable:
                with self.lock: self.procs.discard(p)
    def once(self, key, fn):
        """memoized, one computation per key (callable from any thread)"""
        with self.lock:
            ev = self.memo.get(key)
            if ev is None:
                ev = self.memo[key] = [threading.Event(), None]
                mine = True
            else: mine = False
        if mine:
            try: ev[1] = fn()
            except Exception as x: ev[1] = None; self.errors.append("%s: %r" % (key, x))
            ev[0].set()
        else: ev[0].wait()
        return ev[1]
    # ---- modules for the verifier
    CC = ["-O0", "-Xclang", "-disable-O0-optnone", "-Xclang", "-disable-llvm-passes", "-w", "-emit-llvm", "-c"]
    def lib(self, cfg):
        def go():
            outs = []
            for s in sources(cfg):
                o = "%s/%s-%s.bc" % (self.dir, cfg, os.path.basename(s))
                rc, _, err = self.sh(["clang"] + target(cfg) + ["-gline-tables-only"] + self.CC + ["-I%s/configs/%s" % (VERIF, cfg), "-I" + REPO + "/src", s, "-o", o], 120)
                if rc: self.errors.append("clang %s %s: %s" % (cfg, s, err[:300])); return None
                outs.append(o)
            o = "%s/%s-lib.bc" % (self.dir, cfg)
            rc, _, err = self.sh(["llvm-link-18"] + outs + ["-o", o], 120)
            if rc: self.errors.append("llvm-link %s: %s" % (cfg, err[:300])); return None
            return o
        return self.once(("lib", cfg), go)
    def module(self, cfg, harness):
        def go():
            lib = self.lib(cfg)
            if not lib: return None
            outs = []
            for s in [VERIF + "/contracts/%s.c" % harness, VERIF + "/spec/csa_spec.c"]:
                o = "%s/%s-%s-h-%s.bc" % (self.dir, cfg, harness, os.path.basename(s))
                rc, _, err = self.sh(["clang"] + target(cfg) + self.CC + ["-I" + VERIF + "/contracts", "-I%s/configs/%s" % (VERIF, cfg), "-I" + REPO + "/src", s, "-o", o], 120)
                if rc: self.errors.append("clang %s %s: %s" % (cfg, s, err[:300])); return None
                outs.append(o)
            o = "%s/%s-%s.bc" % (self.dir, cfg, harness)
            rc, _, err = self.sh(["llvm-link-18", lib] + outs + ["-o", o + ".l"], 120)
            if not rc: rc, _, err = self.sh(["opt-18", "-passes=function(mem2reg,lowerswitch,mergereturn,loop-simplify,lcssa)", o + ".l", "-o", o], 120)
            if rc: self.errors.append("link %s %s: %s" % (cfg, harness, err[:300])); return None
            return o
        return self.once(("mod", cfg, harness), go)
    def verify(self, job):
        """job: (cfg, harness file, function, ((param, value), ...), time limit)"""
        cfg, har, fn, params, limit = job[:5]
        def go():
            t = time.time()
            if self.stopped: return dict(EMPTY, status="unsupported: not run (stopped)", job=(cfg, har, fn, params), total=0)
            m = self.module(cfg, har)
            r = None
            if m is None: r = {"status": "unsupported: the module does not build"}
            elif self.left() < 3: r = {"status": "unsupported: out of time"}
            else:
                rc, out, err = self.sh([ENGINE, m, fn] + ["%s=%d" % p for p in params], limit, stoppable=True)
                try: r = json.loads(out.strip().split("\n")[-1])
                except ValueError: r = {"status": "unsupported: " + (err.strip()[:200] or "verifier ended with %d" % rc)}
            for k, v in EMPTY.items(): r.setdefault(k, v)
            r["total"] = time.time() - t
            r["job"] = (cfg, har, fn, params)
            return r
        return self.once(("job",) + job, go)
    def verify_all(self, jobs):
        self.resume()
        fs = [self.pool.submit(self.verify, j) for j in jobs]
        return [f.result() for f in fs]
    def prebuild(self, pairs):
        cfgs = sorted({c for c, _ in pairs})
        fs = [self.pool.submit(self.lib, c) for c in cfgs]
        for f in fs: f.result()
        fs = [self.pool.submit(self.module, c, h) for c, h in sorted(set(pairs))]
        for f in fs: f.result()
    # ---- the native driver
    def native(self, cfg, san=False):
        def go():
            cc, emu = native_cc(cfg)
            if not cc: return None
            d = "%s/n-%s%s" % (self.dir, cfg, "-san" if san else "")
            os.makedirs(d)
            inc = ["-I%s/configs/%s" % (VERIF, cfg), "-I" + REPO + "/src"]
            fl = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if san else ["-O3", "-funroll-loops", "-fomit-frame-pointer", "-fno-tree-vectorize"]
            objs, procs = [], []
            for s in sources(cfg):
                o = d + "/" + os.path.basename(s) + ".o"
                rc, _, err = self.sh([cc] + fl + simd(cfg) + ["-D_XOPEN_SOURCE=600", "-DHAVE_CONFIG_H", "-w", "-fno-zero-initialized-in-bss", "-fno-common"] + inc + ["-c", s, "-o", o], 120)
                if rc: self.errors.append("%s %s %s: %s" % (cc, cfg, s, err[:300])); return None
                if not san:
                    rc, _, err = self.sh([cc.replace("gcc", "objcopy"), "--rename-section", ".data=libdata", "--rename-section", ".bss=libbss", o], 60)
                objs.append(o)
            exe = d + "/drv"
            w = ",".join("--wrap=" + f for f in "malloc free calloc realloc posix_memalign aligned_alloc memalign".split())
            rc, _, err = self.sh([cc, "-O2", "-w"] + (fl[2:] if san else []) + ["-I" + REPO + "/src", VERIF + "/native/drv.c", VERIF + "/spec/csa_spec.c", VERIF + "/spec/csa_ref.c"] + objs + ["-Wl," + w, "-o", exe], 120)
            if rc: self.errors.append("drv %s: %s" % (cfg, err[:300])); return None
            return emu + [exe]
        return self.once(("native", cfg, san), go)
    def drive(self, cfg, props, seed, count, secs, overrides=(), san=False):
        """-> (cases run, [(prop, text)], argv)"""
        exe = self.native(cfg, san)
        argv = ["camp", props, str(seed), str(count), str(secs)] + list(overrides)
        if exe is None: return 0, [], argv
        rc, out, err = self.sh(exe + argv, secs + 60)
        f = re.findall(r"^FAIL (\S+) (.*)$", out, re.M)
        if (rc not in (0, 1, 3, -99) or san and re.search(r"runtime error|AddressSanitizer", err)) and not f:
            m = re.search(r"(ERROR: AddressSanitizer.*|runtime error.*)", err)
            f = [("C10", "exit %d %s" % (rc, m.group(1) if m else err[:200].replace("\n", " ")))]
        m = re.search(r"^RAN (\d+)", out, re.M)
        return int(m.group(1)) if m else 0, f, argv
    def digest(self, cfg, seed, count, overrides=()):
        exe = self.native(cfg)
        if exe is None: return None
        rc, out, err = self.sh(exe + ["digest", str(seed), str(count)] + list(overrides), 120)
        return out.strip().split("\n") if rc == 0 else None

def build_engine():
    r = subprocess.run(["make", "-s", "-C", VERIF + "/vc"], capture_output=True, text=True)
    return r.returncode == 0, r.stderr
