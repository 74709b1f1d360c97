"""Shared machinery: build /repo, run harnesses, run TLC, validate traces, write evidence.

Every check is   python3 /verif/check.py <property> [--tier quick|thorough]
See DESIGN.md for the overall scheme.
"""
import fcntl, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 2)

FLAVORS = {
    "asan": "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -DNDEBUG -Wno-error",
    "plain": "-O1 -g1 -DNDEBUG -Wno-error",
    "tsan": "-O1 -g1 -fsanitize=thread -DNDEBUG -Wno-error",
}
LIBS = ["vital", "vital_config", "vital_logger", "vital_apm", "vital_c", "kwiversys"]


class MachineryError(Exception):
    """Something of ours (not the code under test) failed."""


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout=None, env=None, cwd=None, inp=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env,
                         stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         start_new_session=True)
    try:
        out, _ = p.communicate(inp, timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return -999, out.decode("utf-8", "replace")


def clean_env(extra=None):
    env = {k: v for k, v in os.environ.items()
           if k not in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPPFLAGS", "LD_LIBRARY_PATH",
                        "KWIVER_CONFIG_PATH", "KWIVER_PLUGIN_PATH", "KWIVER_DEFAULT_LOG_LEVEL",
                        "XDG_CONFIG_HOME", "XDG_CONFIG_DIRS")}
    env["LC_ALL"] = "C.UTF-8"
    env["CC"] = "/usr/bin/gcc"
    env["CXX"] = "/usr/bin/g++"
    if extra:
        env.update(extra)
    return env


# ----------------------------------------------------------------------------- build
def build(flavor="asan", targets=("vital_config",), harness=None, extra_src=(), libs=None,
          extra_flags=(), shared=False, out_name=None):
    """Build `targets` of /repo's current tree in build/<flavor>, then link harness/<harness>.cxx.

    Returns (path of harness binary, env to run it in). A compile failure of /repo is a
    MachineryError: the tree does not build, which is not a property violation."""
    bd = os.path.join(BUILD, flavor)
    os.makedirs(bd, exist_ok=True)
    lock = open(os.path.join(BUILD, "." + flavor + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        flags = FLAVORS[flavor]
        env = clean_env()
        if not os.path.exists(os.path.join(bd, "build.ninja")):
            rc, out = sh(["cmake", "-S", REPO, "-B", bd, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
                          "-DVITAL_ENABLE_TESTS=OFF", "-DBUILD_TESTING=OFF", "-DVITAL_ENABLE_TOOLS=ON",
                          "-DVITAL_ENABLE_C_LIB=ON", "-DVITAL_ENABLE_PYTHON=OFF", "-DVITAL_ENABLE_LOG4CXX=OFF",
                          "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_C_FLAGS=" + flags], env=env)
            if rc != 0:
                shutil.rmtree(bd, ignore_errors=True)
                raise MachineryError("cmake failed:\n" + out[-3000:])
        t0 = time.time()
        jobs = []
        errs = []

        def run_ninja():
            rc, out = sh(["ninja", "-C", bd, "-j%d" % NCPU] + list(targets), env=env)
            if rc != 0:
                errs.append("ninja failed:\n" + out[-6000:])

        exe = None
        if harness is None:
            run_ninja()
        else:
            exe = os.path.join(bd, "h_" + (out_name or harness)) + (".so" if shared else "")
            # The harness needs the generated headers first (cheap), then compiles in parallel with the libs.
            gen = os.path.join(bd, "vital")
            rc, out = sh(["ninja", "-C", bd, "-j%d" % NCPU] + list(targets), env=env)
            if rc != 0:
                raise MachineryError("ninja failed:\n" + out[-6000:])
            srcs = [os.path.join(HARN, harness + ".cxx")] + [s for s in extra_src]
            incs = ["-I", REPO, "-I", bd, "-I", os.path.join(REPO, "vital"), "-I", gen,
                    "-I", os.path.join(bd, "vital", "kwiversys"), "-I", HARN, "-isystem", "/usr/include/eigen3"]
            for d in find_kwsys_inc(bd):
                incs += ["-I", d]
            ll = [l for l in (libs or LIBS) if os.path.exists(os.path.join(bd, "lib", "lib%s.so" % l))]
            cmd = ["g++", "-std=c++11", "-w"] + flags.split() + list(extra_flags) + (["-shared", "-fPIC"] if shared else []) + incs + srcs + \
                  ["-L", os.path.join(bd, "lib"), "-Wl,-rpath," + os.path.join(bd, "lib")] + \
                  ["-l" + l for l in ll] + ["-lpthread", "-ldl", "-o", exe]
            rc, out = sh(cmd, env=env)
            if rc != 0:
                raise MachineryError("harness compile failed:\n" + out[-6000:])
        if errs:
            raise MachineryError(errs[0])
        return exe, bd
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def build_kw(harness, flavor="asan", extra_flags=()):
    """Build the bundled kwsys by itself (all of its components, as in /opt/vp/build.sh) and link harness/<harness>.cxx."""
    bd = os.path.join(BUILD, "kw_" + flavor)
    os.makedirs(bd, exist_ok=True)
    with open(os.path.join(BUILD, ".kw_" + flavor + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        env, flags = clean_env(), FLAVORS[flavor]
        if not os.path.exists(os.path.join(bd, "build.ninja")):
            rc, out = sh(["cmake", "-S", os.path.join(REPO, "vital", "kwiversys"), "-B", bd, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
                          "-DBUILD_TESTING=OFF", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_C_FLAGS=" + flags], env=env)
            if rc != 0:
                shutil.rmtree(bd, ignore_errors=True)
                raise MachineryError("cmake failed:\n" + out[-3000:])
        rc, out = sh(["ninja", "-C", bd, "-j%d" % NCPU, "kwsys"], env=env)
        if rc != 0:
            raise MachineryError("ninja failed:\n" + out[-6000:])
        exe = os.path.join(bd, "h_" + harness)
        lib = [os.path.join(d, f) for d, _, fs in os.walk(bd) for f in fs if f in ("libkwsys.a", "libkwsys.so")]
        rc, out = sh(["g++", "-std=c++14", "-w"] + flags.split() + list(extra_flags) + ["-I", bd, "-I", HARN, os.path.join(HARN, harness + ".cxx")]
                     + lib + ["-lpthread", "-ldl", "-o", exe], env=env)
        if rc != 0:
            raise MachineryError("harness compile failed:\n" + out[-6000:])
        return exe


def find_kwsys_inc(bd):
    out = []
    for r in (bd, os.path.join(bd, "vital"), os.path.join(bd, "vital", "kwiversys")):
        if os.path.isdir(os.path.join(r, "kwiversys")):
            out.append(r)
    return out


# ----------------------------------------------------------------------------- scripts
def esc(s):
    """Escape one argument of a script line."""
    if not isinstance(s, str):
        s = str(s)
    o = []
    for ch in s:
        c = ord(ch)
        if ch == "\\":
            o.append("\\\\")
        elif c < 32 or c >= 127:
            assert c < 256
            o.append("\\x%02x" % c)
        else:
            o.append(ch)
    return "".join(o)


def script_text(ops):
    return "".join("\t".join(esc(a) for a in op) + "\n" for op in ops)


class Run:
    """One check run: scratch space, counters, evidence."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vv_%s_" % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.mc = []
        self.notes = {}
        self.violations = []
        self.known = []
        self.assumptions = []

    def quick(self):
        return self.tier == "quick"

    def tlc_scripts(self, module, cfg=None, limit=None, **kw):
        """Model-check and return the behaviours TLC generated (a random sample when there are more than limit)."""
        f = os.path.join(self.scratch, "scripts_%s_%d" % (module, len(self.mc)))
        self.model_check(module, cfg, script_file=f, **kw)
        got = read_scripts(f)
        self.notes["tlc_generated_behaviours"] = self.notes.get("tlc_generated_behaviours", 0) + len(got)
        if limit and len(got) > limit:
            got = self.rng.sample(got, limit)
        return got

    def n(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def sub(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, extra=(), heap="2g", constants=None):
        """Run TLC on spec/<module>.tla with spec/<cfg>. Returns (status, output)."""
        md = tempfile.mkdtemp(prefix="tlc_", dir=self.scratch)
        e = clean_env(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap,
               "-Djava.io.tmpdir=" + md, "-cp", TLA_CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module + ".tla"]
        rc, out = sh(cmd, timeout=timeout, env=e, cwd=SPEC)
        shutil.rmtree(md, ignore_errors=True)
        return rc, out

    def model_check(self, module, cfg=None, workers=NCPU, timeout=800, heap="6g", script_file=None, extra_env=None, consts=None):
        """Exhaustively check a bounded model. Must pass: it does not depend on the code under test."""
        t = time.time()
        name = cfg or module + ".cfg"
        if consts:  # override constants of the configuration
            with open(os.path.join(SPEC, name)) as f:
                text = f.read()
            for k, v in consts.items():
                text, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % re.escape(k), lambda m: m.group(1) + str(v), text)
                assert n == 1, (k, name)
            cfg = os.path.join(self.scratch, name)
            with open(cfg, "w") as f:
                f.write(text)
        env = dict(extra_env or {})
        if script_file:
            env["SCRIPTS"] = script_file
            workers = 1
        rc, out = self.tlc(module, cfg or module + ".cfg", env=env, workers=workers, timeout=timeout, heap=heap,
                           extra=["-deadlock"])
        m = re.search(r"(?m)^([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", out)
        if rc != 0 or not m or "No error has been found" not in out:
            raise MachineryError("model check of %s failed (rc %d):\n%s" % (module, rc, out[-4000:]))
        gen, dist = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
        self.states += dist
        self.transitions += gen
        self.mc.append({"module": module, "cfg": name, "constants": {k: str(v) for k, v in (consts or {}).items()}, "states_generated": gen, "distinct_states": dist,
                        "exhaustive_within_bounds": m.group(3) == "0", "wall_s": round(time.time() - t, 1)})
        log("  [mc] %s: %d distinct states, %d generated, %.1fs" % (name, dist, gen, time.time() - t))
        return out

    def must_fail(self, module, cfg=None, consts=None, timeout=300):
        """The properties must be able to fail: this variant of the model (a broken design) has to be refuted by TLC."""
        name = cfg or module + ".cfg"
        with open(os.path.join(SPEC, name)) as f:
            text = f.read()
        for k, v in (consts or {}).items():
            text, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % re.escape(k), lambda m: m.group(1) + str(v), text)
            assert n == 1, (k, name)
        cfg = os.path.join(self.scratch, "broken_" + name)
        with open(cfg, "w") as f:
            f.write(text)
        rc, out = self.tlc(module, cfg, workers=1, timeout=timeout, extra=["-deadlock"])
        m = re.search(r"Error: (?:Invariant (\w+) is violated|Action property (\w+) is violated|Temporal properties were violated|Property (\w+))", out)
        if not m:
            raise MachineryError("broken variant %s of %s was not refuted:\n%s" % (consts, module, out[-2000:]))
        self.mc.append({"module": module, "cfg": name, "constants": {k: str(v) for k, v in (consts or {}).items()}, "refuted": [g for g in m.groups() if g] or ["temporal"]})
        log("  [mc] %s %s refuted, as it must be" % (name, consts))

    # ------------------------------------------------------------------ harness
    def exec_harness(self, exe, scripts, idx, env=None, timeout=120, args=(), confine=None):
        """Run a list of scripts in one harness process; returns list of (script_no, event dict).

        Each script is preceded by a 'reset' line. If the process dies or hangs, the operation that was in
        progress gets a terminal event {"op": "died"} and the remaining scripts run in a fresh process."""
        events = []
        todo = list(range(len(scripts)))
        wd = self.sub("h%s" % idx)
        guard = 0
        deaths = 0
        while todo:
            guard += 1
            d = os.path.join(wd, "r%d" % guard)
            os.makedirs(d)
            text = "".join("reset\t%d\n" % i + script_text(scripts[i]) for i in todo)
            with open(os.path.join(d, "script"), "w") as f:
                f.write(text)
            work = os.path.join(d, "w")
            os.makedirs(work)
            e = clean_env({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:detect_stack_use_after_return=0",
                           "TSAN_OPTIONS": "exitcode=98:halt_on_error=1", "HOME": work})
            if env:
                e.update(env)
            rc, out = sh([exe] + list(args) + [os.path.join(d, "script"), os.path.join(d, "out"), work],
                         timeout=timeout, env=e, cwd=work)
            cur = None
            last = None
            got = []
            try:
                with open(os.path.join(d, "out"), encoding="latin-1") as f:
                    for line in f:
                        if not line.endswith("\n"):
                            break
                        ev = json.loads(line)
                        if ev["op"] == "reset":
                            cur = ev["n"]
                        got.append((cur, ev))
            except FileNotFoundError:
                pass
            done = bool(got) and got[-1][1]["op"] == "end"
            if done and rc == 0:
                got.pop()
                events += got
                break
            if done:
                got.pop()
            # died or hung: find what it was doing
            kind = "hang" if rc == -999 else "crash"
            if not got:
                raise MachineryError("harness produced nothing (rc %s): %s" % (rc, out[-3000:]))
            why = "rc=%s" % rc
            m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|terminate called[^\n]*(\n[^\n]*what[^\n]*)?)", out)
            if m:
                why += " " + m.group(1)
            ms = re.search(r"SUMMARY: [^\n]*", out)
            if ms:
                why += " " + ms.group(0)
            deaths += 1
            self.last_death_output = out[m.start():m.start() + 8000] if m else out[-6000:]
            events += got
            events.append((cur, {"op": "died", "how": kind, "why": why[:600]}))
            todo = [i for i in todo if i > cur]
            if deaths > 3 or kind == "hang":
                break  # enough evidence, and another hang would take as long again
        shutil.rmtree(wd, ignore_errors=True)
        return events

    def validate(self, module, events, idx, env=None, timeout=600, cfg=None):
        """Check one event list against the trace specification. Returns None if accepted,
        else (index of first rejected event, TLC text)."""
        tf = os.path.join(self.scratch, "trace_%s.ndjson" % idx)
        with open(tf, "w") as f:
            for _, ev in events:
                f.write(json.dumps(ev) + "\n")
        e = {"TRACE": tf}
        if env:
            e.update(env)
        rc, out = self.tlc(module, cfg or "Trace.cfg", env=e, workers=1, timeout=timeout, heap="3g", extra=["-deadlock"])
        os.unlink(tf)
        m = re.search(r"(?m)^([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if rc == 0 and "No error has been found" in out and "REJECT" not in out:
            if m:
                self.states += int(m.group(2).replace(",", ""))
                self.transitions += int(m.group(1).replace(",", ""))
            return None
        if rc == -999:
            raise MachineryError("trace validation timed out")
        r = re.search(r'<<\s*"REJECT",\s*(\d+)', out)
        if r:
            k = out.find('"REJECT"')
            txt = out[k:k + 3000].split("\nError:")[0]
            return int(r.group(1)), txt
        # evaluation error while checking this trace: the state reached tells how far it got
        ls = [int(x) for x in re.findall(r"^/?\\?\s*l = (\d+)", out, re.M)]
        if ls:
            k = out.find("Error:")
            return max(ls) + 1, "evaluation error: " + out[k:k + 1500]
        raise MachineryError("TLC failed on trace:\n" + out[-4000:])

    # ------------------------------------------------------------------ the whole pipeline
    def conform(self, exe, module, scripts, chunk=None, env=None, args=(), timeout=120, label="", cfg=None,
                reproduce=1, post=None, tlc_timeout=600, describe=None):
        """Run scripts against the code, validate recorded traces with TLC, report violations."""
        if not scripts or self.violations:  # one violation decides; a broken tree may be slow
            return True
        nch = max(1, min(NCPU, (len(scripts) + 19) // 20)) if chunk is None else max(1, (len(scripts) + chunk - 1) // chunk)
        chunks = [scripts[i::nch] for i in range(nch)]
        t = time.time()
        bad = []
        lock = threading.Lock()

        def one(i):
            evs = self.exec_harness(exe, chunks[i], "%s%d" % (label, i), env=env, args=args, timeout=timeout)
            if post:
                evs = post(evs)
            res = self.validate(module, evs, "%s%d" % (label, i), cfg=cfg, timeout=tlc_timeout)
            with lock:
                self.events += len(evs)
                if res is None:
                    self.traces += len(chunks[i])
                else:
                    k, txt = res
                    sc = evs[min(k, len(evs)) - 1][0]
                    bad.append((chunks[i][sc], evs[min(k, len(evs)) - 1][1], txt))
            return res

        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, range(nch)))
        log("  [conform] %s%s: %d scripts, %d events so far, %.1fs" % (module, "/" + label if label else "", len(scripts), self.events, time.time() - t))
        if len(self.samples) < 4:
            self.samples.append({"module": module, "script": ["\t".join(map(str, o)) for o in scripts[len(scripts) // 2][:12]]})
        for script, ev, txt in bad[:2]:
            # reproduce on its own before believing it
            again = None
            for _ in range(reproduce):
                evs = self.exec_harness(exe, [script], label + "rep", env=env, args=args, timeout=timeout)
                if post:
                    evs = post(evs)
                again = self.validate(module, evs, label + "rep", cfg=cfg, timeout=tlc_timeout)
                if again:
                    break
            if again is None:
                # depends on the scripts before it in the same process: replay the whole chunk
                for ch in chunks:
                    if script in ch:
                        evs = self.exec_harness(exe, ch, label + "repc", env=env, args=args, timeout=timeout)
                        if post:
                            evs = post(evs)
                        again = self.validate(module, evs, label + "repc", cfg=cfg, timeout=tlc_timeout)
                        break
            if again is None:
                self.notes.setdefault("unreproduced", []).append(txt[:500])
                log("  rejection did not reproduce, not reported: " + txt[:300])
                continue
            self.violate(module, script, ev, txt, label)
            break
        return not bad

    def violate(self, module, script, ev, txt, label=""):
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        h = hashlib.sha1(json.dumps(script).encode()).hexdigest()[:10]
        path = os.path.join(rd, "%s-%s.json" % (self.prop, h))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "trace_spec": module, "label": label, "script": script, "event": ev,
                       "verdict": txt, "output": getattr(self, "last_death_output", "")}, f, indent=1)
        self.violations.append(path)
        log("  rejected event: %s" % json.dumps(ev)[:600])
        log("  " + txt[:1500])
        log("VIOLATION property=%s replay=%s" % (self.prop, path))

    def evidence(self, level="model_checking", extra=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_checked": self.events,
               "samples": self.samples or ["none"], "model_checks": self.mc}
        cov.update(self.notes)
        if extra:
            cov.update(extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def read_scripts(path):
    """Scripts written by TLC: one JSON array of operations per line (each an array of strings)."""
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('"') and line.endswith('"'):
                    line = json.loads(line)
                if line:
                    out.append([[str(x) for x in op] for op in json.loads(line)])
    return out
