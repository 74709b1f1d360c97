"""C06-C10, C37: configuration files, against spec/ConfigFile.tla."""
import vlib

LIBS = ["vital_config", "vital_logger", "kwiversys"]
WORDS = ["x", "yy", "key", "a", "ab", "k-1", "n.m", "_u"[1:], "a:b", "x/y", "Zed", "q_9", "long_name_with-all.kinds:of/chars"]
BLOCKS = ["a", "ab", "b1", "blk", "a:b", "foo.bar"]
LOCALS = ["m", "mm", "v1", "a.b", "a:b", "L_2"]
ENVS = ["VV_A", "VV_B", "VV_UNSET"]
TEXT = ["1", "text", "two words", "a = b", "[RO]", ":= x", "=", "'q'", "\"quoted\"", "x:y;z", "$", "$$", "${x}", "$LOCAL", "$LOCAL{", "$LOCAL{a-b}",
        "{}", "}", "include f", "block", "\\", "tab\there", "\xe9", "$9{x}", "$A b{c}", "100%", "~/x", "*", "$NOPE{x}", "$local{m}", "a$b$c"]


def blanks(r):
    return r.choice(["", "", "", " ", "  ", "\t", " \t"])


class FileGen:
    """Random file trees: well-formed by construction unless bad lines are mixed in."""

    def __init__(self, r, macros=0.3, bad=0.0, includes=0.15, ro=0.06, rel=0.08, structure=0.0):
        self.r, self.macros, self.bad, self.includes, self.ro, self.rel, self.structure = r, macros, bad, includes, ro, rel, structure

    def macro(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            return "$LOCAL{%s}" % r.choice(LOCALS + [""])
        if k < 0.5:
            return "$ENV{%s}" % r.choice(ENVS)
        if k < 0.85:
            key = r.choice(sorted(self.keys)) if self.keys and r.random() < 0.8 else r.choice(WORDS)
            return "$CONFIG{%s}" % key
        if k < 0.93:
            return "$SYSENV{%s}" % r.choice(["cwd", "hostname", "osname", "osplatform", "islinux", "isapple", "iswindows", "is64bits", "numproc", "nothing", ""])
        return "$%s{%s}" % (r.choice(["OTHER", "Local", "E9_"]), r.choice(["x", "m", ""]))

    def value(self):
        r = self.r
        parts = []
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            parts.append(self.macro() if r.random() < self.macros else r.choice(TEXT))
        return r.choice(["", " ", "-", ""]).join(parts)

    def comment(self):
        r = self.r
        return r.choice(["", "", "", "", " # c", "#", "   # x = 1", "#block b"])

    def assign(self, ctx):
        r = self.r
        if self.keys and r.random() < 0.35:
            k = r.choice(sorted(self.keys))
            w = k[len(ctx):] if k.startswith(ctx) and len(k) > len(ctx) else r.choice(WORDS)
        else:
            w = r.choice(WORDS)
        if r.random() < 0.2:
            w2 = r.choice(LOCALS)
            return "%s%s%s:=%s%s%s" % (blanks(r), w2, blanks(r), blanks(r), self.value(), self.comment())
        fl = ""
        full = ctx + w
        if r.random() < self.ro and full not in self.keys:
            fl = blanks(r) + r.choice(["[RO]", "[ro]", "[Ro]", "[RO][RO]", "[RO] [ro]"])
            self.rokeys.add(full)
        elif full in self.rokeys and r.random() > 0.1:
            return ""
        self.keys.add(full)
        pre = "relativepath " if r.random() < self.rel else ""
        return "%s%s%s%s%s=%s%s%s" % (blanks(r), pre, w, fl, blanks(r), blanks(r), self.value(), self.comment())

    def badline(self):
        return self.r.choice(["foo", "= 3", ":= 3", "block", "block = x", "block 9x", "block [RO]", "k[XX] = 1", "k [RO,XX] = 1", "k [R O] = 1", "k [] = 1",
                              "1x = 2", "!!", "foo bar = 1", "foo! = 1", "k: = 1", "[RO] = 1", "relativepath", "relativepath = 1", "relativepath k", "key [RO]",
                              "= endblock", ":= include x", "= block b", "_x = 1", ".x = 1", "-x=1", "foo # = 1", "k == ", "key : 3", "endblok", "key [RO", "\xe9=1",
                              "= relativepath x = 1", "block", "foo", "k [RO][X] = 1", "$LOCAL{m} = 1"])

    def lines(self, n, depth, open_ok):
        """Lines of one file; may leave blocks open or close outer ones when open_ok."""
        r = self.r
        out = []
        for _ in range(n):
            k = r.random()
            ctx = "".join(b + ":" for b in self.stack)
            if self.bad and r.random() < self.bad:
                out.append(self.badline())
            elif k < 0.1:
                out.append(r.choice(["", "  ", "# comment", "\t# x = 1 # y", "#"]))
            elif k < 0.22 and len(self.stack) < 4:
                b = r.choice(BLOCKS)
                self.stack.append(b)
                out.append(blanks(r) + "block" + r.choice([" ", "  ", "\t"]) + b + self.comment())
            elif k < 0.34 and self.stack and (open_ok or len(self.stack) > self.base):
                self.stack.pop()
                out.append(blanks(r) + "endblock" + self.comment())
            elif k < 0.34 + self.includes and depth < 3 and len(self.files) < 5:
                out.append(self.include(depth))
            else:
                out.append(self.assign(ctx))
            if self.structure and r.random() < self.structure:
                i = r.randrange(len(out))
                if r.random() < 0.5:
                    out.pop(i)
                else:
                    out.insert(i, out[i])
        return out

    def include(self, depth):
        r = self.r
        name = r.choice(["i%d.cfg", "inc%d", "sub/f%d.conf", "sub/deep/g%d"]) % len(self.files)
        where = r.choice(self.sp + self.dirs[-2:])
        target = where + "/" + name
        self.files[target] = None
        self.dirs.append(target.rsplit("/", 1)[0])
        body = self.lines(r.randint(0, 5), depth + 1, True)
        self.dirs.pop()
        self.files[target] = body
        # decoys: the same name elsewhere, later in the search order
        if r.random() < 0.25:
            for d in r.sample(self.sp + self.dirs, 1):
                self.files.setdefault(d + "/" + name, ["decoy = " + d.replace("@", "")])
        k = r.random()
        if k < 0.1:
            name = target
        elif k < 0.2 and "/" not in name:
            self.pre.append(("env", "VV_F%d" % len(self.pre), name))
            name = "$ENV{%s}" % self.pre[-1][1]
        elif k < 0.24:
            name = "nonexistent_" + name
        elif k < 0.27:
            name = "adir"
        elif k < 0.3:
            name = "./" + name
        return blanks(r) + "include " + blanks(r) + name + self.comment()

    def script(self):
        r = self.r
        self.keys, self.rokeys, self.stack, self.base = set(), set(), [], 0
        rel = r.random() < 0.3
        mdir = r.choice(["@", "@", "@/conf", "@/a/b"])
        main = mdir + "/main.cfg"
        self.files = {main: None}
        self.sp = r.choice([[], [], ["@/s1"], ["@/s1", "@/s2"], ["@/s2", "@/s1", "@/a"], ["s3"]])
        self.sp_abs = [d if d[0] == "@" else "@/" + d for d in self.sp]
        sp = list(self.sp)
        self.sp = self.sp_abs
        self.dirs = [mdir]
        self.pre = [("env", e, r.choice(["", "envval", " sp ", "$LOCAL{m}", "x#y", "$ENV{VV_B}"])) for e in ENVS[:2]]
        self.pre.append(("dir", mdir + "/adir"))
        body = self.lines(r.randint(1, 14), 0, False)
        if r.random() < 0.97 or not self.bad:
            body += ["endblock"] * len(self.stack)
        self.files[main] = body
        nl = r.choice(["\n", "\n", "\n", "\r\n"])
        ops = [("sys", x) for x in ("cwd", "hostname", "osname", "osplatform", "islinux", "isapple", "iswindows", "is64bits", "numproc")]
        ops += self.pre
        ops += [("file", p, nl, r.choice("01")) + tuple(b or ()) for p, b in self.files.items()]
        path = main[2:] if rel else main
        if rel and r.random() < 0.3:
            path = "./" + path
        ops.append(("read", path, ";".join(sp)))
        if r.random() < 0.05:
            ops.append(("read", mdir, ""))
        if r.random() < 0.05:
            ops.append(("read", mdir + "/missing", ""))
        return ops


def harness(flavor="asan"):
    return vlib.build(flavor, ("vital_config",), "h_parse", libs=LIBS)[0]


def c06(run):
    exe = harness()
    run.conform(exe, "TraceConfigFile", run.tlc_scripts("MCConfigFile", "MCConfigFile_plain.cfg", consts={"MaxLines": run.n(3, 5)}, limit=run.n(1500, 12000)), label="tlc")
    g = FileGen(run.rng, macros=0.1, ro=0.08)
    run.conform(exe, "TraceConfigFile", [g.script() for _ in range(run.n(1200, 12000))], label="rnd")


def c07(run):
    exe = harness()
    run.conform(exe, "TraceConfigFile", run.tlc_scripts("MCConfigFile", "MCConfigFile_macro.cfg", consts={"MaxLines": run.n(3, 5)}, limit=run.n(1500, 12000)), label="tlc")
    g = FileGen(run.rng, macros=0.75, ro=0.02, includes=0.08, rel=0.05)
    run.conform(exe, "TraceConfigFile", [g.script() for _ in range(run.n(1200, 12000))], label="rnd")


def c08(run):
    exe = harness()
    run.conform(exe, "TraceConfigFile", run.tlc_scripts("MCConfigFile", "MCConfigFile_broken.cfg", consts={"MaxLines": run.n(3, 4)}, limit=run.n(2200, 20000)), label="tlc")
    r = run.rng
    sc = []
    for i in range(run.n(1200, 12000)):
        g = FileGen(r, macros=0.1, bad=r.choice([0, 0.03, 0.08]), ro=0.15, structure=r.choice([0, 0, 0.05]))
        sc.append(g.script())
    run.conform(exe, "TraceConfigFile", sc, label="rnd")


def write_script(r):
    words = "abcdeXYZ019"
    def part(first=True):
        n = r.choice([1, 1, 2, 3, 8])
        s = r.choice("abzAZ") if first else r.choice(words)
        return s + "".join(r.choice(words + "-._/") for _ in range(n - 1))
    ops = []
    for _ in range(r.randint(1, 3)):
        rows, keys = [], set()
        for _ in range(r.choice([0, 1, 2, 3, 6, 12])):
            k = ":".join(part(i == 0) for i in range(r.choice([1, 1, 2, 3])))
            if k in keys or k in ("include", "block", "endblock", "relativepath"):
                continue
            keys.add(k)
            v = r.choice(["", "1", "some text", "= 5", ":= 1", "[RO]", "  padded  ", "\ttabbed\t x", "$", "$X{", "${x}", "a:b", "include f", "\"q\"", "x" * 300, "\xe9\xff", "%s%n", "\\n", "[RO] = 3", "-" * 79])
            d = r.choice(["", "", "short", "line one\nline two", "\n", "  leading", "a # b", "word " * 40, "x" * 200, "trailing \n\n", "bullet\n  * one\n  * two", "tab\tbed", "k = v",
                          " ", "    ", "endblock\nblock z", "a  b   c" * 12, "y" * 78, "y" * 79, "y" * 80, "\nfoo = bar", "\xe9"])
            rows += [k, v, d]
        tgt = r.choice(["@/out.cfg", "out2.cfg", "@/new/dir/o.cfg", "n2/o.cfg", "@/adir", "@/plain/x.cfg", "@/" + "n" * 300, "./o3.cfg", "@/existing.cfg"])
        ops.append(("write", tgt) + tuple(rows))
    return [("dir", "@/adir"), ("file", "@/plain", "\n", "1", "x = 1"), ("file", "@/existing.cfg", "\n", "1", "old = 1", "block b")] + ops


def c09(run):
    exe = harness()
    run.model_check("MCConfigWrite")
    run.conform(exe, "TraceConfigFile", [write_script(run.rng) for _ in range(run.n(1200, 12000))], label="rnd")


def lookup_script(r):
    app, ver = r.choice(["vvapp", "vv app"]), r.choice(["", "1.2", "7"])
    prefix = r.choice(["", "@/inst", "/usr", "/usr/local", "@/inst2"])
    env = {}
    if r.random() < 0.7:
        env["HOME"] = r.choice(["@/home", "@/home", ""])
    if r.random() < 0.6:
        env["XDG_CONFIG_HOME"] = r.choice(["@/xdg", "@/xdg:@/xdg2", "@/home/.config"])
    if r.random() < 0.7:
        env["KWIVER_CONFIG_PATH"] = r.choice(["@/k1", "@/k1:@/k2", "@/k2:@/k1:@/k3", "k4", "@/k1/:@/k2"])
    cands = []
    for v in ("KWIVER_CONFIG_PATH",):
        cands += [x if x[0] == "@" else "@/cwd/" + x for x in env.get(v, "").split(":") if x]
    user = [x for x in env.get("XDG_CONFIG_HOME", "").split(":") if x] + ([env["HOME"] + "/.config"] if env.get("HOME") else [])
    for u in user:
        cands += [u + "/" + app + "/" + ver if ver else u + "/" + app, u + "/" + app, u + "/" + app + "/9.9"]
    if prefix.startswith("@"):
        cands += [prefix + "/share/" + app + "/" + ver + "/config" if ver else prefix + "/share/" + app + "/config",
                  prefix + "/share/" + app + "/config", prefix + "/share/config", prefix + "/config"]
    cands += ["@/cwd", "@/elsewhere", "@/inst/share/config", "@/inst/config", "@/home/.config/" + app]
    name = r.choice(["c.cfg", "sub/c.cfg", "c.cfg"])
    ops = [("dir", "@/cwd"), ("chdir", "@/cwd")] + [("env", k, v) for k, v in env.items()]
    p = r.choice([0.15, 0.4, 0.8])
    files = {}
    for d in cands:
        if r.random() < p:
            f = d + "/" + name
            body = ["%s = %s" % (k, d.replace("@", "").replace("/", ".")) for k in r.sample(["a", "b", "c", "d", "e:f"], r.randint(1, 4))]
            if r.random() < 0.04:
                body.append("broken line")
            if r.random() < 0.1:
                body.append("include shared.cfg")
            files[f] = body
        elif r.random() < 0.06 and d + "/" + name not in files:
            ops.append(("dir", d + "/" + name))
    if r.random() < 0.5:
        files[r.choice(cands) + "/shared.cfg"] = ["shared = 1", "a = from-shared"]
    dirs = {o[1] for o in ops if o[0] == "dir"}
    ops += [("file", f, "\n", "1") + tuple(b) for f, b in files.items() if f not in dirs]
    ops.append(("paths", app, ver, prefix))
    ops.append(("lookup", name, app, ver, prefix, r.choice("01")))
    ops.append(("lookup", name, app, ver, prefix, r.choice("01")))
    if files and r.random() < 0.3:
        f = r.choice(sorted(files))
        if f not in dirs:
            ops += [("lookup", f, app, ver, prefix, r.choice("01")), ("rmfile", f), ("lookup", name, app, ver, prefix, "1"), ("lookup", f, app, ver, prefix, "1")]
    ops.append(("lookup", "absent.cfg", app, ver, prefix, "1"))
    return ops


def c10(run):
    exe = harness()
    run.conform(exe, "TraceConfigFile", run.tlc_scripts("MCConfigLookup", limit=run.n(1500, 10000)), label="tlc")
    run.conform(exe, "TraceConfigFile", [lookup_script(run.rng) for _ in range(run.n(900, 9000))], label="rnd")


def conc_script(r, iters):
    ops, mains = [], []
    ops += [("sys", x) for x in ("cwd", "hostname", "osname", "osplatform", "islinux", "isapple", "iswindows", "is64bits", "numproc")]
    for t in range(r.randint(2, 6)):
        g = FileGen(r, macros=0.5, bad=r.choice([0, 0, 0.1]), ro=0.15)
        s = g.script()
        for op in s:
            if op[0] == "file":
                ops.append((op[0], op[1].replace("@", "@/t%d" % t)) + tuple(op[2:4]) + tuple(x.replace("@", "@/t%d" % t) for x in op[4:]))
            elif op[0] == "dir":
                ops.append((op[0], op[1].replace("@", "@/t%d" % t)))
            elif op[0] == "env" and t == 0:
                ops.append(op)
        mains.append([op[1] for op in ops if op[0] == "file" and op[1].startswith("@/t%d" % t)][0])
    ops.append(("conc", str(iters), "@/s1") + tuple(mains))
    return ops


def c37(run):
    run.model_check("ConcRead", consts={"Shared": "FALSE"})
    exe = harness("tsan")
    run.conform(exe, "TraceConfigFile", [conc_script(run.rng, 8) for _ in range(run.n(60, 600))], label="tsan", timeout=300)
    exe = harness("asan")
    run.conform(exe, "TraceConfigFile", [conc_script(run.rng, 60) for _ in range(run.n(60, 800))], label="asan", timeout=300)
    run.assumptions.append("schedules of the real threads are sampled; data races not exhibited as wrong results are detected by ThreadSanitizer's happens-before analysis on the explored executions")
