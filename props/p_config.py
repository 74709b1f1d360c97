"""C01-C05: the configuration block, against spec/ConfigStore.tla."""
import os
import vlib

MUTATORS = {"set", "unset", "mark", "merge", "setloc", "sett", "view", "sub"}
LEAVES = ["x", "y", "key", "a", "x1"]
BLOCKS = ["a", "ab", "a:b", "b", "x"]
BLANKS = ["", "", "", " ", "  ", "\t", "\n", " \t ", "\r", "\f"]


def dumps(ops, every=True):
    """Insert a full observation of every live handle after each state-changing operation."""
    out, live = [], []
    for op in ops:
        out.append(op)
        if op[0] in ("new", "view", "sub") and op[1] not in live:
            live.append(op[1])
        if op[0] == "drop" and op[1] in live:
            live.remove(op[1])
        if every and op[0] in MUTATORS:
            out += [("dump", h) for h in live]
    if not every:
        out += [("dump", h) for h in live]
    return out


class Gen:
    """Random operation histories over a few blocks, copies and nested views."""

    def __init__(self, rng, weights, glob=True, handles=5):
        self.r, self.w, self.glob, self.maxh = rng, weights, glob, handles

    def key(self, h):
        r = self.r
        if self.glob and r.random() < 0.12:
            return "_global:" + r.choice(LEAVES)
        depth = r.choice([0, 1, 1, 2]) if not self.view.get(h) else r.choice([0, 0, 1])
        k = ":".join([r.choice(BLOCKS) for _ in range(depth)] + [r.choice(LEAVES)])
        return k

    def some_key(self, h):
        """A key likely to be present when seen through h."""
        r = self.r
        if self.used and r.random() < 0.75:
            k = r.choice(sorted(self.used))
            pre = self.view.get(h, "")
            if pre and k.startswith(pre) and r.random() < 0.9:
                return k[len(pre):]
            return k
        return self.key(h)

    def value(self):
        r = self.r
        v = r.choice(["", "1", "two", "three words here", "a=b", "#hash", "x:y", "-7", "true", "\"q\"", "tab\tin", "long" * 20])
        return r.choice(BLANKS) + v + r.choice(BLANKS)

    def typed_text(self):
        r = self.r
        k = r.random()
        if k < 0.3:
            v = r.choice(["true", "false", "yes", "no", "1", "0", "TRUE", "Yes", "nO", "False", "tRuE", "on", "off", "2", "01", "y", "truefalse", "true false", "t", "", "no.", "-1", "+1", "00", "yes1", "n"])
        elif k < 0.65:
            edges = [2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 9223372036854775807,
                     9223372036854775808, -9223372036854775808, -9223372036854775809, 18446744073709551615, 18446744073709551616]
            v = str(r.choice(edges + [r.randint(-10**6, 10**6), r.randint(0, 99), r.randint(-2**70, 2**70)]))
            if r.random() < 0.15:
                v = "+" + v.lstrip("-")
            if r.random() < 0.15:
                s = "-" if v.startswith("-") else ""
                v = s + "0" * r.randint(1, 12) + v.lstrip("-+")
            if r.random() < 0.25:
                v += r.choice(["abc", " 7", ".5", "e3", "x", "-", ",000", " ", "\t9"])
        else:
            v = r.choice(["abc", "-", "+", "--1", "+-1", "- 1", "1 2", "x1", ".5", "0x1F", "", "1e5", "007", "-0", "+0", "-007", "nan", "seventy"])
        return r.choice(BLANKS) + v + r.choice(BLANKS)

    def script(self, n):
        r = self.r
        self.view, self.used, ops = {}, set(), []
        live = []
        roots = {}

        def newh():
            i = 0
            while str(i) in self.allh:
                i += 1
            self.allh.add(str(i))
            return str(i)
        self.allh = set()
        h = newh()
        ops.append(("new", h, r.choice(["", "cfg", "a:b"])))
        live.append(h)
        roots[h] = h
        names, weights = zip(*self.w.items())
        for _ in range(n):
            op = r.choices(names, weights)[0]
            h = r.choice(live)
            if op in ("view", "sub", "new"):
                if len(self.allh) >= self.maxh:
                    continue
                c = newh()
                if op == "new":
                    ops.append(("new", c, r.choice(["", "n"])))
                    roots[c] = c
                    self.view[c] = ""
                else:
                    k = r.choice(BLOCKS)
                    ops.append((op, c, h, k))
                    if op == "view":
                        self.view[c] = self.view.get(h, "") + k + ":"
                        roots[c] = roots[h]
                    else:
                        self.view[c] = ""
                        roots[c] = c
                live.append(c)
                if r.random() < 0.3:
                    ops.append(("name", c))
            elif op == "drop":
                if len(live) > 1:
                    ops.append(("drop", h))
                    live.remove(h)
            elif op == "merge":
                o = r.choice(live)
                # merging overlapping windows of one block is only determined when the source does not alias
                # keys of the target under other names, so such pairs are left out
                if o == h or roots[o] != roots[h] or self.view.get(o, "") == self.view.get(h, ""):
                    ops.append(("merge", h, o))
            elif op == "set":
                k = self.some_key(h) if r.random() < 0.5 else self.key(h)
                self.used.add(self.view.get(h, "") + k if not k.startswith("_global:") else k)
                if r.random() < 0.5:
                    ops.append(("set", h, k, self.value()))
                else:
                    ops.append(("set", h, k, self.value(), r.choice(["", "d1", "second description", "  spaced "])))
            elif op == "sett":
                k = self.some_key(h)
                self.used.add(self.view.get(h, "") + k if not k.startswith("_global:") else k)
                ty = r.choice(["int", "uint", "i64", "u64", "bool", "str"])
                lim = {"int": (-2**31, 2**31 - 1), "uint": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}
                if ty == "bool":
                    v = r.choice("01")
                elif ty == "str":
                    v = self.value()
                else:
                    lo, hi = lim[ty]
                    v = str(r.choice([lo, hi, 0, 1, r.randint(lo, hi), r.randint(max(lo, -999), 999), 1000, 1234567]))
                ops.append(("sett", h, k, ty, v) + (("-",) if r.random() < 0.5 else ("d", r.choice(["", "dd"]))))
            elif op == "settext":
                k = self.some_key(h)
                self.used.add(self.view.get(h, "") + k if not k.startswith("_global:") else k)
                ops.append(("set", h, k, self.typed_text()))
                for ty in r.sample(["int", "uint", "i64", "u64", "bool", "str"], 3):
                    ops.append(("get", h, k, ty))
                    ops.append(("getd", h, k, ty, self.default(ty)))
            elif op == "get":
                ops.append(("get", h, self.some_key(h), r.choice(["str", "str", "str", "int", "bool", "i64"])))
            elif op == "getd":
                ty = r.choice(["str", "str", "int", "bool", "u64"])
                ops.append(("getd", h, self.some_key(h), ty, self.default(ty)))
            elif op in ("unset", "mark", "isro", "has", "descr", "getloc"):
                ops.append((op, h, self.some_key(h)))
            elif op == "setloc":
                ops.append((op, h, self.some_key(h), r.choice(["f.conf", "/x/y.conf"]), str(r.randint(1, 500))))
            elif op in ("keys", "print"):
                ops.append((op, h))
        return ops

    def default(self, ty):
        return {"bool": self.r.choice("01"), "str": self.r.choice(["dflt", "", "x y"]),
                "int": self.r.choice(["-5", "7"]), "i64": "-99", "u64": "77", "uint": "9"}[ty]


BASE = {"set": 10, "unset": 4, "get": 4, "getd": 2, "has": 2, "descr": 3, "keys": 1, "print": 0.5, "setloc": 2, "getloc": 1}


def check(run, weights, mc_cfgs, n_quick, n_thorough, length, limit):
    exe, _ = vlib.build("asan", ("vital_config",), "h_config", libs=["vital_config", "kwiversys"])
    scripts = []
    for cfg in mc_cfgs:
        f = os.path.join(run.scratch, cfg + ".scripts")
        run.model_check("MCConfig", cfg, script_file=f)
        got = vlib.read_scripts(f)
        run.notes.setdefault("tlc_generated_behaviours", 0)
        run.notes["tlc_generated_behaviours"] += len(got)
        if len(got) > limit:
            got = run.rng.sample(got, limit)
        scripts += [dumps(s, every=False) for s in got]
    ok = run.conform(exe, "TraceConfig", scripts, label="tlc")
    g = Gen(run.rng, weights)
    n = run.n(n_quick, n_thorough)
    scripts = [dumps(g.script(run.rng.randint(4, length))) for _ in range(n)]
    run.notes["random_histories"] = n
    run.conform(exe, "TraceConfig", scripts, label="rnd")


def c01(run):
    w = dict(BASE, view=0.5, sub=0.3, new=0.3)
    check(run, w, ["MCConfig.cfg"], 500, 6000, 30, run.n(1500, 15000))


def c02(run):
    w = dict(BASE, mark=5, isro=4, view=2, sub=0.4, new=0.6, merge=3, unset=6)
    check(run, w, ["MCConfigRO.cfg"], 500, 6000, 30, run.n(2500, 20000))


def c03(run):
    w = dict(BASE, mark=0.7, view=4, sub=3, new=0.5, merge=0.5, drop=1, isro=1, unset=5)
    check(run, w, ["MCConfigView.cfg"], 500, 6000, 30, run.n(2500, 20000))


def c04(run):
    w = dict(BASE, mark=1, view=1.5, sub=1, new=2, merge=6)
    check(run, w, ["MCConfigMerge.cfg"], 500, 6000, 30, run.n(2500, 20000))


def c05(run):
    w = {"settext": 10, "sett": 5, "get": 4, "getd": 4, "unset": 1, "view": 0.4, "mark": 0.2, "new": 0.2}
    check(run, w, ["MCConfig.cfg"], 700, 8000, 14, run.n(200, 2000))
