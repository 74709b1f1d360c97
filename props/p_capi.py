"""C23, C24, C25: the C interface, against spec/CApi.tla."""
import p_config
import vlib

N = "<null>"


def harness():
    return vlib.build("asan", ("vital_c",), "h_capi", libs=["vital_c", "vital_apm", "vital", "vital_config", "vital_logger", "kwiversys"])[0]


KEYS = ["a", "b", "a:b", "a:c", "b:x:y", "_global:g", "p", "k" * 90, "A.b-c"]
VALS = ["1", "true", "No", "x y", "", "  pad ", "copy", "L" * 300, "yes", "false", "2"]
KEYERR = KEYS + ["nope", N, ""]
TYPES = ["convert_image", "image_io", "track_features"]
PS = ["copy", "same", "null", "boom", "bad", "x"]
CONFS = ["a.conf", "b.conf", "sub/c.conf", "dir.conf", "bad.conf", "blk/x.conf", "none.conf"]
KIND = {"cfg": "c", "track": "t", "tset": "s", "cam": "k", "cmap": "m", "imgc": "x", "alg": "a"}
DESTROY = {"cfg": "cdestroy", "track": "tdestroy", "tset": "sdestroy", "cam": "kdestroy", "cmap": "mdestroy", "imgc": "xdestroy"}


class Gen:
    """Generates histories with a rough idea of what the handles are; the specification knows what they are."""

    def __init__(self, r, focus, marks, bad=1.0, rel=0.12):
        self.r, self.focus, self.marks, self.bad, self.rel = r, focus, marks, bad, rel
        self.root = {}
        self.ops, self.n, self.live, self.old, self.imgs, self.nat = [], 0, {k: [] for k in KIND}, [], {}, []
        self.algt = {}

    def add(self, *o):
        self.ops.append(tuple(str(x) for x in o))

    def new(self, kind=None):
        self.n += 1
        h = "h%d" % self.n
        if kind:
            self.live[kind].append(h)
        return h

    def e(self):
        return self.r.choice(["e", "e", "-"])

    def any(self, kind):
        r, x = self.r, self.r.random() / self.bad if self.bad else 1
        if x < 0.04:
            return "null"
        if x < 0.06:
            return "junk"
        if x < 0.12 and self.old:
            return r.choice(self.old)
        if x < 0.16:
            o = [h for k in KIND for h in self.live[k]]
            if o:
                return r.choice(o)
        return r.choice(self.live[kind]) if self.live[kind] else "null"

    def view_of(self, c):
        h = self.new("cfg")
        self.root[h] = self.root.get(c, c)
        return h

    def key(self):
        return self.r.choice(KEYS if self.r.random() > 0.1 * self.bad else KEYERR)

    def val(self):
        return self.r.choice(VALS)

    def file(self, pool):
        return self.r.choice(pool) if self.r.random() > 0.03 * self.bad else N

    def destroy(self):
        r = self.r
        kind = r.choice(list(KIND))
        h = self.any(kind)
        if kind == "alg":
            t = self.algt.get(h, r.choice(TYPES)) if r.random() < 0.85 else r.choice(TYPES)
            self.add("adestroy", h, t, self.e())
        else:
            self.add(DESTROY[kind], h, self.e())
        if h in self.live[kind]:
            self.old.append(h)
            if r.random() < 0.7:
                self.live[kind].remove(h)

    def config(self):
        r, a = self.r, self.add
        c = self.any("cfg")
        x = r.randrange(26)
        if x == 0 or not self.live["cfg"]:
            a("cnew", self.new("cfg"), r.choice(["<new>", "n", "", "name " * 40, N]))
        elif x == 1:
            a("csub", self.new("cfg"), c, r.choice(["a", "b", "b:x", "zz", N]))
        elif x == 2:
            a("cview", self.view_of(c), c, r.choice(["a", "b", "b:x", "zz", N]))
        elif x in (3, 4, 5, 6):
            a("cset", c, self.key(), self.val() if r.random() < 0.95 else N)
        elif x == 7:
            a("csetd", c, self.key(), self.val(), r.choice(["", "about it", "long " * 60]))
        elif x == 8:
            a("cunset", c, self.key())
        elif x == 9 and self.marks:
            a("cmark", c, self.key())
        elif x == 10:
            a("cisro", c, self.key())
        elif x == 11:
            a("chas", c, self.key())
        elif x == 12:
            d = self.any("cfg")
            if d == c or self.root.get(d, d) != self.root.get(c, c):  # overlapping windows are not determined
                a("cmerge", c, d)
        elif x in (13, 14):
            a("cget", c, self.key())
        elif x == 15:
            a("cgetd", c, self.key(), self.val())
        elif x == 16:
            a("cgetb", c, self.key(), self.e())
        elif x == 17:
            a("cgetbd", c, self.key(), r.choice("01"), self.e())
        elif x == 18:
            a("cdescr", c, self.key())
        elif x == 19:
            a("cname", c)
        elif x == 20:
            a("cread", self.new("cfg"), self.file(CONFS + ["1.cam"]), self.e())
        elif x == 21:
            a("cwrite", c, self.file([f for f in CONFS if f != "bad.conf"]), self.e())
        elif x == 22 and not self.marks:
            pre = r.choice(["pre", "pre", "pre", "", N])
            a("clookup", self.new("cfg"), self.file(["vpx.conf"]), "app", r.choice(["1.0", "1.0", "", N]), pre, r.choice("01"), self.e())
        elif x == 23 and not self.marks:
            d = r.choice(["share/app/1.0/config", "share/app/config", "share/config", "config"])
            a("mkfile", "pre/%s/vpx.conf" % d, *r.choice([("cfg", r.choice("ab"), r.choice("12")), ("cfg", "a", "3", "a:b", "4"), ("bad",), ("dir",)]))
        else:
            a("cdump", c)

    def tracks(self):
        r, a = self.r, self.add
        x = r.randrange(12)
        if x == 0:
            a("tnew", self.new("track"))
        elif x == 1:
            a(r.choice(["tsize", "tempty"]), self.any("track"), self.e())
        elif x == 2:
            self.n += 1
            h = "n%d" % self.n
            self.nat.append(h)
            a("snative", h, *[r.choice([0, 1, 2, 3]) for _ in range(r.randint(0, 3))])
        elif x == 3 and self.nat:
            a("sfrom", self.new("tset"), r.choice(self.nat))
        elif x == 4 and self.nat:
            a("sdrop", self.nat.pop(r.randrange(len(self.nat))))
        elif x in (5, 6):
            a("snew", self.new("tset"), *[self.any("track") if r.random() < 0.3 else (r.choice(self.live["track"]) if self.live["track"] else "null") for _ in range(r.randint(0, 3))])
        elif x in (7, 8):
            a("ssize", self.any("tset"), self.e())
        elif x == 9:
            a("swrite", self.any("tset"), self.file(["1.trk", "2.trk", "nodir/1.trk", "dir.conf", "blk/1.trk"]), self.e())
        elif x == 10:
            a("sread", self.new("tset"), self.file(["1.trk", "2.trk", "none.trk", "bad.conf", "dir.conf"]), self.e())
        else:
            self.add("tdestroy", self.any("track"), self.e())

    def cameras(self):
        r, a = self.r, self.add
        x = r.randrange(10)
        if x == 9 and self.live["cam"] and r.random() < 0.5:
            # one camera on several frames, the handles of which come and go
            k, m, p = r.choice(self.live["cam"]), self.new("cmap"), self.new()
            a("mnew", m, *[y for f in sorted(r.sample([0, 1, 2, 5], r.choice([2, 2, 3]))) for y in (k, f)])
            a("mmap", m, p, self.e())
            q = [p + "0", p + "1", p + "2", k]
            r.shuffle(q)
            for h in q[:r.randint(1, 3)]:
                a("kdestroy", h, self.e())
            a("kwrite", q[3], "2.cam", self.e())
            if r.random() < 0.5:
                a("mdestroy", m, self.e())
                self.live["cmap"].remove(m)
                a("kwrite", r.choice(q), "2.cam", self.e())
        elif x < 2:
            a("kread", self.new("cam"), self.file(["1.cam", "1.cam", "2.cam", "none.cam", "bad.conf", "dir.conf", "3.cam"]), self.e())
        elif x == 2:
            f = self.file(["2.cam", "3.cam", "nodir/1.cam", "blk/1.cam", "dir.conf"])
            a("kwrite", self.any("cam"), f, self.e())
            if f in ("2.cam", "3.cam"):
                a("kshow", f)
        elif x in (3, 4):
            q = []
            for _ in range(r.randint(0, 3)):
                q += [self.any("cam") if r.random() < 0.3 else (r.choice(self.live["cam"]) if self.live["cam"] else "null"), r.choice([0, 1, 2, 4294967295])]
            a("mnew", self.new("cmap"), *q)
        elif x == 5:
            a("msize", self.any("cmap"), self.e())
        elif x in (6, 7):
            p = self.new()
            a("mmap", self.any("cmap"), p, self.e())
            self.live["cam"] += [p + "0", p + "1"]
            self.old += [p + "2"]
        else:
            a("kdestroy", self.any("cam"), self.e())

    def img(self):
        return self.r.choice(list(self.imgs)) if self.imgs else None

    def images(self):
        r, a = self.r, self.add
        x = r.randrange(14)
        i = self.img()
        if x == 0 or i is None:
            h = self.new()
            a("inew", h)
            self.imgs[h] = (0, 0, 0)
        elif x in (1, 2):
            h = self.new()
            w, hh, d = r.randint(0, 3), r.randint(0, 3), r.randint(0, 3)
            a("idim", h, w, hh, d, r.choice("01"))
            self.imgs[h] = (w, hh, d)
        elif x in (3, 4):
            h = self.new()
            w, hh, d = r.randint(1, 3), r.randint(1, 3), r.randint(1, 3)
            n = w * hh * d
            o = r.choice([(1, w, w * hh), (d, d * w, 1), (d, d * w, -1), (1, w, -w * hh), (-1, w, w * hh), (1, -w, w * hh), (-1, -w, -w * hh)])
            org = (w - 1 if o[0] < 0 else 0) + (w * (hh - 1) if o[1] < 0 else 0)
            a("idata", h, w, hh, d, *o, org, *[r.randrange(256) for _ in range(n)])
            self.imgs[h] = (w, hh, d)
        elif x == 5:
            h = self.new()
            a("icopy", h, i)
            self.imgs[h] = self.imgs[i]
        elif x == 6:
            a("idestroy", i)
            del self.imgs[i]
        elif x in (7, 8):
            w, hh, d = self.imgs[i]
            if w * hh * d:
                a("iput", i, r.randrange(w), r.randrange(hh), r.randrange(d), r.randrange(256))
                a("ishow", r.choice(list(self.imgs)))
        elif x == 9:
            a("ishow", i)
        elif x == 10:
            h = self.new("imgc")
            a("xnew", h, i)
            self.dims = getattr(self, "dims", {})
            self.dims[h] = self.imgs[i]
        elif x == 11:
            a("xdup", self.new("imgc"), self.any("imgc"))
        elif x == 12:
            a("xdims", self.any("imgc"))
        else:  # the dimensions of what comes back are not known here: only shown, copied and destroyed
            h = self.new()
            c = [q for q in self.live["imgc"] if q in getattr(self, "dims", {})]
            if c and r.random() < 0.9:
                q = r.choice(c)
                if q not in self.old:
                    a("ximg", h, q)
                    self.imgs[h] = self.dims[q]
            else:
                a("ximg", h, self.any("imgc"))

    def conf_for(self, n):
        """a configuration with a nested algorithm"""
        r, a = self.r, self.add
        c = r.choice(self.live["cfg"]) if self.live["cfg"] and r.random() < 0.5 else self.new("cfg")
        if c == "h%d" % self.n:
            a("cnew", c, "<new>")
        i = r.choice(["plain", "keeps", "keeps", "nope", ""])
        p = r.choice(PS + ["refuse", "refusec", "refusei"])
        why = "c" if p == "refusec" else "" if p != "refuse" else r.choice(["this", "reason " * 30])
        if n:
            a("cset", c, n + ":type", i)
            if r.random() < 0.8:
                a("cset", c, "%s:%s:p" % (n, i), p)
                if p == "refuse":
                    a("cset", c, "%s:%s:why" % (n, i), why)
            else:
                why = ""
        elif r.random() < 0.9:
            a("cset", c, "p", p)
            if p == "refuse":
                a("cset", c, "why", why)
        else:
            why = ""
        if why == "reason " * 30:
            why = why.strip()
        return c, why

    def alg(self, t=None):
        r = self.r
        if t and r.random() < 0.9:
            m = [h for h in self.live["alg"] if self.algt.get(h) == t]
            if m:
                return r.choice(m)
        return self.any("alg")

    def algs(self):
        r, a = self.r, self.add
        x = r.randrange(17)
        t = r.choice(TYPES)
        if x < 2 or not self.live["alg"]:
            h = self.new("alg")
            self.algt[h] = t
            a("acreate", h, t, r.choice(["plain", "keeps", "keeps", "nope", "", N] if r.random() < 0.3 else ["plain", "keeps"]))
        elif x == 2:
            a("anames", t)
        elif x == 3:
            a(r.choice(["atype", "aimpl"]), self.any("alg"), self.e())
        elif x in (4, 5):
            h, g = self.new("cfg"), self.any("alg")
            self.root[h] = "own " + g
            a("agetc", h, g, self.e())
        elif x in (6, 7):
            c, why = self.conf_for("")
            if r.random() < 0.1:
                c, why = self.any("cfg"), ""
            a("asetc", self.any("alg"), c, self.e(), why)
        elif x == 8:
            c, _ = self.conf_for("") if r.random() < 0.7 else (self.any("cfg"), 0)
            a("acheck", self.any("alg"), c, self.e())
        elif x == 9:
            h = self.alg(t) if r.random() < 0.7 else "null"
            c = self.any("cfg")
            if not self.root.get(c, c).startswith("own "):
                a("agett", t, r.choice(["n", "m", "n", N]), h, c, self.e())
        elif x in (10, 11):
            n = r.choice(["n", "m"])
            c, why = self.conf_for(n)
            if r.random() < 0.5:
                h = self.alg(t)
                if h == "null":
                    h = "none"
            else:
                h = "none"
            if r.random() < 0.1:
                n, why = N, ""
            if h in ("junk",):
                h = "none"
            to = self.new()
            a("asett", t, n, c, h, self.e(), why, to)
            if h == "none":
                self.live["alg"].append(to)
                self.algt[to] = t
        elif x == 12:
            n = r.choice(["n", "m"])
            c, _ = self.conf_for(n) if r.random() < 0.8 else (self.any("cfg"), 0)
            a("acheckt", t, n, c, self.e())
        elif x == 13:
            g = self.alg(t)
            h = self.new("alg")
            self.algt[h] = t
            a("aclone", h, g, t, self.e())
        elif x == 14:
            a("aconv", self.new("imgc"), self.alg("convert_image"), self.any("imgc"), self.e())
        elif x == 15:
            if r.random() < 0.5:
                a("aload", self.new("imgc"), self.alg("image_io"), self.file(["a.conf", "1.cam", "none.cam", "dir.conf"]), self.e())
            else:
                a("asave", self.alg("image_io"), self.file(["x.png", "pre/x.png", "nodir/x.png", "blk/x.png"]), self.any("imgc"), self.e())
        else:
            a("atrack", self.new("tset"), self.alg("track_features"), self.any("tset"), r.choice([0, 7, 4294967295]), self.any("imgc"),
              r.choice(["-", self.any("imgc")]), self.e())

    def run(self, n):
        r, a = self.r, self.add
        a("mkfile", "dir.conf", "dir")
        a("mkfile", "bad.conf", "bad")
        a("mkfile", "blk", "bad")
        a("mkfile", "1.cam", "cam", r.choice([1, 10, 250]))
        a("mkfile", "a.conf", "cfg", "a", "1", "b", "x y", "a:b", "true")
        a("mkfile", "pre/any", "bad")
        if r.random() < 0.3:
            a("cconst")
        if r.random() < 0.3:
            a("str", r.choice(["", "x", "y" * 500, "a b\tc"]))
        kinds = {"cfg": self.config, "track": self.tracks, "cam": self.cameras, "img": self.images, "alg": self.algs}
        w = {k: (6 if k in self.focus else 1) for k in kinds}
        if self.marks:
            del w["alg"]
        for _ in range(n):
            if r.random() < self.rel:
                self.destroy()
            else:
                kinds[r.choices(list(w), list(w.values()))[0]]()
        # what is left is released, sometimes
        if r.random() < 0.7:
            for k in KIND:
                for h in self.live[k]:
                    if k == "alg":
                        a("adestroy", h, self.algt.get(h, "image_io"), self.e())
                    else:
                        a(DESTROY[k], h, self.e())
            for h in list(self.imgs):
                a("idestroy", h)
        return self.ops


def hist(r, focus, marks=None, **kw):
    return Gen(r, focus, r.random() < 0.3 if marks is None else marks, **kw).run(r.randint(15, 60))


FOCI = [("cfg",), ("track",), ("cam",), ("img",), ("alg",), ("alg", "img"), ("alg", "track"), ("cfg", "alg"), ("cfg", "track", "cam", "img", "alg")]


def c23(run):
    r = run.rng
    exe = harness()
    run.model_check("MCHandles", consts={"MaxOps": run.n(7, 8)})
    for k in ("Check", "Count", "Last"):
        run.must_fail("MCHandles", consts={k: "FALSE"})
    run.conform(exe, "TraceCApi", run.tlc_scripts("MCHandles", "MCHandles_gen.cfg", limit=run.n(400, 3000)), label="tlc")
    run.conform(exe, "TraceCApi", [hist(r, r.choice(FOCI), bad=r.choice([0.5, 2]), rel=r.choice([0.1, 0.25, 0.4])) for _ in range(run.n(450, 6000))], label="rnd")
    run.assumptions.append("objects are identified by their addresses; AddressSanitizer tells which have been freed")


# ---- every entry point with an error handle, failing in every way
SETUP = [("mkfile", "dir.conf", "dir"), ("mkfile", "bad.conf", "bad"), ("mkfile", "blk", "bad"), ("mkfile", "1.cam", "cam", "10"), ("mkfile", "a.conf", "cfg", "a", "1"),
         ("cnew", "c", "<new>"), ("cset", "c", "a", "7x"), ("cset", "c", "t", "yes"), ("cset", "c", "n:type", "plain"), ("cset", "c", "p", "boom"), ("cnew", "c0", ""),
         ("cnew", "cs", ""), ("cdestroy", "cs", "e"),
         ("tnew", "t"), ("snative", "nt", "2", "0"), ("sfrom", "s", "nt"), ("snew", "s0"), ("snew", "ss", "t"), ("sdestroy", "ss", "e"), ("tnew", "ts"), ("tdestroy", "ts", "e"),
         ("kread", "k", "1.cam", "e"), ("kread", "ks", "1.cam", "e"), ("kdestroy", "ks", "e"), ("mnew", "m", "k", "3"), ("mnew", "ms"), ("mdestroy", "ms", "e"),
         ("idim", "i", "2", "2", "1", "0"), ("xnew", "x", "i"), ("xnew", "xs", "i"), ("xdestroy", "xs", "e")]
for _t, _n in (("convert_image", "ac"), ("image_io", "ai"), ("track_features", "at")):
    SETUP += [("acreate", _n, _t, "plain"), ("acreate", _n + "k", _t, "keeps"), ("acreate", "as", _t, "plain"), ("adestroy", "as", _t, "e")]
STALE = {"c": "cs", "t": "ts", "s": "ss", "k": "ks", "m": "ms", "x": "xs", "a": "as"}
GOODH = {"c": ["c", "c0"], "t": ["t"], "s": ["s", "s0"], "k": ["k"], "m": ["m"], "x": ["x"], "a": ["ac", "ai", "at", "ack"]}
# $c etc. stand for handles, %x for texts of a kind
CALLS = [("cgetb", "$c", "%key"), ("cgetbd", "$c", "%key", "1"), ("cread", "new", "%conf"), ("cwrite", "$c", "%conf"), ("cdestroy", "$c"),
         ("clookup", "new", "%conf", "app", "1.0", "pre", "1"),
         ("tdestroy", "$t"), ("tsize", "$t"), ("tempty", "$t"), ("sdestroy", "$s"), ("ssize", "$s"), ("swrite", "$s", "%trk"), ("sread", "new", "%trk"),
         ("kread", "new", "%cam"), ("kwrite", "$k", "%cam"), ("kdestroy", "$k"), ("mdestroy", "$m"), ("msize", "$m"), ("mmap", "$m", "new"), ("xdestroy", "$x"),
         ("adestroy", "$a", "%type"), ("atype", "$a"), ("aimpl", "$a"), ("agetc", "new", "$a"), ("acheck", "$a", "$c"), ("aclone", "new", "$a", "%type"),
         ("agett", "%type", "%name", "$a", "$c"), ("acheckt", "%type", "%name", "$c"), ("aconv", "new", "$a", "$x"), ("aload", "new", "$a", "%cam"), ("asave", "$a", "%img", "$x")]
TEXTS = {"key": ["t", "a", "nope", N, "k" * 300], "conf": ["a.conf", "bad.conf", "dir.conf", "none.conf", "blk/x.conf", "d" * 200 + ".conf", N],
         "trk": ["1.trk", "dir.conf", "none.trk", "blk/1.trk", "nodir/1.trk", "bad.conf", N], "cam": ["1.cam", "bad.conf", "dir.conf", "none.cam", "blk/1.cam", N],
         "img": ["x.png", "nodir/x.png", "blk/x.png", N], "type": TYPES, "name": ["n", "m", N]}


def systematic():
    out = []

    def fill(call, i, done, bad):
        if i == len(call):
            out.append(done)
            return
        x = call[i]
        if x[0] == "$":
            for h in GOODH[x[1]] + ([] if bad else ["null", "junk", STALE[x[1]], "i", "t" if x[1] != "t" else "c"]):
                fill(call, i + 1, done + (h,), bad or h not in GOODH[x[1]])
        elif x[0] == "%":
            for v in TEXTS[x[1:]]:
                fill(call, i + 1, done + (v,), bad)
        else:
            fill(call, i + 1, done + (x,), bad)
    for c in CALLS:
        fill(c, 0, (), False)
    return [SETUP + [c + (e,)] for c in out for e in ("e", "-")]


def c24(run):
    r = run.rng
    exe = harness()
    every = systematic()
    run.notes["calls_with_every_kind_of_argument"] = len(every)
    # several calls per history: those that leave the set-up alone
    n = run.n(12, 4)
    q, left = [], []
    for s in every:
        (left if s[-1][0].endswith("destroy") else q).append(s[-1])
    r.shuffle(q)
    scripts = [SETUP + q[i:i + n] for i in range(0, len(q), n)] + [SETUP + [c] for c in left]
    run.conform(exe, "TraceCApi", scripts, label="every")
    run.conform(exe, "TraceCApi", [hist(r, r.choice(FOCI), bad=r.choice([1, 3])) for _ in range(run.n(250, 5000))], label="rnd")


# ---- histories for the native configuration, through the C interface
def to_c(ops):
    out = []
    for o in ops:
        k, a = o[0], tuple(o[1:])
        if k == "new":
            out.append(("cnew",) + a)
        elif k in ("view", "sub"):
            out.append(("c" + k,) + a)
        elif k == "set":
            out.append(("csetd",) + a if len(a) == 4 else ("cset",) + a)
        elif k in ("unset", "mark", "isro", "has", "descr", "name", "dump"):
            out.append(("c" + k,) + a[:2])
        elif k == "keys":
            out.append(("cdump", a[0]))
        elif k == "merge":
            out.append(("cmerge", a[0], a[1]))
        elif k == "get":
            out.append(("cget", a[0], a[1]) if a[2] != "bool" else ("cgetb", a[0], a[1], "e"))
        elif k == "getd":
            out.append(("cgetd", a[0], a[1], a[3]) if a[2] != "bool" else ("cgetbd", a[0], a[1], a[3], "e"))
        elif k == "drop":
            out.append(("cdestroy", a[0], "e"))
    return out


def c25(run):
    r = run.rng
    exe = harness()
    native = []
    for cfg in ("MCConfigRO.cfg",) if run.tier == "quick" else ("MCConfig.cfg", "MCConfigRO.cfg", "MCConfigView.cfg", "MCConfigMerge.cfg"):
        native += [p_config.dumps(s, every=False) for s in run.tlc_scripts("MCConfig", cfg, limit=run.n(250, 3000))]
    run.conform(exe, "TraceCApi", [to_c(s) for s in native], label="tlc")
    g = p_config.Gen(r, dict(p_config.BASE, view=1.5, sub=0.7, new=0.6, merge=2, mark=1, isro=1, drop=0.5, settext=1))
    run.conform(exe, "TraceCApi", [to_c(p_config.dumps(g.script(r.randint(4, 30)))) for _ in range(run.n(300, 4000))], label="native")
    run.conform(exe, "TraceCApi", [hist(r, ("cfg",), bad=0.3) for _ in range(run.n(150, 3000))], label="rnd")
    run.conform(exe, "TraceCApi", [hist(r, ("track", "img"), bad=0.3) for _ in range(run.n(100, 1500))], label="objects")
