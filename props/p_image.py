"""C15, C16: images, against spec/Images.tla."""
import vlib


def harness():
    return vlib.build("asan", ("vital",), "h_image", libs=["vital", "vital_config", "vital_logger", "kwiversys"])[0]


class Gen:
    """Writes random histories; follows the geometries only to stay inside the memory blocks."""

    def __init__(self, r):
        self.r, self.ops, self.im, self.size, self.next = r, [], {}, {0: 48}, 1

    def add(self, *a):
        self.ops.append(tuple(str(x) for x in a))

    def fresh(self, i, g, n):
        self.im[i] = (self.next, g)
        self.size[self.next] = n
        self.next += 1

    def addrs(self, g):
        o, w, h, d, ws, hs, ds = g
        return [o + a * ws + b * hs + c * ds for c in range(d) for b in range(h) for a in range(w)]

    def rand_geo(self, n):
        r = self.r
        for _ in range(60):
            w, h, d = (r.choice([0, 1, 1, 2, 2, 3, 4, 7]) for _ in range(3))
            kind = r.random()
            if kind < 0.6:  # nested in any order, with gaps and signs
                st, dims = {}, [("w", w), ("h", h), ("d", d)]
                r.shuffle(dims)
                cur = 1
                for k, n_ in dims:
                    cur += r.choice([0, 0, 1, 2])
                    st[k] = cur * r.choice([1, 1, 1, -1])
                    cur *= max(1, n_)
                s = (st["w"], st["h"], st["d"])
            else:
                s = tuple(r.choice([-12, -9, -6, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 8, 9, 12]) for _ in range(3))
            g = (0, w, h, d) + s
            a = self.addrs(g)
            if len(set(a)) != len(a):
                continue
            if not a:
                return (r.randint(0, n) if n else 0,) + g[1:]
            span = max(a) - min(a)
            if span >= n:
                continue
            return (r.randint(0, n - 1 - span) - min(a),) + g[1:]
        return (0, 0, 0, 0, 1, 1, 1)

    def derived(self, g):
        """a view of a view: cropped, flipped, turned, thinned"""
        r = self.r
        o, dims, st = g[0], list(g[1:4]), list(g[4:])
        for _ in range(r.randint(1, 3)):
            k = r.randrange(3)
            if not dims[k]:
                continue
            w = r.random()
            if w < 0.3:
                lo = r.randint(0, dims[k] - 1)
                o += lo * st[k]
                dims[k] = r.randint(1, dims[k] - lo)
            elif w < 0.55:
                o += (dims[k] - 1) * st[k]
                st[k] = -st[k]
            elif w < 0.8:
                j = r.randrange(3)
                dims[k], dims[j], st[k], st[j] = dims[j], dims[k], st[j], st[k]
            else:
                m = r.choice([2, 2, 3])
                dims[k] = (dims[k] + m - 1) // m
                st[k] *= m
        return (o,) + tuple(dims) + tuple(st)

    def step(self, whole):
        r = self.r
        i = r.choice("abcdef")
        j = r.choice(list(self.im)) if self.im else None
        k = r.random()
        dim = lambda: r.choice([0, 1, 1, 2, 2, 3, 4])
        if j is None or k < 0.12:
            w, h, d, il = dim(), dim(), dim(), r.random() < 0.5
            self.add("new", i, w, h, d, int(il))
            self.fresh(i, (0, w, h, d) + ((d, d * w, 1) if il else (1, w, w * h)), w * h * d)
        elif k < 0.16:
            g = self.rand_geo(48)
            self.add("ext", i, *g)
            self.im[i] = (0, g)
        elif k < 0.18:
            self.add("null", i)
            self.im[i] = (-1, (0, 0, 0, 0, 0, 0, 0))
        elif k < 0.26:
            self.add(r.choice(["copy", "assign", "contain"]), i, j)
            self.im[i] = self.im[j]
        elif k < 0.42:
            m, g = self.im[j]
            if m >= 0:
                v = self.rand_geo(self.size[m]) if r.random() < 0.4 else self.derived(g)
                self.add("view", i, j, v[0] - g[0], *v[1:])
                self.im[i] = (m, v)
        elif k < 0.46:
            m, g = self.im[j]
            if m > 0:
                self.add("dup", i, j)
                self.fresh(i, g, self.size[m])
        elif k < 0.49:
            c = [x for x in self.im if self.im[x][0] > 0 and self.im[j][0] > 0 and self.size[self.im[x][0]] == self.size[self.im[j][0]]]
            if c:
                self.add("mcopy", r.choice(c), j)
        elif k < 0.54:
            self.add("drop", j)
            del self.im[j]
        elif k < 0.66:
            g = self.im[j][1]
            p = [r.randint(0, max(0, g[1 + q] - 1)) if r.random() < 0.85 else r.randint(0, g[1 + q] + 2) for q in range(3)]
            if not g[3]:
                mode = "3"
            else:
                mode = r.choice(["2", "3", "m"])
            q = r.random()
            if q < 0.6:
                self.add("set", j, *p, r.randint(0, 255), mode if mode != "m" else "3")
            elif q < 0.8 or not g[3]:
                self.add("get", j, *p, mode)
            else:
                self.add("at", j, p[0], p[1])
        elif k < (0.74 if not whole else 0.78):
            t = r.choice(list(self.im))
            m, g = self.im[j]
            a = self.im[t][1]
            if a[1:4] != g[1:4]:
                self.resize(t, g[1:4])
            self.add("copyfrom", t, j)
        elif k < 0.84:
            if r.random() < 0.3 and self.im[j][1][3]:
                d = list(self.im[j][1][1:4])
            else:
                d = [dim() for _ in range(3)]
            self.add("resize", j, *d)
            self.resize(j, tuple(d))
        elif k < 0.91:
            self.add("equal", j, r.choice(list(self.im)))
        else:
            self.add("transform", j, r.choice(["neg", "inc", "seven", "id"]))

    def resize(self, i, d):
        m, g = self.im[i]
        if g[1:4] == tuple(d):
            return
        ws = g[4] if g[4] != 0 and g[4] == d[2] else 1
        n = d[0] * d[1] * d[2]
        self.fresh(i, (0,) + tuple(d) + (ws, d[0] * ws, d[0] * d[1] if ws == 1 else 1), n)


    def parts(self):
        """two views of one image, of the same size and with no pixel in common, copied from one to the other"""
        r = self.r
        c = [j for j in self.im if self.im[j][0] >= 0 and max(self.im[j][1][1:4]) > 1 and min(self.im[j][1][1:4]) > 0]
        if not c:
            return
        j = r.choice(c)
        m, v = self.im[j]
        q = r.choice([q for q in range(3) if v[1 + q] > 1])
        dims, st = list(v[1:4]), list(v[4:])
        n = dims[q] // 2
        if r.random() < 0.5:  # halves
            dims[q], off = n, st[q] * r.randint(n, v[1 + q] - n)
        else:                 # every other one
            dims[q], off, st[q] = n, st[q], st[q] * 2
        back = list(st)
        o = [0, off]
        if r.random() < 0.3:  # the second from its end
            o[1] += (n - 1) * st[q]
            back[q] = -st[q]
        to = r.sample([h for h in "abcdef" if h != j], 2)
        for h, x, s in zip(to, o, (st, back)):
            self.add("view", h, j, x, *(dims + s))
            self.im[h] = (m, (v[0] + x,) + tuple(dims) + tuple(s))
        r.shuffle(to)
        self.add("copyfrom", *to)


def s15(r):
    g = Gen(r)
    for _ in range(r.randint(4, 25)):
        g.step(False)
        if r.random() < 0.08:
            g.parts()
    return g.ops


def s16(r):
    g = Gen(r)
    v = g.rand_geo(48)
    g.add("ext", "a", *v)
    g.im["a"] = (0, v)
    for _ in range(r.randint(3, 10)):
        g.step(True)
    # two views that start at one pixel and step differently
    for j in [j for j in g.im if g.im[j][0] >= 0][:3]:
        m, v = g.im[j]
        d = [q for q in range(3) if v[1 + q] > 2]
        if d and r.random() < 0.5:
            q, k = r.choice(d), r.choice([1, 2])
            dims = list(v[1:4])
            dims[q] = (dims[q] + k) // (k + 1)
            st = list(v[4:])
            g.add("view", "x", j, 0, *(dims + st))
            g.im["x"] = (m, (v[0],) + tuple(dims) + tuple(st))
            st[q] *= k + 1
            g.add("view", "y", j, 0, *(dims + st))
            g.im["y"] = (m, (v[0],) + tuple(dims) + tuple(st))
            g.add("equal", *r.choice(["xy", "yx"]))
    b = r.choice(list(g.im) or ["a"])
    for i in list(g.im):
        g.add("equal", b, i)
    if g.im:
        g.add("transform", b, r.choice(["neg", "inc"]))
    return g.ops


def c15(run):
    run.model_check("MCImages", "MCImages.cfg", consts={"MaxOps": run.n(3, 4)})
    sc = run.tlc_scripts("MCImages", "MCImages_gen.cfg", consts={"MaxOps": run.n(3, 4)}, limit=run.n(3000, 20000))
    exe = harness()
    run.conform(exe, "TraceImages", sc, label="tlc")
    run.conform(exe, "TraceImages", [s15(run.rng) for _ in range(run.n(1500, 15000))], label="rnd")


def c16(run):
    sc = run.tlc_scripts("MCImages", "MCImages_geo.cfg", limit=run.n(1500, 25736))
    exe = harness()
    run.conform(exe, "TraceImages", sc, label="tlc")
    run.conform(exe, "TraceImages", [s16(run.rng) for _ in range(run.n(1500, 15000))], label="rnd")
