"""C39: rotations, similarities, cameras, essential and fundamental matrices over exactly representable values."""
from fractions import Fraction as Fr
from math import gcd
import p_math
import vlib


def harness():
    return vlib.build("asan", ("vital",), "h_geom", libs=["vital", "vital_config", "vital_logger", "kwiversys"])[0]


# ---- what the generator has to know, to keep the numbers small
def canon(q):
    g = 0
    for x in q:
        g = gcd(g, x)
    s = next(x for x in q if x)
    g = g if s > 0 else -g
    return tuple(x // g for x in q)


def qmul0(p, q):
    return (p[0] * q[0] - p[1] * q[1] - p[2] * q[2] - p[3] * q[3], p[0] * q[1] + p[1] * q[0] + p[2] * q[3] - p[3] * q[2],
            p[0] * q[2] - p[1] * q[3] + p[2] * q[0] + p[3] * q[1], p[0] * q[3] + p[1] * q[2] - p[2] * q[1] + p[3] * q[0])


def qmul(p, q):
    return canon(qmul0(p, q))


def n4(q):
    return sum(x * x for x in q)


def roti(q):
    w, x, y, z = q
    n = n4(q)
    return [n - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), n - 2 * (x * x + z * z), 2 * (y * z - w * x),
            2 * (x * z - w * y), 2 * (y * z + w * x), n - 2 * (x * x + y * y)]


def rot(q, v):
    m, n = roti(q), n4(q)
    return [sum(Fr(m[3 * i + j], n) * v[j] for j in range(3)) for i in range(3)]


def inv(q):
    return canon((q[0], -q[1], -q[2], -q[3]))


OCTA = sorted({canon((a, b, c, d)) for a in (-1, 0, 1) for b in (-1, 0, 1) for c in (-1, 0, 1) for d in (-1, 0, 1)
               if a * a + b * b + c * c + d * d in (1, 2, 4)})
AXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, 0, -2), (1, 2, 2), (2, -1, 2), (-2, 2, 1), (0, 3, 4), (3, 0, -4), (0, 0, 5)]
HALF = [(1, 0), (1, 1), (1, -1), (0, 1), (2, 1), (1, 2), (-1, 1), (3, -1), (-1, 2), (-2, -1), (0, -1), (-1, 0), (3, 1)]


def fs(x):
    x = Fr(x)
    return str(x.numerator) if x.denominator == 1 else "%d/%d" % (x.numerator, x.denominator)


def st(*v):
    return tuple(str(x) for x in v)


def quat(r, small):
    """A quaternion, of which the first may be negative and all may have a factor."""
    if small or r.random() < 0.4:
        q = r.choice(OCTA)
    else:
        q = (0, 0, 0, 0)
        while not any(q) or n4(canon(q)) > 30:
            q = tuple(r.randint(-3, 3) for _ in range(4))
    k = r.choice([1, 1, 1, -1, 2, -3])
    return tuple(k * x for x in q)


def new_rot(r, t, h, ops, big=True):
    """An operation that makes a rotation; returns its quaternion."""
    small = t == "f" or not big
    x = r.randrange(7)
    if x == 0:
        q = quat(r, small)
        ops.append(("rq", t, h, r.choice("qv")) + st(*q))
    elif x == 1:
        q = IDENT
        ops.append(("rid", t, h))
    elif x == 2:
        q = canon(quat(r, small))
        ops.append(("rm", t, h, str(n4(q))) + st(*roti(q)))
    elif x in (3, 4):
        while True:
            a, b = r.choice(HALF)
            ax = r.choice(AXES)
            m = int(round(sum(v * v for v in ax) ** 0.5))
            q = canon((a * m, b * ax[0], b * ax[1], b * ax[2]))
            if n4(q) <= (10 if small else 130):
                break
        ops.append((("raa", "rrod")[x - 3], t, h) + st(a, b, r.choice([0, 0, 0, 1, -1, 2]), *ax))
    elif x == 5:
        while True:
            y, p, l = r.choice(HALF), r.choice([h for h in HALF if abs(h[0]) != abs(h[1])]), r.choice(HALF)
            q = qmul(qmul(qmul((l[0], -l[1], 0, 0), (p[0], 0, -p[1], 0)), (y[0], 0, 0, -y[1])), (0, 1, 1, 0))
            if n4(q) <= (12 if small else 260):
                break
        ops.append(("rypr", t, h) + st(*y, *p, *l))
    else:
        q = quat(r, small)
        ops.append(("rq", t, h, "q") + st(*q))
    return canon(q)


IDENT = (1, 0, 0, 0)


def s_rot(r):
    ops, R, few = [], {}, set()  # few: known to few digits only

    def put(h, q, coarse):
        R[h] = q
        few.discard(h)
        if coarse:
            few.add(h)
    for _ in range(r.randint(4, 24)):
        t = r.choice("ddf")
        mine = [h for h in R if h[0] == t]
        h = t + r.choice("1234")
        x = r.randrange(14)
        if x < 4 or not mine:
            R[h] = new_rot(r, t, h, ops)
            few.discard(h)
            if t == "f":
                few.add(h)
        elif x == 4:
            a = r.choice(mine)
            ops.append(("rinv", t, h, a))
            put(h, inv(R[a]), a in few)
        elif x < 8:
            a, b = r.choice(mine), r.choice(mine)
            q = qmul(R[a], R[b])
            if n4(q) <= (12 if a in few or b in few else 700):
                ops.append(("rmul", t, h, a, b))
                put(h, q, a in few or b in few)
        elif x == 8:
            a = r.choice(mine)
            ops.append(("rcopy", t, h, a))
            put(h, R[a], a in few)
            ops.append(("req", t, h, a))
        elif x == 9:
            ops.append(("req", t, r.choice(mine), r.choice(mine)))
        elif x == 10:
            ops.append(("rvec", t, r.choice(mine)) + st(*[r.randint(-4, 4) for _ in range(3)]))
        elif x == 11:
            a = r.choice(sorted(R))
            if n4(R[a]) <= 12:
                ops.append(("rcast", t, h, a))
                put(h, R[a], t == "f" or a in few)
        elif x == 12:
            a = r.choice(mine)
            if n4(R[a]) <= 12:
                ops.append(("rstream", t, h, a))  # read back with few digits only
                put(h, R[a], True)
        else:
            ok = []
            for c in mine:
                for n in (1, 2, 3, 4, 5, 8):
                    p, good, most = IDENT, True, 0
                    for k in range(n):
                        p = qmul0(p, R[c])
                        good = good and p[0] > 0
                        if k < n - 1:
                            most = max(most, n4(canon(p)))
                    if good:
                        ok.append((c, n, most))
            ok = [(c, n, a) for c, n, most in ok for a in mine if max(most, n4(R[c])) * n4(R[a]) <= (36 if a in few or c in few else 9000) and n4(R[c]) ** n < 10 ** 8]
            if ok:
                c, n, a = r.choice(ok)
                ops.append(("rinterp", t, a, c, str(n)))
    return ops


SC = [Fr(1), Fr(2), Fr(1, 2), Fr(3), Fr(2, 3), Fr(5), Fr(1, 4), Fr(1, 1000), Fr(1000)]


class Sim:
    def __init__(self, s, q, t):
        self.s, self.q, self.t = s, q, t

    def ok(self, t):
        dens = [self.s.denominator] + [x.denominator for x in self.t]
        dm = self.s.denominator * n4(self.q)
        big = max([abs(self.s)] + [abs(x) for x in self.t])
        for d in dens:
            dm = dm * d // gcd(dm, d)
        if t == "d" and dm <= 10 and big <= 1100:
            return True
        return dm <= (40 if t == "f" else 1200) and big <= (20 if t == "f" else 80)

    def apply(self, v):
        w = rot(self.q, v)
        return [self.s * w[i] + self.t[i] for i in range(3)]

    def mul(self, o):
        return Sim(self.s * o.s, qmul(self.q, o.q), self.apply(o.t))

    def inverse(self):
        w = rot(inv(self.q), self.t)
        return Sim(1 / self.s, inv(self.q), [-x / self.s for x in w])


def s_sim(r):
    ops, S, few = [], {}, set()

    def mark(h, *of):
        coarse = h[0] == "f" or any(a in few for a in of)
        few.discard(h)
        if coarse:
            few.add(h)
    for _ in range(r.randint(4, 22)):
        t = r.choice("ddf")
        mine = [h for h in S if h[0] == t]
        h = t + r.choice("1234")
        x = r.randrange(13)
        if x < 3 or not mine:
            q = new_rot(r, t, t + "r", ops)
            m = Sim(r.choice(SC), q, [Fr(r.randint(-6, 6), r.choice([1, 1, 1, 2])) for _ in range(3)])
            if m.ok(t):
                S[h] = m
                mark(h)
                ops.append(("snew", t, h, t + "r", fs(m.s)) + tuple(fs(v) for v in m.t))
        elif x == 3:
            q = canon(quat(r, t == "f"))
            m = Sim(r.choice(SC), q, [Fr(r.randint(-6, 6), r.choice([1, 1, 1, 2])) for _ in range(3)])
            if m.ok(t):
                S[h] = m
                mark(h)
                ops.append(("smat", t, h, fs(m.s), str(n4(q))) + st(*roti(q)) + tuple(fs(v) for v in m.t))
        elif x == 4:
            S[h] = Sim(Fr(1), IDENT, [Fr(0)] * 3)
            mark(h)
            ops.append(("sid", t, h))
        elif x in (5, 6):
            a = r.choice(mine)
            m = S[a].inverse()
            if m.ok("f" if a in few else t):
                S[h] = m
                ops.append(("sinv", t, h, a))
                mark(h, a)
        elif x in (7, 8):
            a, b = r.choice(mine), r.choice(mine)
            m = S[a].mul(S[b])
            if not any(z.s in (1000, Fr(1, 1000)) for z in (S[a], S[b])) and m.ok("f" if a in few or b in few else t):
                S[h] = m
                ops.append(("smul", t, h, a, b))
                mark(h, a, b)
        elif x == 9:
            a = r.choice(mine)
            S[h] = S[a]
            ops.append((r.choice(("sround", "scopy")), t, h, a))
            mark(h, a)
        elif x == 10:
            a = r.choice(sorted(S))
            if S[a].ok("f"):
                S[h] = S[a]
                ops.append(("scast", t, h, a))
                mark(h, a)
        elif x == 11:
            ops.append(r.choice((("seq", t, r.choice(mine), r.choice(mine)),
                                 ("svec", t, r.choice(mine)) + st(*[r.randint(-4, 4) for _ in range(3)]))))
        else:
            a = r.choice(mine)
            if S[a].ok("f") and max(abs(v) for v in S[a].t) < 10:
                ops.append(("sstream", t, t + "9", a))
    return ops


def s_mat(r):
    """Essential and fundamental matrices."""
    ops, E, F = [], {}, {}
    for _ in range(r.randint(3, 16)):
        t = r.choice("ddf")
        h = t + r.choice("1234")
        x = r.randrange(9)
        if x < 4:
            q = canon(quat(r, t == "f"))
            while n4(q) > (4 if t == "f" else 14):
                q = canon(quat(r, t == "f"))
            v = (0, 0, 0)
            while not any(v) or (t == "f" and sum(c * c for c in v) > 20):
                v = tuple(r.randint(-4, 4) for _ in range(3))
            # the twisted rotation has to be small too
            if n4(canon(qmul0((0,) + v, q))) > (60 if t == "f" else 600):
                continue
            if x < 2:
                ops.append(("rq", t, t + "r", "q") + st(*q))
                ops.append(("enew", t, h, t + "r") + st(*v))
                E[h] = t == "f" or (q in OCTA and sum(c * c for c in v) <= 20)
            else:
                ops.append(("emat", t, h, r.choice(["1", "2", "1/2", "-1", "-3"])) + st(*q, *v))
                E[h] = t == "f" or (q in OCTA and sum(c * c for c in v) <= 20)
        elif x == 4 and E:
            g = r.choice(sorted(E))
            if g[0] == t:
                ops.append((r.choice(("ecopy", "eclone")), t, h, g))
                E[h] = E[g]
            elif E[g] and g[0] == "d":
                ops.append(("eof", "f", "f" + h[1], g))
                E["f" + h[1]] = True
            elif g[0] == "f":
                ops.append(("eof", "d", "e" + h[1], g))  # as exact as it was: not a name that goes on
        elif x < 7:
            sv = sorted((r.randint(0, 5) for _ in range(3)), reverse=True)
            if not sv[0] or sv[1] == sv[2] != 0:
                continue
            p, q = canon(quat(r, True)), canon(quat(r, t == "f" or r.random() < 0.5))
            if n4(q) > 9 and t == "d":
                continue
            ops.append(("fnew", t, h) + st(*p, *q, *sv))
            F[h] = t == "f" or q in OCTA
        elif F:
            g = r.choice(sorted(F))
            if g[0] == t:
                ops.append((r.choice(("fcopy", "fclone")), t, h, g))
                F[h] = F[g]
            elif F[g] and g[0] == "d":
                ops.append(("fof", "f", "f" + h[1], g))
                F["f" + h[1]] = True
            elif g[0] == "f":
                ops.append(("fof", "d", "g" + h[1], g))
    return ops


def new_k(r, h, ops, kinds=("simple", "simple", "set", "mat", "plain")):
    kind = r.choice(kinds)
    n = r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9])
    k = {"f": Fr(r.choice([1, 2, 4, 10 if n else 100, 3, Fr(1, 2)])), "pp": (Fr(r.randint(-20, 50)), Fr(r.randint(-20, 50), 2)), "a": Fr(r.choice([1, 1, 2, Fr(1, 2), 4, 3])),
         "s": Fr(r.choice([0, 0, 1, -2, Fr(1, 2)])), "d": [Fr(r.randint(-3, 3), 4) for _ in range(n)]}
    if kind == "plain":
        k["d"] = []
    ops.append(("knew", h, kind, fs(k["f"]), fs(k["pp"][0]), fs(k["pp"][1]), fs(k["a"]), fs(k["s"])) + tuple(fs(x) for x in k["d"]))
    k["plain"] = kind == "plain"
    return k


HALVES = [Fr(x, 2) for x in range(-3, 4)]


def down(k, p):
    """Whether the distortion of p divides by zero, or has too large a denominator."""
    d = list(k["d"]) + [Fr(0)] * (3 if len(k["d"]) < 8 else 0)
    n = len(k["d"])
    if not n:
        return False
    r2 = p[0] ** 2 + p[1] ** 2
    c = [d[i] if i < n and n > m else 0 for i, m in ((0, 0), (1, 1), (4, 4))]
    up = 1 + c[0] * r2 + c[1] * r2 ** 2 + c[2] * r2 ** 3
    dn = 1 + d[5] * r2 + d[6] * r2 ** 2 + d[7] * r2 ** 3 if n > 7 else Fr(1)
    return abs(dn) < Fr(1, 2) or abs(up / dn) > 6 or abs(dn.numerator) * (up.denominator if n > 7 else 1) * 64 > 6000


def s_intr(r):
    ops, K = [], {}
    for _ in range(r.randint(4, 22)):
        h = "k" + r.choice("123")
        x = r.randrange(12)
        if x < 2 or not K:
            K[h] = new_k(r, h, ops)
        elif x == 2:
            ops.append(("kdef", h))
            K[h] = {"f": Fr(1), "pp": (Fr(0), Fr(0)), "a": Fr(1), "s": Fr(0), "d": [], "plain": False}
        elif x == 3:
            g = r.choice(sorted(K))
            how = r.choice(("clone", "base"))
            ops.append(("kcopy", h, how, g))
            K[h] = dict(K[g], plain=K[g]["plain"] and how == "clone")
        elif x == 4:
            g = r.choice(sorted(K))
            if not K[g]["plain"]:
                w = r.choice(("f", "ar", "sk", "pp", "dc"))
                v = {"f": [Fr(r.choice([1, 2, 5]))], "ar": [Fr(r.choice([1, 2, Fr(1, 4)]))], "sk": [Fr(r.randint(-2, 2))], "pp": [Fr(r.randint(-9, 9)), Fr(r.randint(-9, 9))],
                     "dc": [Fr(r.randint(-3, 3), 4) for _ in range(r.choice([0, 1, 2, 4, 5, 8]))]}[w]
                ops.append(("kset", g, w) + tuple(fs(z) for z in v))
                K[g] = dict(K[g])
                K[g][{"f": "f", "ar": "a", "sk": "s", "pp": "pp", "dc": "d"}[w]] = tuple(v) if w == "pp" else v if w == "dc" else v[0]
        elif x == 5:
            ops.append(("kstream", "z", r.choice(sorted(K))))
        elif x == 6:
            # small coefficients, whose distortion can be undone
            n = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 8])
            d = [Fr(r.randint(-4, 4), 100) for _ in range(n)]
            for i in (2, 3):
                if len(d) > i:
                    d[i] = Fr(r.randint(-30, 30), 1000)
            ops.append(("knew", "s", r.choice(("simple", "set")), fs(r.choice([1, 2, 50, Fr(3, 2)])), fs(r.randint(-9, 9)), fs(r.randint(-9, 9)), fs(r.choice([1, 2, Fr(1, 2)])),
                        fs(r.choice([0, 0, 1]))) + tuple(fs(z) for z in d))
            for _ in range(r.randint(1, 4)):
                ops.append(("kround", "s", fs(Fr(r.randint(-6, 6), 12)), fs(Fr(r.randint(-6, 6), 12))))
        elif x == 7:
            g = r.choice(sorted(K))
            if not K[g]["d"]:
                u, v = Fr(r.randint(-60, 60), 2), Fr(r.randint(-60, 60))
                y = (v - K[g]["pp"][1]) * K[g]["a"] / K[g]["f"]
                if ((u - K[g]["pp"][0] - y * K[g]["s"]) / K[g]["f"]).denominator < 10000:
                    ops.append(("kunmap", g, fs(u), fs(v)))
            else:
                ops.append(("kshow", g))
        else:
            g = r.choice(sorted(K))
            p = [r.choice(HALVES), r.choice(HALVES)]
            if not down(K[g], p):
                if x == 8:
                    ops.append(("kdist", g, fs(p[0]), fs(p[1])))
                elif x == 9:
                    z = r.choice([1, -1, 2, -2, 4])
                    ops.append(("kmap3", g, fs(p[0] * z), fs(p[1] * z), fs(z)))
                else:
                    ops.append(("kmap", g, fs(p[0]), fs(p[1])))
    return ops


def s_cam(r):
    ops, K, R, C = [], {}, {}, {}  # C: name -> [center, q, key of the intrinsics, looks]
    H, n = {}, 0
    DEF = {"f": Fr(1), "pp": (Fr(0), Fr(0)), "a": Fr(1), "s": Fr(0), "d": [], "plain": False}
    for _ in range(r.randint(8, 30)):
        x = r.randrange(16)
        h = "c" + r.choice("123")
        if x == 0 or not K:
            g = "k" + r.choice("12")
            n += 1
            K[g] = n
            H[n] = new_k(r, g, ops)
        if x == 1 or not R:
            g = "r" + r.choice("12")
            R[g] = new_rot(r, "d", g, ops, big=r.random() < 0.5)
            if n4(R[g]) > 14:
                R[g] = r.choice(OCTA)
                ops.append(("rq", "d", g, "q") + st(*R[g]))
        if x in (2, 3) or not C:
            if r.random() < 0.1:
                ops.append(("cdef", h))
                n += 1
                H[n] = DEF
                C[h] = [[0, 0, 0], IDENT, n, False]
                continue
            how, a, b = r.choice(("ptr", "ptr", "ref", "null", "none")), r.choice(sorted(R)), r.choice(sorted(K))
            c = [r.randint(-4, 4) for _ in range(3)]
            ops.append(("cnew", h, how, a, b) + st(*c))
            i = K[b]
            if how != "ptr":
                n += 1
                H[n] = H[i] if how == "ref" else DEF
                i = n
            C[h] = [c, R[a], i, False]
        elif x == 4:
            g = r.choice(sorted(C))
            ops.append(("ccopy", h, r.choice(("clone", "base", "assign")), g))
            C[h] = list(C[g])
        elif x == 5:
            g = r.choice(sorted(C))
            c = [r.randint(-4, 4) for _ in range(3)]
            if r.random() < 0.5 or C[g][3] or n4(C[g][1]) > 14:
                ops.append(("cset", g, "c") + st(*c))
                C[g][0] = c
            else:
                ops.append(("cset", g, "t") + st(*c))
                C[g][0] = [-v for v in rot(inv(C[g][1]), c)]
        elif x == 6:
            g, a = r.choice(sorted(C)), r.choice(sorted(R))
            if n4(R[a]) * max(Fr(v).denominator for v in C[g][0]) <= 30:
                ops.append(("cset", g, "r", a))
                C[g][1], C[g][3] = R[a], False
        elif x == 7:
            g, a = r.choice(sorted(C)), r.choice(sorted(K) + [""])
            ops.append(("cset", g, "k", a))
            if a:
                C[g][2] = K[a]
            else:
                n += 1
                H[n] = DEF
                C[g][2] = n
        elif x == 8:
            ops.append(("cset", r.choice(sorted(C)), "cv") + st(*[r.randint(-9, 9) for _ in range(6)]))
        elif x == 9:
            g = r.choice(sorted(C))
            if all(Fr(v).denominator == 1 for v in C[g][0]):
                while True:
                    d, u, how = [r.randint(-2, 2) for _ in range(3)], [r.randint(-2, 2) for _ in range(3)], r.choice(("def", "up", "up"))
                    v = [0, 0, 1] if how == "def" else u
                    if any((d[1] * v[2] - d[2] * v[1], d[2] * v[0] - d[0] * v[2], d[0] * v[1] - d[1] * v[0])):
                        break
                ops.append(("clook", g, how) + st(*d, *u))
                C[g][3] = True
        elif x == 10:
            g = r.choice(sorted(K))
            i = K[g]
            if not H[i]["plain"]:
                f = r.choice([1, 2, 10])
                ops.append(("kset", g, "f", str(f)))
                H[i] = dict(H[i], f=Fr(f))
                ops.append(("cshow", r.choice(sorted(C))))
        elif x == 11:
            g = r.choice(sorted(C))
            if n4(C[g][1]) <= 4 and all(Fr(v).denominator <= 2 for v in C[g][0]):
                ops.append(("cstream", "z", g))
        else:
            g = r.choice(sorted(C))
            c, q, i, look = C[g]
            if look or max(Fr(v).denominator for v in c) * n4(q) > 60:
                continue
            z = r.choice([1, -1, 2, -2, 4])
            p = [r.choice(HALVES), r.choice(HALVES)]
            w = rot(inv(q), [p[0] * z, p[1] * z, z])
            at = [w[k] + c[k] for k in range(3)]
            if not down(H[i], p):
                ops.append(("cproj", g) + tuple(fs(v) for v in at))
            if not H[i]["d"]:
                ops.append(("cback", g) + tuple(fs(v) for v in at))
    return ops


def s_big(r):
    """Angles of next to nothing, and of next to half a turn."""
    ops = []
    for _ in range(r.randint(1, 8)):
        if r.random() < 0.5:
            ax = r.choice(AXES[:4] + [(1, 2, 2), (2, -1, 2), (1, 1, 0), (1, -1, 1), (0, 1, -1)])
            n = r.choice([30, 100, 1000, 5000])
            a, b = r.choice([(n, 1), (1, n), (n, 7), (3, n), (n, n - 1), (n, n + 1)])
            how = r.choice(("q", "q", "aa", "rod", "m"))
            if how == "q" and r.random() < 0.3:
                a = -a
            if how in "qm" or a > 0:
                q = (a,) + tuple(b * x for x in ax)
                while n4(q) > 240000000:
                    q = (q[0] // 2,) + tuple(b // 2 * x for x in ax)
                    b //= 2
                if how == "m":
                    q = canon(q)
                ops.append(("rbig", str(n4(q)), how) + st(*q))
        else:
            n = 10 ** r.randint(6, 11)
            ax = r.choice(AXES + [(1, 1, 0), (1, -1, 1), (3, 1, -2)])
            ops.append(("rtiny", str(n), r.choice(("q", "aa", "rod", "m")), str(n)) + st(*ax))
    return ops


def c39(run):
    exe = harness()
    sc = run.tlc_scripts("MCGeometry", "MCGeometry.cfg", limit=run.n(900, 20000), consts={"Wide": "FALSE" if run.quick else "TRUE", "MaxOps": run.n(2, 3)})
    run.must_fail("MCGeometry", "MCGeometry.cfg", {"Wrong": '"order"'})
    run.must_fail("MCGeometry", "MCGeometry.cfg", {"Wrong": '"sign"'})
    run.conform(exe, "TraceGeometry", sc, label="tlc")
    for name, gen, q, t in (("big", s_big, 300, 4000), ("rot", s_rot, 900, 12000), ("sim", s_sim, 700, 10000), ("mat", s_mat, 500, 8000), ("intr", s_intr, 900, 12000), ("cam", s_cam, 900, 12000)):
        run.conform(exe, "TraceGeometry", [gen(run.rng) for _ in range(run.n(q, t))], label=name)
    hom = p_math.harness()
    run.conform(hom, "TraceHoms", [p_math.s26(run.rng) for _ in range(run.n(600, 10000))], label="hom", args=["hom"])
    run.assumptions.append("all values are exactly representable fractions (or square roots of such): the results of the code are taken for the fractions of least "
                           "denominator within 4e-12 (double), 1e-8 (12 digits in a file) or 2e-5 (float and 6 digits) of them")
    run.assumptions.append("outside the explored domain: pitch of exactly +-90 degrees, interpolation over half a turn or more, looking along the up direction, "
                           "distortion too strong to be undone, matrices that are no rotations or similarities")
