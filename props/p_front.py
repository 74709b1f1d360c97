"""C30: the front-ends of the algorithms, against spec/Front.tla."""
import vlib


def table(rows):
    return ";".join(",".join(str(x) for x in r) for r in rows)


def some(r, n, hi):
    return r.sample(range(1, hi), n)


def s_est(r, tok):
    n1, n2 = r.choice([0, 1, 2, 3, 5, 9]), r.choice([0, 1, 2, 3, 5, 9])
    # some places are equal, and some coordinates negative
    f1 = [(r.choice([next(tok), -next(tok)]), r.randint(-9, 9)) for _ in range(n1)]
    f2 = [(r.choice([next(tok), -next(tok)]), r.randint(-9, 9)) for _ in range(n2)]
    if n1 and r.random() < 0.2:
        f1.append(f1[0])
        n1 += 1
    kind = r.choice(["hom", "fund", "ess2", "ess1", "ess1p"])
    m = []
    if n1 and n2:
        k = r.randrange(5)
        if k == 0:
            m = [(i, i) for i in range(min(n1, n2))]
        elif k == 1:
            a = list(range(n1))
            b = list(range(n2))
            r.shuffle(a)
            r.shuffle(b)
            m = list(zip(a, b))
        elif k == 2:
            m = [(r.randrange(n1), r.randrange(n2)) for _ in range(r.choice([1, 2, 7, 20]))]
        elif k == 3:
            m = [(n1 - 1, n2 - 1), (0, n2 - 1), (n1 - 1, 0)]
    return ("est", kind, table(f1), table(f2), table(m), r.choice(["", "", "0", "1", "4", "10", "400"]), r.choice("df"), str(r.choice([0, 0, 1, 3, 30])))


def idmap(r, tok, ids):
    return [(i, next(tok)) for i in ids]


IDS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 20, 21, 1000, 65536, 99999]


def s_sim(r, tok):
    kind = r.choice(["cams", "lms", "cmap", "cmap", "lmap", "lmap"])
    if kind in ("cams", "lms"):
        n = r.choice([0, 1, 2, 3, 8])
        return ("sim", kind, table(idmap(r, tok, range(n))), table(idmap(r, tok, range(n))))
    x = r.sample(IDS, r.randint(0, 9))
    y = r.sample(IDS, r.randint(0, 9))
    if r.random() < 0.3:
        y = [i + r.choice([0, 0, 0, 1]) * 100000 for i in x]
    return ("sim", kind, table(idmap(r, tok, x)), table(idmap(r, tok, y)))


def s_filter(r, tok):
    n = r.choice([0, 1, 2, 3, 5, 12])
    f = [(next(tok), r.randint(0, 3)) for _ in range(n)]
    k = r.randrange(4)
    keep = [] if n == 0 else sorted(r.sample(range(n), r.randint(0, n))) if k < 2 else [r.randrange(n) for _ in range(r.randint(0, n))] if k == 2 else list(reversed(range(n)))
    return ("filter", table(f), str(n + r.choice([0, 0, 0, 1, 5])), ",".join(map(str, keep)), r.choice("df"), r.choice(["both", "both", "one"]))


def s_optcam(r, tok):
    frames = r.sample([0, 1, 2, 3, 4, 5, 9, 10, 500, 70000], r.randint(0, 6))
    ids = r.sample([0, 1, 2, 3, 4, 5, 6, 7, 300, 301], r.randint(0, 7))
    tr, used = [], {}
    for i in ids + ([r.choice(ids)] if ids and r.random() < 0.3 else []):
        fs = [f for f in sorted(r.sample([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 500, 70000], r.randint(0, 9))) if f not in used.get(i, ())]
        used.setdefault(i, set()).update(fs)
        tr.append("%d/%s" % (i, table([(f, 0 if r.random() < 0.15 else next(tok)) for f in fs])))
    if r.random() < 0.5:
        r.shuffle(tr)
    lm = [i for i in ids if r.random() < 0.75] + r.sample([50, 51, 52, 1000], r.randint(0, 2))
    a = [table(idmap(r, tok, frames)), "/".join(tr), table(idmap(r, tok, lm))]
    if r.random() < 0.12:
        for i in r.sample(range(3), r.choice([1, 1, 2, 3])):
            a[i] = "null"
    return ("optcam", *a, r.choice(["new", "new", "odd", "keep", "throw"]))


PLACES = ["d", "d/e", "f", "d/g", "l", "l/g", "l/e", "d/k", "n", "none", "d/none", "none/x", "d/e/x", "l/x", "f/x", "d/../f", "d/e/../g", "./f", "d/./g", "d//g",
          "n/x", "d/e/..", ".", "..", "d/k/x", "l/k", "l/e/../g", "d/e/../../f", "new.png", "d/new.png", "l/e/new", "d/g/../x", "d/"]


def s_io(r):
    p = r.choice(PLACES)
    op = r.choice(["load", "save"])
    # the text of a path decides what is written to: places beyond a link are left out, as are names that end in a slash
    if op == "save" and (p.endswith(("/", "/..")) or p in ("..", ".", "d/g/../x") or "l/e/.." in p):
        p = "d/x"
    if op == "load" and p in ("..",):
        p = "f"
    return ("io", op, ("/" if r.random() < 0.5 else "") + p, r.choice(["img", "img", "null"]))


def script(r):
    def toks():
        t = r.randint(1, 40)
        while True:
            yield t
            t += r.randint(1, 7)
    tok = toks()
    ops = []
    for _ in range(r.randint(2, 7)):
        k = r.randrange(10)
        ops.append(s_est(r, tok) if k < 3 else s_sim(r, tok) if k < 5 else s_filter(r, tok) if k < 6 else s_optcam(r, tok) if k < 8 else s_io(r) if k < 9 else
                   ("zone", str(r.randint(-360, 360)), str(r.choice([r.randint(-720, 720), r.randint(-3000, 3000), 24 * r.randint(-30, 30), 720, -720, 719, -721]))))
    return ops


def c30(run):
    sc = run.tlc_scripts("MCFront", "MCFront.cfg", consts={"MaxId": run.n(4, 5)})
    sc += run.tlc_scripts("MCFront", "MCFront.cfg", consts={"Mode": '"opt"', "MaxId": 1, "Frames": run.n(2, 3)})
    if not run.quick:
        run.model_check("MCFront", "MCFront.cfg", consts={"Mode": '"opt"', "MaxId": 2, "Frames": 2})
    run.must_fail("MCFront", "MCFront.cfg", consts={"Broken": '"lesser"'})
    for b in ("nofeat", "nolm", "carry"):
        run.must_fail("MCFront", "MCFront.cfg", consts={"Broken": '"%s"' % b, "Mode": '"opt"', "MaxId": 1})
    exe = vlib.build("asan", ("vital",), "h_front", libs=["vital", "vital_config", "vital_logger", "kwiversys"])[0]
    run.conform(exe, "TraceFront", [[o for s in sc[i:i + 20] for o in s] for i in range(0, len(sc), 20)], label="tlc")
    run.conform(exe, "TraceFront", [script(run.rng) for _ in range(run.n(2500, 40000))], label="rnd")
    run.conform(exe, "TraceFront", [[("io", op, s + p, "img")] for op in ("load", "save") for p in PLACES for s in ("", "/")
                                    if not (op == "save" and (p.endswith(("/", "/..")) or p in ("..", ".", "d/g/../x") or "l/e/.." in p)) and p != ".."], label="io")
    run.conform(exe, "TraceFront", [[("zone", str(lat), str(q)) for q in range(lo, lo + 60)] for lat in (-360, -40, 0, 224, 336) for lo in range(-1500, 1500, 60)], label="zone")
