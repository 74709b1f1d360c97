"""C13, C14: track, landmark and camera files, against spec/DataFiles.tla."""
import struct
import vlib


def harness():
    return vlib.build("asan", ("vital",), "h_data", libs=["vital", "vital_config", "vital_logger", "kwiversys"])[0]


def g(x):
    return "%.17g" % x


def num(r):
    k = r.random()
    if k < 0.3:
        return str(r.randint(-3, 12))
    if k < 0.5:
        return g(r.choice([0.5, 0.1, 1.25, -0.75, 1234.56789, 123456.789012, 500123.4375, 1e-7, 3.0000001, 1e10, -1e-300, 1.7e308, 4.9e-324]))
    return g(r.uniform(-1, 1) * 10 ** r.randint(-3, 7))


def fnum(r):
    return g(struct.unpack("f", struct.pack("f", float(r.uniform(-1, 1) * 10 ** r.randint(-2, 6))))[0])


def byte(r):
    return str(r.choice([0, 1, 7, 8, 9, 10, 13, 32, 48, 127, 128, 200, 254, 255]))


def wtrk(r, p):
    op = ["wtrk", p]
    ids = r.sample([0, 1, 2, 3, 7, 10, 11, 100, 1000000, 5000000000, -1], r.randint(0, 5) if r.random() < 0.9 else 0)
    if r.random() < 0.05:
        ids = list(range(r.randint(20, 60)))
    for i in ids:
        kind = r.choice("ddf")
        op += ["T", str(i), kind]
        f = r.choice([0, 1, -3, 100, 2000000])
        for _ in range(r.choice([0, 1, 1, 2, 3, 8])):
            n = fnum if kind == "f" else num
            op += ["S", str(f)] + [n(r) for _ in range(5)] + [byte(r) for _ in range(3)]
            f += r.choice([1, 1, 2, 30, 999, 1001, 65536, 2000000])
    return tuple(op)


def good_line(r, i, f):
    return [str(i), str(f)] + [num(r) for _ in range(5)] + [byte(r) for _ in range(3)]


BADW = ["x", "abc", "1x", "-", "#", "nan?", "--1", "e5", ",", "0x", "'1'"]


def put_trk(r, p):
    lines, f = [], {}
    for _ in range(r.randint(0, 6)):
        i = r.choice([1, 2, 3])
        f[i] = f.get(i, r.randint(0, 3)) + r.randint(1, 3)
        lines.append(good_line(r, i, f[i]))
    if r.random() < 0.75 and lines:  # break one line
        q = r.choice(lines)
        k = r.random()
        if k < 0.5:
            del q[r.randint(1, 9):]
        elif k < 0.9:
            w = r.randint(0, 9)
            q[w] = r.choice(["256", "-1", "1000", "x"]) if w > 6 else r.choice(BADW) if w > 1 else r.choice(["x", "a1", ".", "-"])
        else:
            q.insert(r.randint(0, 8), "junk")
    return ("put", p) + tuple(" ".join(q) for q in lines)


PATHS = ["a.txt", "b.txt", "new/c.txt", "x/y/z/d.txt", "dir", "a.txt/e.txt", "dir/f.txt", "FULL", "dir/sub"]


def s13(r):
    ops, used = [("mkdir", "dir")], []
    isdir, isfile = {"dir"}, set()
    for _ in range(r.randint(1, 6)):
        k = r.random()
        p = r.choice(PATHS)
        if k < 0.5:
            ops.append(wtrk(r, p))
            ops.append(("rtrk", p if p != "FULL" else "none"))
        elif k < 0.8:
            p = r.choice(["g.txt", "h.txt"])
            ops.append(put_trk(r, p))
            ops.append(("rtrk", p))
        elif k < 0.9:
            ops.append(("rtrk", r.choice(["dir", "none", "a.txt/e.txt", "dir/none", "a.txt"])))
        else:
            ops.append(("rtrk", r.choice(["a.txt", "b.txt", "g.txt", "new/c.txt", "dir/f.txt"])))
    return ops


def lms(r, p):
    op = ["wply", p]
    ids = r.sample([0, 1, 2, 3, 7, 10, 11, 100, 1000000, 5000000000, -5], r.randint(0, 5) if r.random() < 0.9 else 0)
    for i in ids:
        k = r.choice("ddf")
        n = fnum if k == "f" else num
        op += [k, str(i)] + [n(r) for _ in range(6)] + [byte(r) for _ in range(3)] + [str(r.choice([0, 1, 25, 1000000]))]
    return tuple(op)


def put_ply(r, p):
    names = r.sample(["x", "y", "z", "nx", "ny", "nz", "red", "green", "blue", "track_id", "observations", "quality", "flags", "Confidence"], r.randint(3, 12))
    if r.random() < 0.3:
        alt = {"nx": "vsfm_cnx", "red": "diffuse_red", "green": "diffuse_green", "blue": "Diffuse_Blue", "observations": "number_of_camera_sees_this_point", "x": "X", "track_id": "TRACK_ID"}
        names = [alt.get(n, n) for n in names]
    decl = r.randint(0, 5)
    pres = max(0, decl + r.choice([0, 0, 0, 0, 0, -1, 1, 2]))
    lines = ["ply", "format ascii 1.0"]
    if r.random() < 0.3:
        lines.append("comment property float zz")
    lines.append("element vertex %d" % decl)
    typ = {"red": "uchar", "green": "uchar", "blue": "uchar"}
    for n in names:
        lines.append("property %s %s" % (typ.get(n.lower(), "float"), n))
        if r.random() < 0.05:
            lines.append("comment in between")
    face = r.random() < 0.4
    if face:
        lines += ["element face 2", r.choice(["property list uchar int vertex_indices", "property int x"])]
    if r.random() < 0.95:
        lines.append("end_header")
    ids = r.sample(range(50), pres)
    rows = []
    for k in range(pres):
        row = []
        for n in names:
            n = n.lower()
            if n in ("red", "green", "blue") or n.startswith("diffuse"):
                row.append(byte(r))
            elif n == "track_id":
                row.append(str(ids[k]))
            elif n in ("observations", "number_of_camera_sees_this_point"):
                row.append(str(r.randint(0, 9)))
            elif n in ("quality", "flags", "confidence"):
                row.append(r.choice(["0.5", "1", "abc", "n/a"]))
            else:
                row.append(num(r))
        rows.append(row)
    if rows and r.random() < 0.3:
        q = r.choice(rows)
        if r.random() < 0.5:
            del q[r.randint(1, len(q) - 1):]
        else:
            w = r.randrange(len(q))
            q[w] = r.choice(["x", "abc", "#", "-"])
    for row in rows:
        lines.append(" ".join(row))
        if r.random() < 0.05:
            lines.append("")
    if face:
        lines += ["3 0 1 2", "3 2 1 0"]
    return ("put", p) + tuple(lines)


ROT = [[1, 0, 0, 0, 1, 0, 0, 0, 1], [0, -1, 0, 1, 0, 0, 0, 0, 1], [0, 0, 1, 1, 0, 0, 0, 1, 0], [-1, 0, 0, 0, -1, 0, 0, 0, 1], [1, 0, 0, 0, 0, -1, 0, 1, 0]]


def cnum(r):
    return g(round(r.uniform(-1, 1) * 10 ** r.randint(-2, 4), r.randint(0, 6)))


def wcam(r, p):
    f = r.uniform(1, 3000)
    q = [r.uniform(-1, 1) for _ in range(4)]
    if r.random() < 0.3:
        q = r.choice([[1, 0, 0, 0], [0, 1, 0, 0], [0.5, 0.5, 0.5, 0.5], [1, 0, 0, 1], [0, 0, 0, 1], [1e-6, 1, 0, 0]])
    d = [g(r.uniform(-2, 2)) for _ in range(r.choice([0, 0, 1, 2, 3, 4, 5, 8]))]
    if d and r.random() < 0.2:
        d = ["0", "0", "0.5"]
    return ("wcam", p, g(f), r.choice(["0", g(r.uniform(-3, 3))]), cnum(r), g(f * r.choice([1, 1, 0.9, 1.3])), cnum(r)) + tuple(g(x) for x in q) + tuple(cnum(r) for _ in range(3)) + tuple(d)


def put_cam(r, p):
    w = [r.randint(1, 2000), r.randint(-2, 2), r.randint(-500, 500), 0, r.randint(1, 2000), r.randint(-500, 500), 0, 0, 1] + r.choice(ROT) + [r.randint(-99, 99) for _ in range(3)] + [r.randint(-3, 3) for _ in range(r.choice([0, 1, 2, 5]))]
    if len(w) == 22 and r.random() < 0.5:
        w[21] = 0
    w = [str(x) for x in w]
    k = r.random()
    if k < 0.25:
        w = w[:r.randint(0, 22)]
    elif k < 0.45:
        w[r.randrange(len(w))] = r.choice(["x", "abc", "#", "--2"])
    return ("putcam", p) + tuple(w)


IMGS = ["img1.png", "img2.png", "a/img3.jpg", "/abs/img.4.tif", "img5", "dir/img6.x.y", "img1.jpg", "i m.png", "sub.png", ".hidden"]


def base(i):
    i = i.rsplit("/", 1)[-1]
    return i.rsplit(".", 1)[0] if "." in i else i


def s14(r):
    ops = [("mkdir", "dir")]
    for _ in range(r.randint(1, 4)):
        k = r.random()
        if k < 0.25:
            p = r.choice(PATHS)
            ops += [lms(r, p), ("rply", p if p != "FULL" else "none")]
        elif k < 0.5:
            ops += [put_ply(r, "p.ply"), ("rply", "p.ply")]
        elif k < 0.6:
            p = r.choice(PATHS)
            ops += [wcam(r, p), ("rcam", p if p != "FULL" else "none")]
        elif k < 0.7:
            ops += [put_cam(r, "c.krtd"), ("rcam", "c.krtd")]
        elif k < 0.75:
            ops.append((r.choice(["rply", "rcam"]), r.choice(["dir", "none", "dir/none", "p.ply", "a.txt"])))
        else:
            dr = r.choice(["cams", "cams", "dir", ""])
            if dr == "cams":
                ops.append(("mkdir", "cams"))
            pre = dr + "/" if dr else ""
            imgs = [r.choice(IMGS) for _ in range(r.randint(0, 5))]
            bad = r.random() < 0.15
            for i in set(imgs):
                q = r.random()
                if q < 0.4:
                    ops.append(wcam(r, pre + base(i) + ".krtd"))
                elif q < 0.55 and bad:
                    ops.append(put_cam(r, pre + base(i) + ".krtd"))
                elif q < 0.62 and base(i) == "sub":
                    ops.append(("mkdir", pre + "sub.krtd"))
            if r.random() < 0.3:
                ops.append(wcam(r, pre + "other.krtd"))
            ops.append(("rcams", r.choice([dr, dr, dr, dr, "nodir"])) + tuple(imgs))
    return ops


def fixdirs(ops):
    """A scratch directory that became a file stays one: drop operations of ours that could not be carried out."""
    out, files, dirs = [], set(), set()
    for o in ops:
        if o[0] in ("put", "putcam") and o[1] in dirs:
            continue
        if o[0] == "mkdir":
            if o[1] in files:
                continue
            dirs.add(o[1])
        elif o[0] in ("put", "putcam", "wcam", "wply", "wtrk"):
            files.add(o[1])
        out.append(o)
    return out


def c13(run):
    run.model_check("MCDataFiles", consts={"MaxCols": 1, "MaxStates": run.n(2, 3)})
    exe = harness()
    run.conform(exe, "TraceDataFiles", [fixdirs(s13(run.rng)) for _ in range(run.n(1500, 20000))], label="rnd")


def c14(run):
    sc = run.tlc_scripts("MCDataFiles", consts={"MaxCols": run.n(2, 3)}, limit=run.n(800, 5000))
    exe = harness()
    run.conform(exe, "TraceDataFiles", sc, label="tlc")
    run.conform(exe, "TraceDataFiles", [fixdirs(s14(run.rng)) for _ in range(run.n(1500, 20000))], label="rnd")
