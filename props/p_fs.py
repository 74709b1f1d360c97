"""C35: file-system helpers."""
import vlib


def harness():
    return vlib.build_kw("h_fs")


DN = ["a", "b", "c", "ab"]
FN = ["f", "g", "f.x", "h.txt", ".h", "..x", "..."]
TEXT = ["", "x", "y", "xy", "line\n", "a\tb\r\n", "12\x01\x02", "\x01\x02\x03", "\x80\x81abcdef", "0123456789" * 6, "RLE:65a", "RLE:4096a", "RLE:4096a1b", "RLE:4095a1b", "RLE:8192a", "RLE:4095a1c4b", "RLE:5000a3b"]
# of equal lengths, alike up to somewhere
ALIKE = [("xy", "xx"), ("RLE:4096a1b", "RLE:4096a1c"), ("RLE:8192a", "RLE:8191a1b"), ("RLE:4095a1b1c", "RLE:4095a1c1b"), ("RLE:5000a", "RLE:4999a1b"), ("RLE:1b4999a", "RLE:1a1b4998a"), ("RLE:20000a", "RLE:16384a3616b")]
MODES = [0, 64, 128, 192, 256, 320, 384, 420, 448, 493, 511, 438, 292]


def s35(r, trees):
    ops = []
    cwd = [True]                          # at the root

    def dirp(k=None):
        return "/" + "/".join(r.choice(DN) for _ in range(r.choice([1, 1, 2, 3]) if k is None else k))

    def filep():
        return (r.choice(["", dirp(1), dirp(2)])) + "/" + r.choice(FN)

    def anyp(rel=True):
        p = r.choice([dirp, filep])()
        if not trees:
            if r.random() < 0.12:
                p = r.choice(["/l", "/a/l", "/m"]) + r.choice(["", p])
            if r.random() < 0.08:
                p = "/a/.." + p
            if r.random() < 0.08:
                p = "/." + p
            if r.random() < 0.03:
                p = "/"
        if rel and r.random() < 0.15:
            p = p[1:]
        return p

    def maybe(p):
        return p + "/" if r.random() < 0.06 and not p.endswith("/") else p
    if r.random() < 0.9:
        ops += [("mkdir", "/a/b"), ("write", "/a/f", "x"), ("write", "/g", "xy"), ("mkdir", "/c")]
    for _ in range(r.choice([5, 8, 12, 18])):
        k = r.random()
        if k < 0.12:
            ops.append(("write", filep(), r.choice(TEXT)))
        elif k < 0.15:
            ops.append(("stamp", filep(), r.choice([10, 20, 30])))
        elif k < 0.22:
            ops.append(("mkdir", maybe(dirp() if trees else anyp())))
        elif k < 0.30:
            if trees:
                ops.append(("link", "/" + r.choice(FN), r.choice(["", dirp(1), dirp(2)]) + "/k"))
            else:
                d = r.choice(["/l", "/a/l", "/m", "/a/b/k", "/c/k", filep()])
                t = r.choice([dirp(), filep(), "/l", r.choice(DN), r.choice(FN), "l", "", "nothing"] + (["../" + r.choice(DN + FN)] if d.count("/") > 1 else []))
                ops.append(("link", t, d))
        elif k < 0.38:
            ops.append(("chmod", anyp(), r.choice(MODES), r.choice([0, 0, 1])))
        elif k < 0.52:
            src = filep() if r.random() < 0.8 or trees else anyp()
            ops.append(("copy", src, r.choice([filep, dirp])() if trees else anyp(), r.choice([0, 1, 1])) + ((1,) if r.random() < 0.3 else ()))
        elif k < 0.57 and trees or k < 0.54:
            a, b = dirp(), dirp()
            if trees and not (b + "/").startswith(a + "/") and not (a + "/").startswith(b + "/"):
                ops.append(("copytree", a, b, r.choice([0, 1])))
        elif k < 0.61:
            ops.append(("rmfile", anyp()))
        elif k < 0.66:
            p = r.choice([dirp(), dirp(), anyp(False)]) if trees else anyp(False)
            if p.strip("/.") != "":
                ops += [("cd", "/"), ("rmtree", p)]
        elif k < 0.70:
            ops.append(("touch", anyp(), r.choice([0, 1, 1])))
        elif k < 0.72 and not trees:
            ops.append(("cd", r.choice(["/", dirp(), anyp(False)])))
        elif k < 0.74:
            ops.append((r.choice(["exists", "isdir", "islink", "len", "perms", "readlink", "real"]), maybe(anyp())))
        elif k < 0.75:
            ops.append(("exists", ""))
        elif k < 0.79:
            ops.append((r.choice(["exists", "isdir", "islink", "len", "perms", "readlink", "real"]), anyp()))
        elif k < 0.80:
            ops.append(("access", anyp(), r.randrange(8)))
        elif k < 0.84:
            if r.random() < 0.3:
                t, f, g = r.choice(ALIKE), filep(), filep()
                ops += [("write", f, r.choice(t)), ("write", g, r.choice(t)), ("differ", f, g)]
            else:
                ops.append((r.choice(["same", "differ", "differ", "times"]), anyp(), anyp()))
        elif k < 0.87:
            ops.append(("list", r.choice([dirp(), anyp()])))
        elif k < 0.90:
            ops.append(find(r, dirp, anyp))
        elif k < 0.92:
            ops.append(("locate", r.choice(["", dirp(), dirp(1)]) + "/" + r.choice(FN + DN), r.choice([dirp(), filep(), "/"]), r.choice([0, 1])))
        elif k < 0.96:
            ops.append(glob(r))
        elif k < 0.98:
            p = pattern(r)
            ops.append(("pmatch", p, r.choice(["", "a", "f.x", "ab", "abc", "a/b", "h.txt", "[", "]", "-", "a-b", "!", "^a", "b", "aXb", p])))
        else:
            f = filep()
            # the contents must be known as they are
            ops.append(("write", f, r.choice([t for t in TEXT if not t.startswith("RLE") and len(t) <= 64])))
            ops.append(r.choice([("signed", f, r.choice(["x", "xy", "lin", "12\x01", "45", "line\n", "89"]), r.choice([0, 0, 1, 4, 8, 70])), ("kind", f, r.choice([1, 2, 3, 5, 64, 256]), r.choice([5, 10, 30, 50, 90]))]))
    return ops


def find(r, dirp, anyp):
    what = r.choice(["file", "dir", "program"])
    dirs = [r.choice([dirp(), dirp(), "/", dirp() + "/"]) for _ in range(r.choice([1, 2, 3]))]
    return ("find", what, "1", r.choice(FN + DN + DN), *dirs)


def pattern(r):
    n = r.choice([1, 1, 2, 3, 4])
    return "".join(r.choice(["*", "*", "?", "a", "b", "f", "x", ".", "g", "[ab]", "[!a]", "[a-c]", "[^f-g]", "[]a]", "[.]", "h", "t", "+", "(", "{", "$", "["]) for _ in range(n))


def glob(r):
    comps = []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        while True:
            c = r.choice([r.choice(DN), r.choice(FN), "*", "?", "l", "*", pattern(r), pattern(r)])
            # an open bracket must not reach over a separator
            if c not in (".", "..") and (c.count("[") == 0 or "]" in c) and "/" not in c:
                break
        comps.append(c)
    return ("glob", r.choice(["/", "/", ""]) + "/".join(comps), r.choice([0, 1]), r.choice([0, 1]), r.choice([0, 1, 1]), r.choice([0, 1]), r.choice(["", "", "", "/a", "/a/b", "/c"]))


def c35(run):
    exe = harness()
    scripts = run.tlc_scripts("MCFileTree", "MCFileTree.cfg", limit=run.n(1500, 20000))
    run.conform(exe, "TraceFileTree", scripts, label="every short history of a small tree", chunk=250)
    run.must_fail("MCFileTree", "MCFileTree.cfg", {"ThroughLinks": "TRUE"})
    if not run.quick:
        run.model_check("MCFileTree", "MCFileTree.cfg", {"Depth": 3})
    r = run.rng
    more = []
    for i in range(run.n(700, 9000)):
        s = s35(r, i % 3 == 0)
        if r.random() < 0.15:
            s.insert(len(s) // 2, ("sys", r.choice(["/a", "/c"]), "/a/b"))
            s.append(("find", r.choice(["file", "dir", "program"]), "0", r.choice(FN + DN), "/c"))
        more.append(s)
    run.conform(exe, "TraceFileTree", more, label="random histories", chunk=60)
    run.assumptions.append("the helpers run as an unprivileged user, below a scratch directory; one process at a time")
