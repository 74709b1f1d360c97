"""C41: regular expressions; C34: hash containers; C32, C33, C35, C31: paths, command lines, file system, processes."""
import vlib


def harness():
    return vlib.build_kw("h_kw")


# ---- regular expressions
CLS = ["[ab]", "[^a]", "[a-c]", "[]a]", "[^]b]", "[-a]", "[a-]", "[^-b]", "[a-ce-g]", "[.*]", "[\\]", "[x]", "[a-c-e]", "[--/]", "[*-]", "[^a-z]", "[0-9]", "[A-Za-z_]", "[^\xe9]", "[a-a]"]


def rx_gen(r, d):
    k = r.random()
    if d <= 0 or k < 0.35:
        return r.choice(["a", "b", "c", "a", "b", ".", "ab", "abc", "\\.", "\\*", "\\\\", "\\(", "]", "-", "{", "\xe9", " ", r.choice(CLS), r.choice(CLS)])
    if k < 0.55:
        return "".join(rx_gen(r, d - 1) for _ in range(r.randint(2, 3)))
    if k < 0.68:
        return "(" + rx_gen(r, d - 1) + ")"
    if k < 0.8:
        return "(" + rx_gen(r, d - 1) + "|" + rx_gen(r, d - 1) + ")" + r.choice(["", "", "*", "+", "?"])
    x = rx_gen(r, d - 2)
    if len(x) > 1 and not (x[0] == "[" and x[-1] == "]" and x.count("[") == 1) and not (len(x) == 2 and x[0] == "\\"):
        x = "(" + x + ")"
    return x + r.choice("*+?*+?*")


def pattern(r):
    p = rx_gen(r, r.randint(0, 4))
    if r.random() < 0.15:
        p = "^" + p
    if r.random() < 0.15:
        p += "$"
    if r.random() < 0.1:
        p += "|" + rx_gen(r, 1)
    if r.random() < 0.12:
        i = r.randint(0, len(p))
        p = p[:i] + r.choice(["*", "(", ")", "[", "|", "\\", "?", "^", "$", "()", "(|a)", "+", "-"]) + p[i:]
    if r.random() < 0.06:
        p = "".join("(%s)" % r.choice("ab.") + r.choice(["", "?", "*"]) for _ in range(r.choice([8, 9, 9, 10])))
    if r.random() < 0.05:
        p = "".join(r.choice("ab()[]|*+?^$.\\-") for _ in range(r.randint(0, 9)))
    return p


def safe(p):
    """ranges only between the characters whose order the specification knows"""
    return all(not (c == "-" and 0 < i < len(p) - 1 and (ord(p[i - 1]) > 126 or ord(p[i + 1]) > 126)) for i, c in enumerate(p)) and len(p) <= 40


def rx_text(r, p):
    al = "".join(c for c in p if c not in "()[]|*+?^$") or "ab"
    al = r.choice([al, al, "ab", "abc.", al + "abz "])
    n = r.choice([0, 1, 2, 3, 4, 6, 8])
    if r.random() < 0.1:
        return "a" * n
    return "".join(r.choice(al) for _ in range(n))


def s41_long(r):
    """long literals: the nodes of the compiled pattern are far apart"""
    n, m = r.choice([60, 124, 125, 126, 128, 200, 252, 253, 260, 300]), r.choice([1, 1, 2, 130, 254])
    c = r.choice(["a", "ab", "abc"])
    a, b = (c * n)[:n], ("b" * m)
    v = r.choice(["(%s|%s)c", "(%s|%s)*c", "(%s)?%s", "x*%s|%s", "(%s|(%s)+)$", "(c%s)+%s", "%s[%s]"]) % (a, b)
    ops = [("comp", "x", v, r.choice(["ctor", "compile"]))]
    if r.random() < 0.5:
        ops.append(("copy", "y", "x"))
    for _ in range(r.randint(2, 4)):
        t = r.choice(["", "", "c", "x", "b"]) + r.choice([a, a, b, a[:-1], a + b, b + a, "c" + a, a + a]) + r.choice(["", "", "c", "c", b, b + "c", "z"])
        ops.append(("find", r.choice("xy") if len(ops) > 1 and ops[1][0] == "copy" else "x", t))
    return ops


def s41(r):
    ops, hs = [], {}
    for _ in range(r.randint(4, 16)):
        h = r.choice("xyz")
        k = r.randrange(12)
        if k < 3 or not hs:
            p = pattern(r)
            if not safe(p):
                continue
            ops.append(("comp", h, p, r.choice(["ctor", "sctor", "compile", "scompile"])))
            hs[h] = p
        elif k < 8:
            h = r.choice(list(hs))
            t = rx_text(r, hs[h])
            ops.append(("find", h, t, "s") if r.random() < 0.3 else ("find", h, t))
        elif k == 8:
            g = r.choice(list(hs))
            ops.append(("copy", h, g) + (("assign",) if r.random() < 0.5 else ()))
            hs[h] = hs[g]
            ops += [("show", x) for x in hs]
        elif k == 9:
            if r.random() < 0.4:
                ops.append(("new", h))
                hs[h] = ""
            elif r.random() < 0.4:
                ops.append(("inval", r.choice(list(hs))))
            else:
                ops.append(("show", r.choice(list(hs))))
        else:
            h, g = r.choice(list(hs)), r.choice(list(hs))
            ops.append(("eqv", h, g))
    # only compiled objects can be compared
    out, ok = [], set()
    for o in ops:
        if o[0] == "comp":
            out.append(o)
            ok.add(o[1])
        elif o[0] in ("new", "inval"):
            out.append(o)
            ok.discard(o[1])
        elif o[0] == "copy":
            out.append(o)
            (ok.add if o[2] in ok else ok.discard)(o[1])
        elif o[0] == "eqv":
            if o[1] in ok and o[2] in ok:
                out.append(("eqv",) + o[1:])
        else:
            out.append(o)
    return out


def c41(run):
    sc = []
    for al, n in (("ab*(|)?", 5), ("ab+^$[]-", 4), ("a.[^-]\\(", 4)) if run.quick else (("ab*(|)?", 6), ("ab+^$[]-", 5), ("a.[^-]\\(", 5), ("ab()*|", 7)):
        # in TLA+ a backslash is written twice
        sc += run.tlc_scripts("MCRegex", "MCRegex.cfg", consts={"Alphabet": '"%s"' % al.replace("\\", "\\\\"), "MaxLen": n}, limit=run.n(1500, 12000))
    exe = harness()
    run.conform(exe, "TraceRegex", sc, label="tlc", args=["regex"])
    run.conform(exe, "TraceRegex", [s41_long(run.rng) for _ in range(run.n(60, 1500))], label="long", args=["regex"])
    run.conform(exe, "TraceRegex", [s41(run.rng) for _ in range(run.n(2000, 30000))], label="rnd", args=["regex"])


# ---- path texts
NAMES = ["a", "b", "ab", "...", "..a", "a..", ".a", ".", "..", "..", "", "a.b", "a.tar.gz", "a b", "a.", "\xe9", "~", "-", "ab:b", "~zz", "~q.r"]


def ptext(r, net=True):
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 6])
    t = r.choice(["", "", "/", "/", "~/" if n else "~", "//" if net else "/"]) + "/".join(r.choice(NAMES) for _ in range(n)) + r.choice(["", "", "", "/", "//"])
    if not net:
        while t.startswith("//"):
            t = t[1:]
    return t


def base(r):
    t = "/" + "/".join(r.choice(NAMES) for _ in range(r.choice([0, 1, 2, 3, 5]))) + r.choice(["", "/"])
    return r.choice(["", "/"]) + t if r.random() < 0.1 else t


def s32(r):
    home = r.choice(["", "/h/u", "/", "/h", "/h/u/"])
    ops = [("home", home)]

    for _ in range(r.choice([8, 16, 30])):
        k = r.randrange(14)
        p, q = ptext(r), ptext(r)
        if k < 3:
            ops.append(("collapse", p, base(r), r.choice(["", "s"])))
        elif k == 3:
            ops.append(("collapse", p, "", "cwd"))
        elif k == 4:
            ops.append(("split", p, "1"))
        elif k == 5:
            ops.append(("split", r.choice([p, "~u/" + p, "~u"]), "0"))
        elif k == 6:
            ops.append(("join",) + tuple(r.choice(["", "/", "//", "a", "..", "b c"]) for _ in range(r.randint(1, 5))))
        elif k < 10:
            ops.append(("parts", p))
        elif k == 10:
            ops.append(("unix", r.choice([p, p.replace("/", "\\", 1), p.replace("/", "\\"), p.replace(" ", "\\ "), "c:/", "c:\\"])))
        elif k < 13:
            p, q = ptext(r, False), ptext(r, False)
            if r.random() < 0.6:
                p = q.rstrip("/") + r.choice(["", "/", "x", "/x", "//x/y", "/../z"])
            ops.append(("below", p, q))
        elif k == 13:
            p, q = ptext(r, False), ptext(r, False)
            if r.random() < 0.8:
                p, q = base(r), base(r)
                if p.startswith("//") or q.startswith("//"):
                    continue
                if r.random() < 0.5:
                    q = p.rstrip("/") + r.choice(["", "/x", "/..", "/../x", "/./x/y"])
            if not p.startswith("~") and not q.startswith("~"):
                ops.append(("rel", p, q))
    return ops


def c32(run):
    sc = []
    for al, n, home in (("/.a", 7, "/h/u"), ("~/.a", 5, "/"), ("~/a", 5, "/h/u/"), ("/\\\\ a:", 4, "/h")) if run.quick else (("/.a", 9, "/h/u"), ("~/.a", 7, "/"), ("~/a", 7, "/h/u/"), ("/\\\\ a:", 6, "/h"), ("/.ab", 7, "/h")):
        sc += run.tlc_scripts("MCPaths", "MCPaths.cfg", consts={"Alphabet": '"%s"' % al, "MaxLen": n, "Home": '"%s"' % home}, limit=run.n(1500, 12000))
    run.must_fail("MCPaths", "MCPaths.cfg", {"UpAtRoot": "FALSE"})
    exe = harness()
    run.conform(exe, "TracePaths", sc, label="tlc", args=["path"], env={"PWD": ""})
    run.conform(exe, "TracePaths", [s32(run.rng) for _ in range(run.n(2500, 40000))], label="rnd", args=["path"], env={"PWD": ""})
    run.assumptions += ["POSIX rules; names with backslashes or drive letters only for ConvertToUnixSlashes; names of other users that exist not generated"]
