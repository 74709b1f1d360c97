"""C42: text helpers, command lines, lines of streams, against spec/Texts.tla."""
import vlib

NULL = "<null>"
PARTS = ["a", "b", "ab", "A", "Z", "0", "9", "_", " ", "  ", "\t", "\n", "/", "//", "\\", "\\ ", ".", "-", ":", "\"", "'", "aB", "Foo", "xyz", "HTML", "é", "\r\n", "\r", "a=b", "~", "$", "F0"]
PLAIN = [p for p in PARTS if p != "é"]


def text(r, n=6, parts=PARTS):
    return "".join(r.choice(parts) for _ in range(r.randint(0, n)))


def orNull(r, s, p=0.08):
    return NULL if r.random() < p else s


def s_repl(r):
    al = r.choice([["a", "b"], ["a", "b", "ab", "aab"], PARTS])
    s, x = text(r, 12, al), text(r, 3, al)
    y = r.choice(["", x + x, text(r, 3, al), "c", NULL, x])
    return ("repl", s, x, y)


def s_find(r):
    al = r.choice([["a", "b", "A", "B"], PLAIN])
    s = text(r, 6, al)
    k = r.randrange(5)
    x = text(r, 2, al) if k == 0 else s[: r.randint(0, len(s))] if k == 1 else s[r.randint(0, len(s)):] if k == 2 else s.swapcase() if k == 3 else s + text(r, 1, al)
    return ("find", orNull(r, s), orNull(r, x))


def s_split(r):
    c = r.choice([",", "/", "\n", " ", ":", "a"])
    s = text(r, 9, ["a", "bb", c, c, "\n", "\r", "\r\n", "/", "c"])
    return ("split", s, c) + tuple("held%d" % i for i in range(r.choice([0, 0, 1, 3])))


def s_cmd(r):
    q = []
    for _ in range(r.randint(0, 25)):
        t = r.choice(["a", "b", "c", " ", " ", "\t", "\n", "\\", "'", "\"", "é", "-x", "=", "\f", "\r"])
        k = r.choice([1] * 8 + [2, 3, 4])
        q += [t, str(k)]
    if r.random() < 0.3:  # one argument longer than the first buffers, or many arguments
        if r.random() < 0.5:
            i = 2 * r.randrange(len(q) // 2 + 1)
            q[i:i] = [r.choice(["a", " ", "\\", "'"]), str(r.choice([1022, 1023, 1024, 1025, 2047, 2048, 2049, 5000]))]
            if r.random() < 0.5:
                q[0:0] = [r.choice(["'", "\"", "z"]), "1"]
        else:
            q = [r.choice(["a ", "x\t", "'' ", "bc\n"]), str(r.choice([31, 32, 33, 63, 64, 65, 130]))] + q
    return ("cmdline", str(r.choice([0] * 9 + [1])), *q)


def s_stream(r):
    q = []
    for _ in range(r.randint(0, 9)):
        c = r.choice([97, 97, 98, 10, 10, 13, 13, 0, 32, 255])
        n = r.choice([1, 1, 1, 2, 3, 1020, 1021, 1022, 1023, 1024, 2046, 2047, 5000]) if c in (97, 98, 13) and r.random() < 0.5 else r.choice([1, 1, 2])
        q += [str(c), str(n)]
    ops = [("sopen", *q)]
    for _ in range(r.randint(2, 9)):
        ops.append(("sline", r.choice(["", "", "", "1", "2", "3", "1022", "1023", "1024", "2046", "3000"]), r.choice("01")))
    return ops


def num(r, big):
    return str(r.choice([0, 1, -1, 7, -42, 255, 4096, 99999, -100000, 2147483647, -2147483648] if big else [0, 1, 9, 10, 15, 16, 255, 256, 65535, 1000000, 2147483647]))


def s_fmt(r):
    q, args = [], 0
    for _ in range(r.randint(0, 6)):
        k = r.choice(["t", "t", "%", "d", "ld", "x", "lx", "c", "s", "s", "f", "lf", "e"])
        if k in ("t", "%"):
            q += [k, r.choice(["", "x", "hello world", "100 ", "=" * 70]) if k == "t" else "", "", "", ""]
            continue
        w = r.choice(["", "", "", "1", "7", "63", "64", "65", "66", "100", "200", "1000"])
        how = r.choice(["", "", "-", "0", "*"]) if w else ""
        if how == "0" and k in ("c", "s"):
            how = ""
        need = 1 + (how == "*")
        if args + need > 4:
            continue
        args += need
        p = r.choice(["", "", "", "1", "5", "60", "64", "90", "300"]) if k != "c" else ""
        if k == "c":
            v = str(r.choice([65, 32, 48, 126]))
        elif k == "s":
            v = r.choice(["", "a", "some text", "y" * 64, "z" * 200])
            if r.random() < 0.2:
                p = "0"
        elif k in ("f", "lf"):
            v = r.choice(["0", "1", "-1", "123456", "-98304", "1" + "0" * 15, "-9" + "0" * 22, "1" + "0" * 22, "1267650600228229401496703205376", str(2 ** 300), str(-2 ** 1000)])
        elif k == "e":
            v = r.choice(["0", "1", "-1", "123456", "1" + "0" * 22, str(2 ** 300), str(-2 ** 400), str(2 ** 1000)])
            if v not in ("0", "1", "-1") and p and int(p) < 30:
                p = ""
        else:
            v = num(r, k in ("d", "ld"))
        q += [k, v, w, p, how]
    return ("fmt", *q)


MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def s_date(r):
    m = r.choice(MON) if r.random() < 0.85 else r.choice(["anF", "nFe", "ebM", "jan", "JAN", "   ", "Xyz", "cJa", "ecD", "Foo"])
    y = r.choice([1970, 1971, 1972, 1999, 2000, 2001, 2003, 2016, 2024, 2038, 2100, 2101, 2399, 2400])
    d = r.choice([1, 2, 9, 10, 19, 28, 28])
    pad = r.choice(["%2d", "%02d"]) % d
    if r.random() < 0.5:
        s, k = "%s %s %d" % (m, pad, y), "date"
    else:
        s, k = "%s %s %s %02d:%02d:%02d %d" % (r.choice(["Mon", "Fri", "Sun"]), m, pad, r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), y), "stamp"
    x = r.random()
    if x < 0.15:
        s = s[: r.randint(0, len(s) - 1)]
    elif x < 0.22:
        s += r.choice([" ", "\n", "  ", "   ", " more text than there is room for"])
    elif x < 0.25:
        s = NULL
    return ("date", k, s)


def s_env(r):
    k = r.choice(["VPA", "VPA", "VPB", "VPC", "VPA1"])
    o = r.randrange(8)
    if o < 3:
        return ("env", "put", k + "=" + r.choice(["", "x", "a=b", "=", "v w", "long" * 50, "/a/b:/c", "a:b/:/:", ":", "::", "/x//:", "a:", ":b", "//", "/"]))
    if o == 3:
        return ("env", "unput", k + r.choice(["", "", "=x", "="]))
    if o == 4:
        return ("env", "put", k)
    if o == 5:
        return ("path", k) + tuple(r.choice([(), ("held/",), ("a", "b")]))
    return ("getenv", k)


def s_prog(r):
    return ("progargs", r.choice(["", " ", "  "]) * r.choice([0, 0, 0, 1]) + r.choice(["prog", "a b", "c", "tool", "to ol", "bin/tool", "bin/to ol", "none", "x y", "dir", "a", "prog x", "", "to"])
            + r.choice(["", "", " ", " x", " b c", " ol", "  y  z ", " -o \"q r\"", "\t"]))


def script(r):
    ops = []
    for _ in range(r.randint(4, 12)):
        k = r.randrange(20)
        if k < 2:
            ops.append(s_repl(r))
        elif k < 4:
            ops.append(("case", text(r, 8)))
        elif k < 6:
            ops.append(("chars", orNull(r, text(r, 8, PLAIN)), text(r, 3, PLAIN), r.choice(["\\", "a", "/", "_"])))
        elif k < 8:
            ops.append(s_find(r))
        elif k < 9:
            ops.append(("join", *[orNull(r, text(r, 3), 0.25) for _ in range(3)]))
        elif k < 10:
            s = text(r, 8, PLAIN)
            ops.append(("crop", s, str(r.randint(0, len(s) + 2))))
        elif k < 12:
            ops.append(s_split(r))
        elif k < 13:
            ops.append(("out", text(r, 8, ["a", "b", "/", "//", " ", "\\ ", "\\", "\"", "c", "d"])))
        elif k < 14:
            ops.append(s_cmd(r))
        elif k < 15:
            ops += s_stream(r)
        elif k < 17:
            ops.append(s_fmt(r))
        elif k < 18:
            ops.append(s_date(r))
        elif k < 19:
            ops += [s_env(r) for _ in range(r.randint(1, 4))]
        else:
            ops.append(s_prog(r))
    return ops


def c42(run):
    sc = []
    for mode, n in (("cmd", run.n(5, 6)), ("line", run.n(5, 7)), ("repl", run.n(6, 8)), ("cut", run.n(7, 9))):
        for buf in ((1, 2, 3) if mode == "line" else (2,)):
            q = run.tlc_scripts("MCTexts", "MCTexts.cfg", consts={"Mode": '"%s"' % mode, "MaxLen": n, "Buf": buf})
            sc += q if buf == 2 else []
    for mode, b in (("cmd", "quotes"), ("cmd", "empty"), ("line", "cr"), ("line", "limit"), ("repl", "overlap"), ("cut", "skip")):
        run.must_fail("MCTexts", "MCTexts.cfg", consts={"Broken": '"%s"' % b, "Mode": '"%s"' % mode, "MaxLen": 4})
    exe = vlib.build_kw("h_text")
    run.conform(exe, "TraceTexts", [[o for s in sc[i:i + 40] for o in s] for i in range(0, len(sc), 40)], label="tlc")
    run.conform(exe, "TraceTexts", [script(run.rng) for _ in range(run.n(2500, 40000))], label="rnd")
