"""C31: processes, against spec/Process.tla (and spec/ProcessImpl.tla)."""
import os
import vlib


def harness(run):
    exe = vlib.build_kw("h_proc")
    d = run.sub("child")
    child = os.path.join(d, "pr) S 1 (c")
    rc, out = vlib.sh(["gcc", "-O1", "-w", "-o", child, os.path.join(vlib.VERIF, "harness", "proc_child.c")])
    if rc:
        raise vlib.MachineryError(out)
    return exe, child


WORDS = ["a", "b", "ab", "xy", "hello", "0", "line\\n", "z z"]
ODD = ["", " ", "a b", "\"", "'", "\\", "a\\b", "$HOME", "*", ";", "x=1", "--", "a\"b c", "-n", "\\\\", "'q'", "%d"]
SIGS = [2, 6, 9, 11, 15, 8, 4, 7, 1, 3, 10, 12, 13, 14, 40]


def command(r, n, i, reads, big, hang, det):
    """the actions of command i of n"""
    a = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        k = r.random()
        a.append(("o=" if k < 0.6 else "e=") + r.choice(WORDS) if k < 0.85 else "cwd" if k < 0.92 else "fds" if i == 0 or k < 0.96 else "nap=20")
    if reads and r.random() < 0.8:
        a.insert(r.randint(0, len(a)), r.choice(["cat", "cat", "drain"]))
    if big:
        a.append("O=%d" % big)
    if hang:
        if not det and r.random() < 0.15:
            a.append("close")
        if r.random() < 0.3:
            a += r.choice([["kid"], ["kid", "kid"], ["brood"], ["kid", "brood", "kid"]])
        return a + ["hang"]
    k = r.random()
    if k < 0.3:
        return a + ["x=%d" % r.choice([0, 1, 2, 3, 77, 255])]
    if k < 0.5:
        return a + ["k=%d" % r.choice(SIGS)]
    if k < 0.6:
        return a + ["args"] + [r.choice(ODD) for _ in range(r.randint(0, 4))]
    return a


def analyse(cmds):
    """(does the pipeline hang, how many processes are left then)"""
    eof, hang, left = True, False, 0
    for a in cmds:
        end, closed, kids = None, False, 0
        for x in a:
            if x == "close":
                closed = True
            elif x == "kid":
                kids += 1
            elif x == "brood":
                kids += 2
            elif x == "hang" or (x in ("cat", "drain") and not eof):
                end = "hang"
                break
            elif x[:2] in ("x=", "k=") or x == "args":
                break
        hang = hang or end == "hang"
        left += (end == "hang") + kids
        eof = end != "hang" or closed
    return hang, left


def life(r, i, alone, real, sharers):
    """what happens to object i, in order"""
    ops = [("new", i)]
    I = lambda *a: ops.append((a[0], i) + a[1:])
    m = ["shared", "own", "own"]
    opt = {}
    tmo = 0
    infile = {}
    dirty = False
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        # settings
        for o in ("detach", "merge", "verbatim", "group"):
            if r.random() < (0.15 if o == "detach" else 0.25):
                opt[o] = not opt.get(o, False)
                I("opt", o, int(opt[o]))
        det, group, merge = opt.get("detach", False), opt.get("group", False), opt.get("merge", False)
        wd = r.choice(["", "", "", "d1", "/d1"]) if r.random() < 0.95 else "nodir"
        I("wd", wd if wd != "/d1" else "/d1") if wd or r.random() < 0.3 else None
        if not wd and ops[-1][0] != "wd":
            I("wd", "")
        # what a detached process writes may come later
        dirty = dirty or det
        fresh = set()
        for k in range(3):
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                c = r.random()
                if c < 0.3:
                    f = r.choice(["in1", "in2", "in1" if not wd else "in2"]) if k == 0 else r.choice(["f%d_%d" % (k, i)] * 9 + ["nodir/f"])
                    I("file", k, f)
                    m[k] = "file"
                    infile[k] = f
                elif c < 0.4:
                    I("file", k, "")
                    m[k] = "own" if m[k] == "file" else m[k]
                elif c < 0.6 and (alone if k == 0 else i in sharers):
                    I("shared", k, 1)
                    m[k] = "shared"
                elif c < 0.7:
                    I("shared", k, 0)
                    m[k] = "own" if m[k] == "shared" else m[k]
                elif c < 0.9:
                    I("native", k, 1)
                    m[k] = "native"
                    fresh.add(k)
                else:
                    I("native", k, 0)
                    m[k] = "own" if m[k] == "native" else m[k]
            if m[k] == "native" and k not in fresh:
                I("native", k, 1)
        if not alone and m[0] == "shared":
            I("shared", 0, 0)
            m[0] = "own"
        n = r.choice([1, 1, 1, 2, 2, 3])
        wanthang = r.random() < 0.35
        hangat = r.randrange(n) if wanthang else -1
        big = r.choice([1000, 1024, 1025, 5000, 70000, 200000]) if not wanthang and r.random() < 0.2 else 0
        if "native" in m and big > 30000:
            big = 3000
        cmds = []
        for j in range(n):
            c = command(r, n, j, j > 0 or m[0] != "own", 0, j == hangat, det)
            cmds.append(c)
        # what is in the pipes when the process has ended
        burst = not big and not wanthang and not det and not any(x in ("file", "native") for x in m[1:]) and r.random() < 0.1
        if burst:
            cmds = [[r.choice("EEO") + "=%d" % r.choice([1000, 1023, 1024, 1025, 2048, 3072, 5000]) for _ in range(r.randint(1, 3))] + r.choice([[], ["x=3"]])]
        if big:
            cmds = [["O=%d" % big] + r.choice([[], ["x=3"]])] + [["cat"] for _ in range(n - 1)]
        if merge and len(cmds) > 2:
            cmds = cmds[:2]
        writers = sum(1 for c in cmds if any(x.startswith("e=") for x in c)) + (1 if merge else 0)
        hang, left = analyse(cmds)
        kinds = ["run"] * len(cmds)
        if r.random() < 0.08 and not det:
            kinds[r.randrange(len(cmds))] = r.choice(["missing", "noexec", "empty"])
        for j, c in enumerate(cmds):
            I("cmd", "set" if j == 0 else "add", kinds[j], *(c if kinds[j] != "empty" else []))
        none = False
        if r.random() < 0.02:
            I("cmd", "clear", "run")
            none = True
        real_cmds = [c for c, k in zip(cmds, kinds) if k != "empty"]
        none = none or not real_cmds
        hang, left = analyse(real_cmds)
        nt = 0 if real or (hang and det) else r.choice([0, 0, 200, 60000, -5]) if not hang else r.choice([0, 200, 200])
        if nt != tmo or r.random() < 0.1:
            I("tmo", nt)
            tmo = nt
        bad = any(k in ("missing", "noexec") for k in kinds)
        nofork = r.randint(1, len(cmds)) if r.random() < 0.04 and not det and "empty" not in kinds else 0
        I("exec", nofork)
        if bad or nofork or none or wd == "nodir" or (m[0] == "file" and infile[0] != ("in2" if wd else "in1")) or any(m[k] == "file" and infile[k][:5] == "nodir" for k in (1, 2)):
            # it does not start
            for _ in range(r.choice([1, 2, 3])):
                o = r.choice([("read", "none"), ("wait", "none"), ("kill",), ("disown",), ("settle",), ("alive", 0), ("idle",), ("readall",), ("opt", "merge", 0)])
                I(*o)
                if o[0] == "opt":
                    opt["merge"] = False
            continue
        toggled = False
        # while it runs
        for _ in range(r.choice([0, 1, 2, 2, 3, 5])):
            c = r.random()
            if c < 0.3:
                lim = r.choice(["0", "30", "-10"]) if hang and tmo <= 0 else r.choice(["0", "30", "-10", "20000", "none"]) if not hang else r.choice(["0", "30", "none", "20000"])
                if hang and det and tmo <= 0:
                    lim = r.choice(["0", "30"])
                I("read", lim)
            elif c < 0.4:
                if writers <= 2 and not big and not burst and not merge:
                    I("wait", r.choice(["0", "20"]))
            elif c < 0.5:
                I("state")
            elif c < 0.6:
                if not hang and not det and not big:
                    I("settle")
            elif c < 0.66 and "native" not in m and opt.get("detach", False) == det:
                I("exec", 0)
            elif c < 0.7:
                I("opt", "detach", int(not opt.get("detach", False)))
                opt["detach"] = not opt.get("detach", False)
            elif c < 0.74:
                I("idle")
            elif c < 0.8 and group and hang:
                I("intr")
                toggled = True
            elif c < 0.86 and hang and tmo <= 0 and not toggled:
                I("alive", left)
            elif c < 0.92 and not real:
                I("pass", r.choice([10, 150, 300]))
            elif not det:
                I("disown")
        # how it ends
        ends = ["kill", "kill", "kill2"]
        if not hang:
            ends += ["readall", "readall", "readall", "wait", "wait", "settle", "del"]
        elif tmo > 0:
            ends += ["readall", "wait", "wait", "late", "del"]
        if group and hang:
            ends += ["intr"] * 3
        if det:
            ends = ["disown", "del", "kill"] + (["wait", "readall"] if not hang else [])
        e = r.choice(ends)
        if burst:
            e = r.choice(["readall", "settle", "settle", "wait", "del"])
        if e == "settle" and (det or big):
            e = "readall"
        if e in ("readall", "settle"):
            if e == "settle":
                I("settle")
            I("readall")
            I("wait", "none")
        elif e == "wait":
            I("wait", r.choice(["none", "20000"]))
        elif e in ("kill", "kill2"):
            if hang and not det and not toggled and tmo <= 0:
                # a process that is just being made may escape
                I("alive", left)
            I("kill")
            if not (det and hang):
                I("alive", 0)
            if e == "kill2":
                I(*r.choice([("kill",), ("read", "none"), ("disown",)]))
            I("wait", "none")
        elif e == "late":
            I("pass", 250)
            I("wait", "0")
            I("wait", "none")
        elif e == "intr":
            I("intr")
            I("readall")
            I("wait", "none")
            I("alive", 0)
        elif e == "disown":
            I("disown")
            if tmo > 0:
                I("wait", "none")
            else:
                I("alive", left if hang else 0)
        if e == "del":
            I("del")
            I("alive", left if hang and det else 0)
            return ops
        I("state")
        for k in (1, 2):
            if m[k] != "own" and not det and not (dirty and m[k] != "native") and r.random() < 0.8:
                I("content", k, m[k])
        if r.random() < 0.3:
            I(r.choice(["kill", "disown"]))
        I("idle")
    if r.random() < 0.5:
        I("del")
    return ops


def s31(r):
    nobj = r.choice([1, 1, 2, 2, 3, 6])
    real = r.random() < 0.1
    sharer = r.randrange(nobj)
    todo = [life(r, i, nobj == 1, real, {sharer}) for i in range(nobj)]
    ops = [("clock", 9, "real")] if real else []
    if r.random() < 0.2:
        ops.append(("tick", 9, 1))
    if r.random() < 0.03:
        ops.append(("null", 9))
    if r.random() < 0.04:
        ops.append(("selfsig", 7, r.choice([1, 1, 2, 3]), r.choice([2, 15]), r.choice([1, 2, 5])))
    while todo:
        t = r.choice(todo)
        for _ in range(r.choice([1, 2, 5, 20])):
            if t:
                ops.append(t.pop(0))
        if not t:
            todo.remove(t)
    return ops + [("tick", 9, 0), ("idle", 9)]


def c31(run):
    run.model_check("MCProcess", "MCProcess.cfg", consts={"Depth": run.n(2, 3), "Some3": "TRUE"})
    run.model_check("ProcessImpl", "ProcessImpl.cfg", consts={"N": run.n(2, 3)})
    for bug in ("late", "first", "add", "one", "keep", "early") if not run.quick else ("one", "keep"):
        run.must_fail("ProcessImpl", "ProcessImpl.cfg", consts={"Bug": '"%s"' % bug})
    sc = run.tlc_scripts("MCProcess", "MCProcess.cfg", consts={"Depth": run.n(2, 3), "Some3": run.n("FALSE", "TRUE")}, limit=run.n(600, 12000))
    exe, child = harness(run)
    run.conform(exe, "TraceProcess", sc, label="tlc", args=[child])
    run.conform(exe, "TraceProcess", [s31(run.rng) for _ in range(run.n(300, 6000))], label="rnd", args=[child])
