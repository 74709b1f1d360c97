#!/usr/bin/env python3
"""Create / verify planted bugs (development aid; no check uses this).

seed.py mk FILE.py        create seeded/<id>/ from the SEEDS list of FILE.py
seed.py test ID... [--nocheck] [--props Cxx,..]
     in a private mount namespace with scratch copies bound over /repo and /verif:
     demo passes before, patch applies, builds, stable tests pass, demo fails, the check of its property reports it
"""
import json, os, subprocess, sys, difflib, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds; run with cwd /repo after build.sh
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -w -O1 %(flags)s -I"$R" -I"$B" -I"$R/vital" -I"$B/vital" -I"$B/vital/kwiversys" -isystem /usr/include/eigen3 "$D/demo.cxx" -o "$T/demo" \\
  -L"$B/lib" -Wl,-rpath,"$B/lib" %(libs)s -lpthread -ldl || exit 2
cd "$T" && timeout 200 ./demo 2>"$T/err" %(post)s
'''


def mk(f):
    ns = {}
    exec(open(f).read(), ns)
    for s in ns["SEEDS"]:
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        edits = {}
        for fn, old, new in s["edits"]:
            t = edits.get(fn) or open(os.path.join("/repo", fn), encoding="latin-1").read()
            assert t.count(old) == 1, (s["id"], fn, t.count(old), old)
            edits[fn] = t.replace(old, new)
        out = ""
        for fn, t in edits.items():
            o = open(os.path.join("/repo", fn), encoding="latin-1").read()
            out += "".join(l if l.endswith("\n") else l + "\n\\ No newline at end of file\n" for l in difflib.unified_diff(
                o.splitlines(True), t.splitlines(True), "a/" + fn, "b/" + fn))
        open(os.path.join(d, "patch.diff"), "w", encoding="latin-1").write(out)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        if "demo" in s:
            open(os.path.join(d, "demo.cxx"), "w").write(s["demo"])
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"libs": s.get("libs", "-lvital_config -lvital_logger -lkwiversys"), "flags": s.get("flags", ""), "post": s.get("post", "")})
        if "demo_sh" in s:
            open(os.path.join(d, "demo.sh"), "w").write(s["demo_sh"])
        for n, c in s.get("files", {}).items():
            open(os.path.join(d, n), "w").write(c)
        subprocess.check_call(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")])
        print("made", s["id"])


INNER = r'''
mount --bind %(rt)s /repo && mount --bind %(vf)s /verif || exit 99
cd /repo && S=%(sd)s
bash $S/demo.sh >/tmp/seedlog_%(id)s 2>&1; echo "demo_clean $?"
git apply $S/patch.diff || { echo "apply FAIL"; exit 1; }
if bash /opt/vp/test.sh %(rt)s/_build/seed.json >>/tmp/seedlog_%(id)s 2>&1; then :; fi
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('%(rt)s/_build/seed.json'))['passed']
m=[x for x in b if x not in t]; print('tests', 'ok' if not m else 'MISSING %%s' %% m[:5])
P
bash $S/demo.sh >>/tmp/seedlog_%(id)s 2>&1; echo "demo_patched $?"
cd /verif
for p in %(props)s; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p --tier quick >/tmp/seedcheck_%(id)s_$p 2>&1; echo "check $p $? $(grep -m1 ^VIOLATION /tmp/seedcheck_%(id)s_$p)"; done
cd /repo && git apply -R $S/patch.diff && bash /opt/vp/build.sh >/dev/null 2>&1
'''


def test(ids, nocheck, props):
    n = os.environ.get("SLOT", "0")
    rt, vf, sd = "/tmp/seedrepo" + n, "/tmp/seedverif" + n, "/tmp/seedsd" + n
    os.makedirs(vf, exist_ok=True)
    if not os.path.exists(rt):
        subprocess.check_call(["cp", "-a", "/repo", rt])
    subprocess.check_call(["rsync", "-a", "--delete", "--exclude=_build*", "/repo/", rt + "/"])
    subprocess.check_call(["rsync", "-a", "--delete", "--exclude=build", "--exclude=seeded", "--exclude=evidence", "--exclude=replays", V + "/", vf + "/"])
    for i in ids:
        shutil.rmtree(sd, ignore_errors=True)
        shutil.copytree(os.path.join(V, "seeded", i), sd)
        p = json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]
        ps = "" if nocheck else (props or p)
        a = dict(rt=rt, vf=vf, sd=sd, id=i, props=ps.replace(",", " "))
        out = subprocess.run(["unshare", "-m", "bash", "-c", INNER % a], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
        print("==", i, p, "|", "; ".join(out.strip().splitlines()), flush=True)


if __name__ == "__main__":
    a = sys.argv[2:]
    if sys.argv[1] == "mk":
        mk(a[0])
    else:
        props = None
        if "--props" in a:
            k = a.index("--props")
            props = a[k + 1]
            a[k:k + 2] = []
        test([x for x in a if not x.startswith("--")], "--nocheck" in a, props)
