#!/usr/bin/env python3
"""Author and confirm planted bugs (not used by any check).
  seedtool.py make SPEC.py     SPEC defines id, property, edits=[(file, old, new)], needs, breaks, demo (C++ source)
  seedtool.py confirm ID...    scratch copy bound over /repo in a mount namespace: build, stable tests, demo, check
"""
import json, os, subprocess, sys, runpy, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w"
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, non-zero otherwise; cwd is the built tree
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++14 -w -O0 -I"$PWD/src" -I"$PWD/_build" "$d/demo.cc" -o "$t/demo" -L"$PWD/_build/lib" -lkmlregionator -lkmlconvenience -lkmlengine -lkmlxsd -lkmldom -lkmlbase -luriparser -lminizip -lexpat -lz -Wl,-rpath,"$PWD/_build/lib" || exit 2
cd "$t" && timeout 60 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def sync():
    if not os.path.exists(W):
        sh(f"cp -a /repo {W}")
    h = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if sh(f"git -C {W} rev-parse HEAD").stdout.strip() != h:
        sh(f"git -C {W} checkout -q -- .; git -C {W} fetch -q /repo HEAD; git -C {W} reset -q --hard {h}")
    sh(f"git -C {W} checkout -q -- .")


def make(spec):
    s = runpy.run_path(spec)
    sync()
    for f, old, new in s["edits"]:
        t = open(f"{W}/{f}").read()
        if t.count(old) != 1:
            print(s["id"], f, "old text found", t.count(old), "times"); sys.exit(1)
        open(f"{W}/{f}", "w").write(t.replace(old, new))
    d = f"{V}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(sh(f"git -C {W} diff").stdout)
    open(f"{d}/demo.sh", "w").write(DEMO); os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.cc", "w").write(s["demo"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    sync()
    return s["id"]


def confirm(i):
    d = f"{V}/seeded/{i}"
    prop = json.load(open(f"{d}/meta.json"))["property"]
    sync()
    out = {"id": i}
    # unchanged tree
    r = sh(f"cp -r {d} /tmp/dm && cd /repo && bash /tmp/dm/demo.sh; r=$?; rm -rf /tmp/dm; exit $r")
    out["demo_clean"] = r.returncode
    if r.returncode: out["demo_out"] = r.stdout[-600:]
    r = sh(f"git -C {W} apply {d}/patch.diff")
    if r.returncode:
        out["apply"] = r.stdout; print(json.dumps(out)); return
    r = sh(f"""unshare -m bash -c 'mount --bind {W} /repo; bash /opt/vp/build.sh > /tmp/sb.log 2>&1 || exit 9; bash /opt/vp/test.sh /tmp/st.json >/tmp/st.log 2>&1; cp -r {d} /tmp/dm; cd /repo; bash /tmp/dm/demo.sh > /tmp/sd.log 2>&1; echo demo $? ; rm -rf /tmp/dm; cd {V}; cp evidence/{prop}.json /tmp/ev.bak 2>/dev/null; python3 check.py {prop} quick > /tmp/sc.log 2>&1; echo check $?; cp /tmp/ev.bak evidence/{prop}.json 2>/dev/null'""")
    if r.returncode == 9:
        out["build"] = sh("tail -15 /tmp/sb.log").stdout
    else:
        b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open('/tmp/st.json'))
        out["tests_broken"] = sorted(set(b['stable']) - set(t['passed']))
        out["patched"] = r.stdout.split("\n")[:2]
        out["check"] = [l for l in open("/tmp/sc.log").read().split("\n") if l][-6:]
    sync()
    print(json.dumps(out, indent=1))


if sys.argv[1] == "make":
    for x in sys.argv[2:]: confirm(make(x))
else:
    for x in sys.argv[2:]: confirm(x)
