#!/usr/bin/env python3
"""plant.py ID PROPERTY PKG DEMO_TEST.go NEEDS BREAKS -- FILE OLD NEW [FILE OLD NEW ...]
Plants a bug in a scratch copy of /repo, confirms that it builds, passes the tests and that the
demonstration tells both trees apart, and stores it under seeded/ID."""
import sys, os, subprocess, tempfile, shutil, json
id, prop, pkg, demo, needs, breaks = sys.argv[1:7]
assert sys.argv[7] == "--"
ed = sys.argv[8:]
out = "/verif/seeded/" + id
d = tempfile.mkdtemp(prefix="/tmp/plant.")
try:
    r = d + "/r"
    shutil.copytree("/repo", r, symlinks=True)
    for i in range(0, len(ed), 3):
        f, old, new = ed[i:i+3]
        f, _, nth = f.partition("@@")  # FILE@@n: the n-th occurrence only
        s = open(f"{r}/{f}").read()
        old = old.encode().decode("unicode_escape") if "\\t" in old or "\\n" in old else old
        new = new.encode().decode("unicode_escape") if "\\t" in new or "\\n" in new else new
        if nth:
            k = int(nth); a = s.split(old); assert k < len(a) - 1
            s = old.join(a[:k+1]) + new + old.join(a[k+1:])
        else:
            assert s.count(old) == 1, (f, old, s.count(old))
            s = s.replace(old, new)
        open(f"{r}/{f}", "w").write(s)
    if os.path.exists(d + "/x"): pass
    sh = lambda c, cwd: subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + c], cwd=cwd, capture_output=True, text=True)
    p = sh("gofmt -l dialog dsp fone rtp sdp util", r)
    diff = sh("git diff", r).stdout
    assert diff
    b = sh("go build ./...", r); assert b.returncode == 0, b.stderr
    t = sh("go test -vet=off -count=1 ./dsp ./rtp ./sdp ./sip", r); assert t.returncode == 0, t.stdout[-2000:]
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    if os.path.abspath(demo) != out + "/demo_test.go": shutil.copy(demo, out + "/demo_test.go")
    open(out + "/demo.sh", "w").write(f'''#!/bin/bash
# Runs with cwd at the repository; passes on the unchanged tree, fails with the planted bug.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
echo "{{\\"Replace\\":{{\\"$PWD/{pkg}/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}}}" > "$t/o.json"
timeout 120 go test -vet=off -count=1 -overlay "$t/o.json" -run 'TestDemo' ./{pkg}
''')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % out, "/repo"); 
    assert a.returncode == 0, "demo fails on the unchanged tree: " + a.stdout[-1500:] + a.stderr[-500:]
    b = sh("bash %s/demo.sh" % out, r)
    assert b.returncode != 0, "demo passes with the bug"
    print("planted", id, "| demo:", [l for l in b.stdout.splitlines() if l.strip()][:3])
    os.makedirs(d + "/v"); shutil.copy("/verif/properties.jsonl", d + "/v")
    if os.path.exists("/verif/KNOWN_FINDINGS"): shutil.copy("/verif/KNOWN_FINDINGS", d + "/v")
    c = sh(f"GOSIP_REPO={r} GOSIP_VERIF={d}/v /verif/bin/gosipcheck -prop {prop}", r)
    print(c.stdout[-800:], "rc", c.returncode, "CAUGHT" if c.returncode == 1 else "MISSED")
except AssertionError:
    if not os.path.exists(out + "/keep"): shutil.rmtree(out, ignore_errors=True)
    raise
finally:
    shutil.rmtree(d)
