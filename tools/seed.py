#!/usr/bin/env python3
"""Makes and verifies a planted bug: seed.py DEF.py [--fast].

DEF.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (body of main.rs).
Writes /verif/seeded/ID and confirms: patch applies, compiles, the tests pass, the demonstration
fails with the patch and passes without it.  Works on a scratch copy of /repo in /tmp/seedwt.
"""
import json, os, shutil, subprocess, sys

WT = "/tmp/seedwt"
d = {}
exec(open(sys.argv[1]).read(), d)
out = "/verif/seeded/" + d["ID"]


def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


if not os.path.exists(WT):
    sh("cp -a /repo " + WT)
print(sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", WT).stdout, end="")
for f, old, new in d["EDITS"]:
    p = os.path.join(WT, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
os.makedirs(out, exist_ok=True)
open(out + "/patch.diff", "w").write(sh("git diff", WT).stdout)
json.dump(dict(property=d["PROPERTY"], needs=d["NEEDS"], what_it_breaks=d["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
shutil.copy("/verif/tools/demo_flash.rs", out + "/flash.rs")
open(out + "/main.rs", "w").write("mod flash;\n#[allow(unused_imports)]\nuse flash::*;\n\n" + d["DEMO"].lstrip("\n"))
shutil.copy("/verif/tools/demo.sh", out + "/demo.sh")
os.chmod(out + "/demo.sh", 0o755)

# tests with the change, as /opt/vp/test.sh runs them, in the copy
r = sh(". /opt/vp/env.sh; cd /tmp/seedwt; cargo test --workspace --no-fail-fast --offline --features $FEATURES -- --test-threads 8 2>&1 | grep -E '^test result|FAILED|error|failed'", WT)
bad = "FAILED" in r.stdout or "error" in r.stdout or not r.stdout
print("tests:", "FAIL\n" + r.stdout if bad else "pass")
a = sh("bash %s/demo.sh" % out, WT)
print("demo with the change:", a.returncode, a.stdout[-300:].replace("\n", " | "))
sh("git checkout -q -- .", WT)
b = sh("bash %s/demo.sh" % out, WT)
print("demo without:", b.returncode, b.stdout[-1500:] if b.returncode else "")
sys.exit(bad or a.returncode == 0 or b.returncode != 0)
