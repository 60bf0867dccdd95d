#!/usr/bin/env python3
"""tools/mkseed.py SPEC.py [notest]: build seeded/<id>/ from a spec (ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS), confirming
in a scratch copy (bind-mounted over /repo in a user namespace) that the stable tests pass and the demo decides."""
import json, os, shutil, subprocess, sys
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec["ID"]
tmp = "/tmp/sd_" + ID
out = "/verif/seeded/" + ID
shutil.rmtree(tmp, ignore_errors=True)
subprocess.check_call(["cp", "-a", "/repo", tmp])
for f, old, new in spec["EDITS"]:
    p = os.path.join(tmp, f)
    s = open(p).read()
    if s.count(old) != 1:
        sys.exit("%s: %d matches of %r" % (f, s.count(old), old))
    open(p, "w").write(s.replace(old, new))
patch = subprocess.check_output(["git", "-C", tmp, "diff"]).decode()
stage = tmp + "_demo"
shutil.rmtree(stage, ignore_errors=True)
os.makedirs(stage)
open(stage + "/demo.py", "w").write(spec["DEMO"])
open(stage + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexport PYTHONPATH=$PWD\n'
                                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(stage + "/demo.sh", 0o755)


def ns(cmd, repo):
    c = "mount --bind %s /repo && cd /repo && %s" % (repo, cmd)
    return subprocess.run(["unshare", "-Urm", "bash", "-c", c], capture_output=True, text=True)


r0 = subprocess.run(["bash", stage + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
r1 = ns("bash %s/demo.sh" % stage, tmp)
print(ID, "demo unchanged", r0.returncode, "patched", r1.returncode)
if r0.returncode or not r1.returncode:
    print(r0.stdout[-1500:], r0.stderr[-1500:], r1.stdout[-500:], r1.stderr[-500:])
    shutil.rmtree(tmp)
    sys.exit(1)
print("   ", (r1.stdout + r1.stderr).strip().splitlines()[-1][:200])
if "notest" not in sys.argv:
    cache = tmp + "_cache"
    shutil.rmtree(cache, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/opt/bilby-cache", cache])
    r = ns("mount --bind %s /opt/bilby-cache && bash /opt/vp/test.sh %s/out.json" % (cache, cache), tmp)
    o = json.load(open(cache + "/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(o.get("passed", [])) if isinstance(o.get("passed"), list) else {k for k, v in o.items() if v == "passed"}
    bad = [t for t in base if t not in passed]
    print(ID, "stable tests not passing:", len(bad), bad[:8])
    shutil.rmtree(cache)
    if bad:
        shutil.rmtree(tmp); shutil.rmtree(stage)
        sys.exit(1)
shutil.rmtree(out, ignore_errors=True)
shutil.copytree(stage, out)
open(out + "/patch.diff", "w").write(patch)
json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
          open(out + "/meta.json", "w"), indent=1)
shutil.rmtree(tmp); shutil.rmtree(stage)
print(ID, "kept")
