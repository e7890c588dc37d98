import json, os, subprocess, sys
BASE = os.path.dirname(os.path.dirname(os.path.abspath(sys.argv[0])))
def seed(id, prop, edits, pkg, demo, needs, breaks, check=True):
    d = BASE + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    subprocess.run("git -C /tmp/seedwork fetch -q /repo && git -C /tmp/seedwork reset -q --hard FETCH_HEAD", shell=True, check=True)
    for f, old, new in edits:
        p = "/tmp/seedwork/" + f
        s = open(p).read()
        assert s.count(old) >= 1, (id, f, old)
        open(p, "w").write(s.replace(old, new, 1))
    subprocess.run("gofmt -l /tmp/seedwork/%s" % edits[0][0], shell=True)
    open(d + "/pkg", "w").write(pkg + "\n")
    open(d + "/demo_test.go", "w").write(demo.strip() + "\n")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    subprocess.run(["bash", BASE + "/tools/mkseed.sh", id] + ([] if check else ["nocheck"]))
only = sys.argv[1:]
_seed = seed
def seed(id, *a, **k):
    if only and id not in only: return
    _seed(id, *a, **k)
