# mut.py FILE [names]: quick mutants (name, props, edits); reports which pass the tests and which checks see them.
import subprocess, sys, os, time
W = os.environ.get("MUT_WORK", "/tmp/seedwork")
V = os.environ.get("MUT_VERIF", "/verif")
M = []
def m(name, props, *edits):
    M.append((name, props.split(), edits))
exec(open(sys.argv[1]).read(), {"m": m})
only = sys.argv[2:]
def sh(c, **k):
    return subprocess.run(". /opt/vp/env.sh; " + c, shell=True, executable="/bin/bash", capture_output=True, text=True, **k)
for name, props, edits in M:
    if only and name not in only: continue
    sh("git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD" % (W, W))
    bad = None
    for f, old, new in edits:
        p = W + "/" + f
        s = open(p).read()
        if s.count(old) < 1: bad = "no match: " + old; break
        open(p, "w").write(s.replace(old, new, 1))
    if bad: print(name, bad); continue
    r = sh("cd %s && go build ./... && go test ./... 2>&1 | grep '^--- FAIL' | head -3" % W)
    if r.stderr.strip(): print(name, "BUILD", r.stderr.strip()[:300]); continue
    if r.stdout.strip(): print(name, "TESTS FAIL", r.stdout.strip().split("\n")[0]); continue
    sh("git -C %s diff > /tmp/mut/%s.diff" % (W, name))
    if True:
        for p in props:
            t = time.time()
            r = sh("timeout 890 %s/bin/engine -verif %s -repo %s -property %s -tier quick" % (V, V, W, p))
            got = r.returncode == 1 and ("VIOLATION property=%s " % p) in r.stdout
            why = [l for l in r.stdout.split("\n") if "fails" in l or "panic" in l]
            print(name, p, "CAUGHT" if got else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t), (why or [""])[0][:140], flush=True)
            if r.returncode not in (0, 1): print(r.stdout[-500:], r.stderr[-300:])
    sh("git -C %s checkout -q -- ." % W)
