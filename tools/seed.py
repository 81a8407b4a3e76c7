#!/usr/bin/env python3
"""Confirm planted bugs in a scratch copy of /repo (bind-mounted over /repo in
a namespace of its own): patch applies, builds, passes the stable tests, the
demo tells the two trees apart; then run the check of the property on it.

  seed.py ID...            confirm and check
  seed.py --check ID...    only run the check on the patched tree
  seed.py --new ID         write patch.diff from the edits in the scratch copy
"""
import concurrent.futures as cf
import json, os, subprocess, sys, time

S = "/verif/seeded"
POOL = "/tmp/sw"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **k)


def inside(copy, cmd, timeout=1500):
    return sh(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)], timeout=timeout)


def fresh(copy):
    if not os.path.isdir(copy):
        sh("mkdir -p %s && cp -a /repo %s" % (os.path.dirname(copy), copy))
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    r = sh("git -C %s checkout -q -f . && git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f %s && git -C %s clean -fdq"
           % (copy, copy, copy, head, copy))
    if r.returncode:
        print(r.stdout)


def one(i, k, only, tier):
    copy = "%s/w%d/repo" % (POOL, k)
    d = "%s/%s" % (S, i)
    meta = json.load(open(d + "/meta.json"))
    out = [i]
    fresh(copy)
    if not only:
        r = inside(copy, "bash /opt/vp/build.sh")
        r = sh("cp -a %s /tmp/demo-%s" % (d, i)) ; sh("rm -f /tmp/demo-%s/patch.diff /tmp/demo-%s/meta.json" % (i, i))
        r = inside(copy, "bash /tmp/demo-%s/demo.sh" % i, 300)
        out.append("clean demo rc=%d%s" % (r.returncode, "" if r.returncode == 0 else " BAD " + r.stdout[-600:]))
    r = sh("git -C %s apply %s/patch.diff" % (copy, d))
    if r.returncode:
        return out + ["patch does not apply: " + r.stdout]
    if not only:
        r = inside(copy, "bash /opt/vp/build.sh")
        if r.returncode:
            return out + ["BUILD FAILS " + r.stdout[-1500:]]
        tj = "/tmp/seed-%s.json" % i
        r = inside(copy, "bash /opt/vp/test.sh %s" % tj)
        p = set(json.load(open(tj))["passed"])
        miss = [t for t in STABLE if t not in p]
        out.append("tests ok" if not miss else "TESTS FAIL %s" % miss[:5])
        r = inside(copy, "bash /tmp/demo-%s/demo.sh" % i, 300)
        out.append("patched demo rc=%d%s" % (r.returncode, " BAD" if r.returncode == 0 else ": " + r.stdout.strip()[-150:]))
        sh("rm -rf /tmp/demo-%s" % i)
    t = time.time()
    r = inside(copy, "cd /verif && VERIF_SEED=1 VERIF_TIER=%s python3 run.py %s --tier %s" % (tier, meta["property"], tier))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    out.append("check %s rc=%d %ds %s" % (meta["property"], r.returncode, time.time() - t,
                                          "CAUGHT" if r.returncode == 1 and v else "MISSED " + r.stdout[-300:]))
    fresh(copy)
    return out


def main(a):
    if a[0] == "--new":
        d = "%s/%s" % (S, a[1])
        os.makedirs(d, exist_ok=True)
        copy = "%s/w0/repo" % POOL
        r = sh("git -C %s diff" % copy)
        open(d + "/patch.diff", "w").write(r.stdout)
        print(r.stdout)
        return
    if a[0] == "--fresh":
        fresh("%s/w0/repo" % POOL)
        return
    only = a[0] == "--check"
    ids = a[1:] if only else a
    tier = os.environ.get("T", "quick")
    n = int(os.environ.get("J", "3"))
    with cf.ThreadPoolExecutor(n) as ex:
        free = list(range(1, n + 1))

        def run(i):
            k = free.pop()
            try:
                return one(i, k, only, tier)
            except Exception as e:
                return [i, "ERROR %r" % e]
            finally:
                free.append(k)
        for o in ex.map(run, ids):
            print(" | ".join(o), flush=True)


main(sys.argv[1:])
