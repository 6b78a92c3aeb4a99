#!/usr/bin/env python3
"""Confirm planted bugs and run the checks on them, each in a private mount namespace where /repo and
/verif are scratch copies.   seedtest.py [--tests] [--check] [--all-checks C01,C02] ID..."""
import argparse, json, os, shutil, subprocess, sys, concurrent.futures as cf
S = "/tmp/seed"

def ns(repo, verif, script, timeout=3000):
    cmd = ["unshare", "-Urm", "bash", "-c",
           f"mount --bind {repo} /repo && mount --bind {verif} /verif && cd /repo && ({script})"]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        return 99, "TIMEOUT " + str(e.stdout)[-500:]

def one(i, a):
    d = f"/verif/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    w = f"{S}/w.{i}"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    out = []
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        os.makedirs(w + "/verif")
        for x in ("bin", "spec", "harness", "tools", "MANIFEST.json", "properties.jsonl", "known-findings.json"):
            subprocess.run(["cp", "-a", "/verif/" + x, w + "/verif/"], check=True)
        os.makedirs(w + "/demo")
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(d + "/" + f, w + "/demo/")
        R, V = w + "/repo", w + "/verif"
        # original lines only
        removed = touched_original(d + "/patch.diff")
        if removed: out.append("TOUCHES-FIX-LINES " + removed)
        rc, o = ns(R, V, f"bash /opt/vp/build.sh >/dev/null 2>&1; bash {w}/demo/demo.sh", 400)
        if rc: out.append("DEMO-CLEAN-FAILS rc=%d %s" % (rc, o[-400:]))
        p = subprocess.run(["git", "-C", R, "apply", d + "/patch.diff"], capture_output=True, text=True)
        if p.returncode: return i, out + ["APPLY " + p.stderr]
        rc, o = ns(R, V, "bash /opt/vp/build.sh", 400)
        if rc: return i, out + ["BUILD " + o[-800:]]
        rc, o = ns(R, V, f"bash {w}/demo/demo.sh", 400)
        out.append("demo=%d" % rc if rc else "DEMO-NOT-FAILING")
        if a.tests:
            rc, o = ns(R, V, f"bash /opt/vp/test.sh {w}/t.json", 1500)
            t = json.load(open(w + "/t.json"))
            b = json.load(open("/opt/vp/BASELINE.json"))
            b = b["stable"]
            miss = set(b) - set(t["passed"])
            out.append("tests ok" if not miss else "TESTS-FAIL %d %s" % (len(miss), sorted(miss)[:3]))
        if a.check or a.all_checks:
            for c in (a.all_checks.split(",") if a.all_checks else [meta["property"]]):
                rc, o = ns(R, V, f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 bin/check.py {c} --tier quick", 1500)
                viol = [l for l in o.splitlines() if l.startswith("VIOLATION")]
                out.append(f"{c}: " + ("CAUGHT %s" % viol[0][:110] if rc == 1 and viol else "missed rc=%d %s" % (rc, o[-300:] if rc else "")))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return i, out

def touched_original(patch):
    """lines the patch removes which a commit after base introduced"""
    base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
    cur, ln, bad = None, 0, []
    blame = {}
    for l in open(patch, errors="replace"):
        if l.startswith("--- a/"): cur = l[6:].strip(); continue
        if l.startswith("@@"):
            ln = int(l.split()[1].split(",")[0][1:]); continue
        if l.startswith("+++") or cur is None: continue
        if l.startswith("-"):
            if cur not in blame:
                blame[cur] = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", cur], capture_output=True, text=True, errors="replace").stdout.splitlines()
            if base not in blame[cur][ln - 1].split()[0].lstrip("^") and not base.startswith(blame[cur][ln - 1].split()[0].lstrip("^")):
                bad.append(f"{cur}:{ln}")
            ln += 1
        elif l.startswith(" "): ln += 1
    return " ".join(bad)

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("--tests", action="store_true"); ap.add_argument("--check", action="store_true")
    ap.add_argument("--all-checks"); ap.add_argument("-j", type=int, default=2)
    ap.add_argument("ids", nargs="*")
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir("/verif/seeded"))
    os.makedirs(S, exist_ok=True)
    with cf.ThreadPoolExecutor(a.j) as ex:
        for i, out in ex.map(lambda x: one(x, a), ids):
            print(i, "|", " | ".join(out), flush=True)
