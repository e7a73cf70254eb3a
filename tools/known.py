#!/usr/bin/env python3
"""Development tool (no check runs it): rewrites the "known:" lines of one property in
known-findings.txt from a fresh recording.   usage: known.py ID HARNESS VARIANT [cases]"""
import os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHAT = [l.rstrip("\n").split("\t") for l in open(os.path.join(V, "tools/known-what.tsv")) if l.strip() and not l.startswith("#")]

def main():
    pid, harness, variant = sys.argv[1:4]
    kf = os.path.join(V, "known-findings.txt")
    lines = open(kf).read().splitlines() if os.path.exists(kf) else []
    lines = [l for l in lines if not l.startswith("known: property=%s " % pid)]
    open(kf, "w").write("\n".join(lines) + "\n")
    d = os.path.join(V, "known", pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cmd = [os.path.join(V, "build", variant, harness), pid, "--record", "known/" + pid]
    if len(sys.argv) > 4:
        cmd += ["--cases", sys.argv[4]]
    out = subprocess.run(cmd, cwd=V, stdout=subprocess.PIPE, text=True).stdout
    new, unknown = [], []
    for m in re.finditer(r"^RECORD fingerprint=(\S+) replay=(\S+)$", out, re.M):
        fp, rp = m.groups()
        for w in WHAT:
            if w[0] == pid and re.fullmatch(w[1], fp):
                what = re.sub(w[1], w[2], fp)
                new.append("known: property=%s fingerprint=%s replay=%s %s" % (pid, fp, rp, what))
                break
        else:
            unknown.append((fp, rp))
    new.sort()
    open(kf, "w").write("\n".join(lines + new) + "\n")
    print("%d known findings of %s recorded" % (len(new), pid))
    for fp, rp in unknown:
        print("NOT described in known-what.tsv, not listed: %s %s" % (fp, rp))

main()
