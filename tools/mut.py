#!/usr/bin/env python3
"""mut.py PROP[,PROP..] FILE <<< 'old\n====\nnew'  : run checks against a scratch copy with one edit (development aid)."""
import os, shutil, subprocess, sys, tempfile
props, fn = sys.argv[1].split(","), sys.argv[2]
old, new = sys.stdin.read().split("\n====\n")
new = new.rstrip("\n")
d = tempfile.mkdtemp(prefix="qsmut", dir="/tmp")
try:
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("target", ".git"), symlinks=True)
    p = os.path.join(r, fn)
    s = open(p).read()
    if s.count(old) != 1:
        print("PATTERN OCCURS", s.count(old)); sys.exit(2)
    open(p, "w").write(s.replace(old, new))
    env = dict(os.environ, QSA_REPO=r, QSA_CACHE=os.environ.get("QSA_MCACHE", "/tmp/qsmcache"), QSA_OUT=os.path.join(d, "out"))
    for pr in props:
        q = subprocess.run([sys.executable, "/verif/check.py", pr], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        lines = q.stdout.splitlines()
        print("rc=%d" % q.returncode, "\n".join(l[:260] for l in lines[:14]))
finally:
    shutil.rmtree(d)
