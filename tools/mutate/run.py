#!/usr/bin/env python3
"""Runs the checks on simple mutants of a copy of /repo.
usage: run.py WORKDIR SHARD/OF [FILE...]   results are appended to WORKDIR/results.txt
"""
import json, os, re, subprocess, sys, shutil
W, shard = sys.argv[1], sys.argv[2]
i, n = map(int, shard.split("/"))
M = {"bucket/bucket.go": "C01 C02", "bucket/fifo/fifo.go": "C01 C02", "lsh/lsh.go": "C02 C03 C08", "wta_hash/wta_hash.go": "C04 C08 C03",
 "densified_wta_hash/densified_wta_hash.go": "C05 C08 C03", "densified_minhash/densified_minhash.go": "C06 C08 C03",
 "densified_minhash/index_value_pairs.go": "C06", "sparse_random_projection/sparse_random_projection.go": "C07 C08 C03",
 "layer/layer.go": "C09 C27 C24 C23 C10 C13 C16 C11 C12 C25", "node/node.go": "C15 C14 C27 C24 C11 C10 C16", "network/network.go": "C11 C12 C13 C24 C25 C16 C10 C23",
 "dataset/xcrepo/xcrepo.go": "C17 C18", "dataset/dataset.go": "C17 C18", "configuration/configuration.go": "C19 C20", "goslide.go": "C20 C21 C26",
 "index_value/index_value.go": "C09"}
D = os.path.join(W, "m%d" % i); shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
subprocess.run(["cp", "-a", "/repo", D + "/repo"], check=True)
subprocess.run(["cp", "-a", os.path.join(W, "verif"), D + "/verif"], check=True)
mut = os.path.join(W, "mutate")
base = set(json.load(open("/opt/vp/BASELINE.json")).get("tests", [])) if False else None
def sh(c, t=900, **kw):
    try:
        p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 99, str(e.stdout)
files = sys.argv[3:] or [f for f in M if os.path.exists("/repo/" + f)]
out = open(os.path.join(W, "results%d.txt" % i), "a")
env = dict(os.environ, REPO=D + "/repo")
c = 0
# ONLY names a file listing the mutants to run
only = set(open(os.environ['ONLY']).read().split('\n')) if 'ONLY' in os.environ else None
for f in files:
    total = int(sh("%s /repo/%s" % (mut, f))[1])
    for k in range(total):
        c += 1
        if c % n != i: continue
        dst = D + "/repo/" + f
        rc, what = sh("%s /repo/%s %d %s" % (mut, f, k, dst))
        what = what.strip().replace("/repo/", "")
        if only and what not in only:
            shutil.copy("/repo/" + f, dst)
            continue
        rc, o = sh("cd %s/repo && GOFLAGS=-mod=mod GOPROXY=off go vet ./... >/dev/null 2>&1; go build ./... && go test ./... 2>&1" % D, 120)
        res = "INVALID"
        if rc == 0:
            res = "SURVIVED"
            for p in M[f].split():
                rc, o = sh("timeout -k 5 400 python3 %s/verif/run.py %s quick" % (D, p), 500, env=env)
                if rc == 1 and "VIOLATION" in o: res = "caught " + p; break
                if rc != 0: res = "ERROR rc=%d %s %s" % (rc, p, o[-300:].replace("\n", " | ")); break
        shutil.copy("/repo/" + f, dst)
        out.write("%s: %s\n" % (res, what)); out.flush()
