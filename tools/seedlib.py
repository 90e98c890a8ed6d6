#!/usr/bin/env python3
"""Generates and validates /verif/seeded/<id>/ from the definitions in seeds_*.py.
   seedlib.py FILE [ids...]"""
import json, os, subprocess, sys, shutil, importlib.util, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off")
DEMO = '''#!/bin/bash
# Runs demo_test.go (beside this file) against the tree in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
printf '{"Replace":{"%s/internal/zzdemo/demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$t/o.json"
go test -c RACE-vet=off -overlay "$t/o.json" -o "$t/demo" ./internal/zzdemo || exit 2
cd "$t" && ./demo -test.timeout 200s
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def make(s):
    m = "/tmp/seedwork"
    shutil.rmtree(m, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", m])
    d = f"{ROOT}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO.replace("RACE", "-race " if s.get("race") else ""))
    os.chmod(d + "/demo.sh", 0o755)
    body = s["demo"].strip("\n")
    imps = []
    for name, path in [("agentx","github.com/alexispb/mygosnmp/agentx"),("asn","github.com/alexispb/mygosnmp/asn"),("oid","github.com/alexispb/mygosnmp/oid"),("hex","github.com/alexispb/mygosnmp/hex"),("ipa","github.com/alexispb/mygosnmp/ipa"),("internal","github.com/alexispb/mygosnmp/internal"),("pduerror","github.com/alexispb/mygosnmp/pduerror"),("math","math"),("bytes","bytes"),("reflect","reflect"),("strings","strings"),("fmt","fmt"),("sync","sync"),("runtime","runtime"),("time","time"),("os","os"),("atomic","sync/atomic"),("logger","github.com/alexispb/mygosnmp/logger")]:
        if re.search(r"\b" + name + r"\.", body): imps.append(f'\t"{path}"')
    open(d + "/demo_test.go", "w").write("package zzdemo\n\nimport (\n\t\"testing\"\n" + "\n".join(imps) + "\n)\n\n" + body + "\n")
    sh("gofmt -w demo_test.go", d)
    r = sh(f"bash {d}/demo.sh", m)
    if r.returncode != 0:
        print(s["id"], "DEMO FAILS ON CLEAN TREE\n", r.stdout, r.stderr); return False
    for f, old, new in s["edits"]:
        p = f"{m}/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            print(s["id"], f, "matches", t.count(old), repr(old)); return False
        open(p, "w").write(t.replace(old, new))
    sh("gofmt -w " + " ".join(f for f, _, _ in s["edits"]), m)
    open(d + "/patch.diff", "w").write(sh("git diff", m).stdout)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh("go build ./... && go test -vet=off -count=1 ./... 2>&1", m)
    if r.returncode != 0:
        print(s["id"], "BUILD/TESTS FAIL\n", r.stdout[-1500:], r.stderr[-1500:]); return False
    r = sh(f"bash {d}/demo.sh", m)
    if r.returncode == 0:
        print(s["id"], "DEMO PASSES WITH PATCH\n", r.stdout); return False
    print(s["id"], s["prop"], "ok")
    return True
if __name__ == "__main__":
    spec = importlib.util.spec_from_file_location("s", sys.argv[1]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
    bad = 0
    for s in mod.SEEDS:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
        if not make(s):
            bad += 1
            shutil.rmtree(f"{ROOT}/seeded/{s['id']}", ignore_errors=True)
    shutil.rmtree("/tmp/seedwork", ignore_errors=True)
    sys.exit(bad > 0)
