#!/usr/bin/env python3
"""Offline setup: nothing to build; makes sure that the tools are there and every specification parses."""
import subprocess, sys, os, glob, concurrent.futures as cf
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
def sany(f):
    p = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", os.path.basename(f)], cwd=S, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return f, p.returncode, p.stdout.decode()
with cf.ThreadPoolExecutor(6) as ex: rs = list(ex.map(sany, sorted(glob.glob(S + "/*.tla"))))
bad = [(f, o) for f, rc, o in rs if rc != 0]
for f, o in bad: print(f, o[-1500:])
print("parsed %d modules, %d bad" % (len(rs), len(bad)))
sys.exit(1 if bad else 0)
