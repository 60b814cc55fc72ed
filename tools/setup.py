#!/usr/bin/env python3
"""Compiles the harness once (both variants), which fills the Go build cache."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GO111MODULE="on", GOWORK="off", CGO_ENABLED="1")
tmp = tempfile.mkdtemp(prefix="verif-setup-")
try:
    for extra in ([], ["-race"]):
        r = subprocess.run(["go", "build"] + extra + ["-o", os.path.join(tmp, "h"), "."], cwd=os.path.join(V, "harness"), env=env)
        if r.returncode:
            sys.exit(r.returncode)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
