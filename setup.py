#!/usr/bin/env python3
"""Builds weave and the two harness crates from the committed files (offline)."""
import os, sys
sys.argv = ["setup"]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
os.makedirs(check.BUILD, exist_ok=True)
check.build_weave()
for n, t in (("harness", "vh"), ("hmacro", "vm")):
    b, log = check.build_crate(n, t)
    print(n, b or "NOT BUILT (the checks build it themselves): " + log[-500:])
import subprocess
rc, o, e = check.run(["cargo", "rustc", "--offline", "--manifest-path", os.path.join(check.VERIF, "forms/Cargo.toml"), "--", "-Zunpretty=expanded"], 400,
                     CARGO_TARGET_DIR=os.path.join(check.BUILD, "forms"), RUSTC_BOOTSTRAP="1")
print("forms", rc)
d = os.path.join(check.BUILD, "gm-setup"); os.makedirs(d, exist_ok=True)
rc, o, e = check.run([sys.executable, os.path.join(check.VERIF, "gmacro", "gm.py"), d, os.path.join(check.BUILD, "gm"), "1", "20"], 300)
print("gmacro", rc)
