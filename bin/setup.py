#!/usr/bin/env python3
"""Nothing needs to be built before the checks: each builds its driver from /repo's tree.
This only makes sure the tools are there and warms the build cache."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf  # noqa: E402

c = vf.Ctx("setup")
try:
    os.makedirs(os.path.join(vf.VERIF, "evidence"), exist_ok=True)
    r = subprocess.run(["java", "-cp", vf.TLA_CP, "tlc2.TLC", "-h"], capture_output=True, text=True)
    assert "TLC" in r.stdout + r.stderr, "TLC does not run"
    c.build("profile")
    c.build_main()
    print("setup complete")
finally:
    c.close()
