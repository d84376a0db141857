"""Build the extraction driver once (checks build their own copy when this has not run)."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import run  # noqa: E402

os.makedirs(os.path.join(run.VERIF, "build"), exist_ok=True)
import hashlib  # noqa: E402

src = os.path.join(run.VERIF, "driver", "main.rs")
h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
out = os.path.join(run.VERIF, "build", "kvdriver-" + h)
if not os.path.exists(out):
    r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", out + ".tmp"])
    if r.returncode:
        sys.exit(r.returncode)
    os.rename(out + ".tmp", out)
print("driver ready:", out)
