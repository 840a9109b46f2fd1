"""Check the tools the checks need are present."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from driver import build

for p in ("bin/rustc", "bin/rustdoc"):
    if not os.path.exists(os.path.join(build.PINNED, p)):
        sys.exit("missing " + os.path.join(build.PINNED, p))
rc, out = build.run(["cargo", "--version"], build.pinned_env())
print(out.strip())
sys.exit(rc)
