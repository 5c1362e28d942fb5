"""Warm the object cache (optional: checks build whatever is missing themselves)."""
import shutil
from kmcv import build

for v in ("plain", "asan", "mpi"):
    d = build.scratch()
    try:
        build.build(v, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
print("ok")
