#!/usr/bin/env python
"""run.py <ID> [quick|thorough]: runs one check."""
import os, sys
os.environ.setdefault("TF_USE_LEGACY_KERAS", "1")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ["OMP_NUM_THREADS"] = "1"
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo"), os.path.join(ROOT, "lib"), os.path.join(ROOT, "checks")]
pid = sys.argv[1]
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
mod = __import__(pid)
sys.exit(mod.main())
