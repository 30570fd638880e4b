"""Setup: nothing to build; checks that the tools the checks use are there."""
import os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(R + "/evidence", exist_ok=True)
sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo")]
sys.dont_write_bytecode = True
import onnx, onnxruntime, numpy  # noqa
assert os.path.exists("/opt/veriftools/tla/tla2tools.jar")
subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
print("ok")
