"""setup_cmd: the tools are there, every specification parses, and the stand-ins import."""
import glob
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def parse(path):
    with tempfile.TemporaryDirectory() as tmp:
        p = subprocess.run(["java", "-Djava.io.tmpdir=" + tmp, "-cp", CP, "tla2sany.SANY", os.path.basename(path)],
                           cwd=V + "/spec", text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    bad = p.returncode != 0 or "*** Errors" in p.stdout or "Fatal errors" in p.stdout or "*** Abort" in p.stdout
    return path, bad, p.stdout


with ThreadPoolExecutor(8) as ex:
    for path, bad, out in ex.map(parse, sorted(glob.glob(V + "/spec/*.tla"))):
        if bad:
            print(out)
            sys.exit("does not parse: " + path)
code = ("import sys; sys.path.insert(0, %r); import common; common.setup(); import numba, sklearn.base, sklearn.pipeline, joblib, "
        "scipy.stats, matplotlib.pyplot, seaborn, networkx, aeon.datasets; print('ok')" % (V + "/harness"))
p = subprocess.run([os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python"), "-B", "-c", code], text=True, stdout=subprocess.PIPE)
if p.stdout.strip() != "ok":
    sys.exit("the stand-ins do not import")
print("ok")
