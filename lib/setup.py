"""Fresh-sandbox setup: the tools are there and every module of the specification parses."""
import glob, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
os.makedirs(V + "/evidence/replay", exist_ok=True)
os.makedirs(V + "/build", exist_ok=True)


def sany(f):
    p = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", f], capture_output=True, text=True, cwd=V + "/spec")
    return f, p.returncode, p.stdout + p.stderr


for t in (["gcc", "--version"], ["g++", "--version"], ["java", "-version"]):
    subprocess.run(t, check=True, capture_output=True)
with ThreadPoolExecutor(8) as ex:
    res = list(ex.map(sany, sorted(glob.glob(V + "/spec/*.tla"))))
bad = [r for r in res if r[1]]
for f, rc, out in bad:
    print(f, out[-1500:])
print("%d modules parse" % (len(res) - len(bad)))
sys.exit(1 if bad else 0)
