"""Nothing to compile: checks that the tools are there and that every specification parses."""
import glob, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(R, "evidence"), exist_ok=True)
d = "/opt/veriftools/tla"
cp = ":".join([d + "/tla2tools.jar"] + sorted(glob.glob(d + "/CommunityModules*.jar")))
bad = 0
for f in sorted(glob.glob(os.path.join(R, "spec", "*.tla"))):
    p = subprocess.run(["java", "-cp", cp, "tla2sany.SANY", os.path.basename(f)], cwd=os.path.dirname(f),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = p.returncode == 0 and "*** Errors" not in p.stdout
    print(os.path.basename(f), "ok" if ok else "FAILED\n" + p.stdout)
    bad |= not ok
sys.exit(1 if bad else 0)
