"""mut.py ID FILE OLD NEW: run check ID against a scratch copy of the library with OLD replaced by NEW (development aid)."""
import os, shutil, subprocess, sys, tempfile
pid, f, old, new = sys.argv[1:5]
old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
d = tempfile.mkdtemp(prefix="pvmut_")
try:
    shutil.copytree("/repo/sdk/python/lib", d + "/lib", ignore=shutil.ignore_patterns("test", "__pycache__"))
    p = d + "/lib/pulumi/" + f
    s = open(p).read()
    if old not in s:
        sys.exit("pattern not found")
    open(p, "w").write(s.replace(old, new, 1))
    r = subprocess.run([sys.executable, "/verif/check.py", pid] + sys.argv[5:], env=dict(os.environ, PV_REPO_LIB=d + "/lib"), capture_output=True, text=True)
    print(r.stdout[-1800:], r.stderr[-500:])
finally:
    shutil.rmtree(d)
