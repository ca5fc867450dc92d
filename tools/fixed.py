"""Regenerates the 'fixed:' lines of known_findings.txt from /repo's fix commits: property ids in commit order."""
import subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDS = ("C01 C03 C23 C23 C23 C08 C08 C07 C03 C14 C14 C14 C24 C24 C24 C24 C24 C16 C16 C16 C15 C03 C05 C06 C06 C23 C26 C09 C11 C04 C11 C09 C10 C10 C10 C09 C09 C10 C10 "
       "C12 C12 C12 C12 C13 C13 C12 C13 C13 C13 C13 C13 C13 C13 C27 C27 C17 C17 C17 C03 C18 C18 C18 C18 C18 C18 C18 C18 C18 C18 C18").split()
MORE = ("C04 C04 C04 C04 C19 C19 C19 C19 C20 C20 C01 C20 C20 C21 C21 C20 C21 C21 C21 C21 C21 C21 C22 C22 C22 C22 C22 C22 C22 C22 C22 C22 C21 C22 C22 C28 C28 C28 C28 C28 C28 C28 C28 C01 C20 C20 C20 C20 C17 C17 C29 C29 C29 C29 C29 C29 C29 C13 C16 C29 C12 C17 C18 C20 C16 C18").split()      # appended as later fixes are made
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "a5681b7..HEAD"], text=True).splitlines()
fix = [l for l in log if " fix: " in l]
ids = IDS + MORE
assert len(ids) == len(fix), (len(ids), len(fix))
path = os.path.join(ROOT, "known_findings.txt")
keep = [l for l in open(path).read().splitlines() if not l.startswith("fixed:")]
open(path, "w").write("\n".join(keep + ["fixed: property=%s %s %s" % (i, l.split()[0], l.split(" fix: ")[1]) for i, l in zip(ids, fix)]) + "\n")
