"""Appends the fix: commits of /repo that known_findings.txt lacks. Argument: default property."""
import subprocess
import sys

path = __file__.rsplit("/", 2)[0] + "/known_findings.txt"
text = open(path).read()
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "496fac3..HEAD"], text=True)
out = []
for line in log.splitlines():
    commit, subject = line.split(" ", 1)
    if commit in text or not subject.startswith("fix: "):
        continue
    subject = subject[5:]
    if "debug output" in subject:
        prop = "P05"
    elif "previously read" in subject:
        prop = "P02"
    elif "never end" in subject or "already read" in subject:
        prop = "P08"
    elif "raise ParseError" in subject:
        prop = "P06"
    else:
        prop = sys.argv[1]
    out.append(f"fixed: property={prop} {commit} did not {subject}".replace("did not do not ", "did "))
with open(path, "a") as f:
    f.write("".join(o + "\n" for o in out))
print("\n".join(out))
