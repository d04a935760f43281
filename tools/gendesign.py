"""DESIGN.md = design_head.md + design_props.md + findings and fixes + planted changes (tools/caught.txt)."""
import re
T = "/verif/tools/"
out = open(T + "design_head.md").read() + "\n" + open(T + "design_props.md").read()
k = open("/verif/known_findings.txt").read().splitlines()
out += "\n## 5. Genuine defects\n\nRecorded, not repaired (each needs a redesign of the single-threaded worker or of the vendored parser):\n\n"
for l in k:
    m = re.match(r"finding: property=(C\d\d) key=(\S+) (.*)", l)
    if m:
        out += "- **%s** `%s`: %s\n" % m.groups()
out += "\nRepaired by `fix:` commits in /repo, each shown failing by the check of its property before and passing after:\n\n"
for l in k:
    m = re.match(r"fixed: property=(C\d\d) (\S+) (.*)", l)
    if m:
        out += "- %s `%s` %s\n" % m.groups()
try:
    out += "\n" + open(T + "design_planted.md").read()
except FileNotFoundError:
    pass
open("/verif/DESIGN.md", "w").write(out)
