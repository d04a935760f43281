"""Writes the fixed: lines of known_findings.txt from /repo's fix: commits and the property each belongs to."""
import re, subprocess
P = """98466fc C01;f68e83f C02;d658bf4 C01;395fc07 C04;18db34d C07;b85e1cf C08;bdcb385 C08;bcb22e4 C08;3341167 C07;f4444c4 C06;b005177 C07
9468479 C07;e580db4 C03;5f63da8 C05;a8382cd C03;406b336 C08;3e4ccb7 C05;cc10ca3 C05;5a5f4ca C06;f1613ad C10;941ba6a C10;16accd7 C10
e802db9 C10;392b2cf C11;8127f26 C25;8b63c7e C08;8d10cc1 C08;0682994 C09;ddca14f C04;b614745 C25;1727d5d C24;cc5d8e4 C17;1252cbf C18
21e0c40 C18;7e39018 C18;dfc5b6f C18;55e713f C18;28a5e35 C18;2c1c8cb C18;b100c4e C19;298c2f8 C20;f8dce89 C16;2e76548 C15;b54886a C15
b78f44c C16;3cce346 C16;96febba C16;924b0ae C20;4ef544f C16;2d2855d C21;03f6f01 C21;638ab74 C21;7a6e824 C22;3c5e102 C22;eebd157 C22
50fc4c3 C23;6ef9f57 C27;b33b266 C29;5f0606e C28;4080728 C29;836802b C28;3b9b3c8 C29;f126194 C29
addd7e8 C30;191ecd9 C30;f57671b C30"""
prop = dict(re.findall(r"(\w{7}) (C\d\d)", P))
import sys
for k in sys.argv[1:]:
    h, p = k.split("="); prop[h] = p
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "9ce8f89..HEAD"], text=True)
lines = [l for l in open("/verif/known_findings.txt") if not l.startswith("fixed:")]
for l in log.splitlines():
    h, s = l.split(" ", 1)
    guess = prop.get(h[:7])
    if guess is None:
        guess = "C26" if any(w in s for w in ("switcher", "trace_section", "weak provider")) else None
    assert guess, l
    lines.append("fixed: property=%s %s %s\n" % (guess, h, s[len("fix: "):]))
open("/verif/known_findings.txt", "w").writelines(lines)
