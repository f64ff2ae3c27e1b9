#!/usr/bin/env python3
"""Prints the `fixed:` lines of known_findings.txt for the fix commits of /repo, in order; PROPS names the property of each."""
import subprocess
import sys

PROPS = "T04 T01 T02 T03 T05 S01 S06 S07 S11 S01 X01 T03 S06 S04 S05 S06 S07 S08 T03 R01 R01 R03 R01 R01 R02 R04 R01 S09 S10 S11 R05 R05 S11 R06 R06 R07 R07 R08 R08 R08 R08 R08 R08 R09 R09 X03 X03 X03 X03 X03 G04 G03 G01 G01 S09 G02 G06 S05 G01 T01 G05 X04 X04 G07".split() + sys.argv[1:]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "cef15d5..HEAD"], capture_output=True, text=True).stdout.splitlines()
assert len(log) == len(PROPS), (len(log), len(PROPS))
for p, line in zip(PROPS, log):
    commit, msg = line.split(" ", 1)
    print("fixed: property=%s %s %s" % (p, commit, msg.replace("fix: ", "", 1)))
