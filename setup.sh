#!/bin/bash
# nothing to build: the checks generate bindings from /repo on every run
cd "$(dirname "$0")" || exit 1
for p in /opt/venv/bin/python python3; do command -v $p >/dev/null && { PYTHONPATH=/repo $p -B -c 'import pyang, lxml, regex; print("ok")'; exit $?; }; done
exit 1
