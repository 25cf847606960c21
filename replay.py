#!/usr/bin/env python3
"""replay.py <property> <replay file> [--verbose 1]: rebuilds and replays one recorded violation; exit 1 if it fails as recorded."""
import os, re, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import buildlib
from checks import CHECKS
from check import PY
prop, path = sys.argv[1], sys.argv[2]
camp = re.search(r"^#campaign (\S+)", open(path).read(), re.M)
c = next((c for c in CHECKS[prop]["campaigns"] if not camp or c["name"] == camp.group(1)))
b = buildlib.build(c["target"])
cmd = [x.replace("{B}", b).replace("{PY}", PY).replace("{V}", V) for x in c["cmd"]]
p = c.get("prefix", 1)
env = dict(os.environ, **{k: v.replace("{B}", b) for k, v in c.get("env", {}).items()})
sys.exit(subprocess.run(cmd[:p] + ["replay"] + cmd[p:] + ["--file", path] + sys.argv[3:], env=env).returncode)
