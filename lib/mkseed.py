"""mkseed.py ID PROPERTY FILE 'needs' 'what it breaks' < edits     (development tool, no check uses it)

Plants a bug: stdin holds  <<<old===new>>>  replacements for FILE in /repo, then  @@@  and the text of demo.py.
Writes /verif/seeded/ID, confirms it (tests pass, demo fails with and passes without), and runs the property's check.
"""
import json
import os
import re
import subprocess
import sys


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def main():
    sid, prop, fname, needs, breaks = sys.argv[1:6]
    edits, demo = sys.stdin.read().split("\n@@@\n")
    d = "/verif/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain -uno").stdout.strip(), "/repo is dirty"
    path = "/repo/" + fname
    s = open(path).read()
    for m in re.finditer(r"<<<(.*?)===>(.*?)>>>", edits, re.S):
        old, new = m.group(1).strip("\n"), m.group(2).strip("\n")
        assert s.count(old) == 1, ("not unique", s.count(old), old)
        s = s.replace(old, new)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/env.sh\nexport HOME=$(mktemp -d)\ntrap \'rm -rf "$HOME"\' EXIT\n'
                                    'cp /repo/resources/viscidrc "$HOME/.viscidrc" 2>/dev/null\n'
                                    'cd "$HOME" && python -W ignore "$(dirname "$(readlink -f "$0")")/demo.py"\n'
                                    if False else
                                    '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\n. /opt/vp/env.sh\nT=$(mktemp -d)\n'
                                    'cd "$T" && python -W ignore "$D/demo.py"\nrc=$?\nrm -rf "$T"\nexit $rc\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    if r.returncode != 0:
        print("DEMO FAILS ON CLEAN TREE\n" + r.stdout[-1500:])
        return 1
    open(path, "w").write(s)
    try:
        if fname.endswith((".pyx", ".pxd")):
            sh("bash /opt/vp/build.sh")
        diff = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(diff)
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        print("demo with patch: rc", r.returncode, r.stdout.strip()[-200:].replace("\n", " | "))
        if r.returncode == 0:
            return 1
        if "--notest" not in sys.argv:
            r = sh("bash /opt/vp/test.sh /tmp/mkseed.json")
            print("tests:", r.stdout.strip().splitlines()[-1])
        r = sh("timeout 900 ./check %s" % prop, cwd="/verif", env=dict(os.environ, VERIF_SEED="1"))
        print("check rc", r.returncode, [l[:300] for l in r.stdout.splitlines() if l.startswith(("verdict", "OK", "driver", "VIOL"))])
    finally:
        sh("git -C /repo checkout -- .")
        if fname.endswith((".pyx", ".pxd")):
            sh("bash /opt/vp/build.sh")
    return 0


if __name__ == "__main__":
    sys.exit(main())
