"""mkseed: write a planted change below /verif/seeded from textual edits against /repo's HEAD.
Used from small definition scripts: seed(id, property, needs, breaks, [(file, old, new)...], demo_c)."""
import json, os, subprocess, shutil

DEMO_SH = '''#!/bin/bash
# builds the demonstration against the library built by build.sh; cwd is the repository
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 99
trap 'rm -rf "$work"' EXIT
gcc -g -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -Iinclude -I_build/generated -Iarch/generic/include EXTRA \\
    "$here/demo.c" LIBS -lm -lpthread -o "$work/demo" || exit 98
cd "$work" && timeout 120 ./demo
'''


def seed(sid, prop, needs, breaks, edits, demo, libs="_build/libbfdev.a", extra=""):
    d = "/verif/seeded/" + sid
    w = "/tmp/mkseed"
    subprocess.run(["rm", "-rf", w])
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
    shutil.rmtree(w)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.c", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO_SH.replace("LIBS", libs).replace("EXTRA ", extra + " " if extra else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print("seed", sid)
