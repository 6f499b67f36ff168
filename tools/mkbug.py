"""tools/mkbug.py SPEC.py: SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (shell), FILES={name: text}.
Writes /verif/seeded/<ID>/ (patch.diff made in a scratch worktree copy of the edited files)."""
import json, os, subprocess, sys, tempfile, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
HEAD = '''#!/bin/bash
# run with cwd /repo after the build; exit 0 if the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
I=$PWD/_build/inst
export PATH=$I/bin:/usr/lib/llvm-18/bin:$PATH LD_LIBRARY_PATH=$I/lib LIBRARY_PATH=$I/lib
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
'''
for b in ns.get("BUGS", [ns]):
    d = "/verif/seeded/" + b["ID"]
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/w"])
    try:
        for f, old, new in b["EDITS"]:
            p = os.path.join(w, "w", f)
            s = open(p).read()
            assert s.count(old) == 1, (b["ID"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", w + "/w", "diff"], stdout=subprocess.PIPE, text=True).stdout
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/w"])
        shutil.rmtree(w, ignore_errors=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(HEAD + b["DEMO"])
    os.chmod(d + "/demo.sh", 0o755)
    for n, t in b.get("FILES", {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": b["PROPERTY"], "needs": b["NEEDS"], "what_it_breaks": b["BREAKS"]},
              open(d + "/meta.json", "w"), indent=1)
    print(b["ID"])
