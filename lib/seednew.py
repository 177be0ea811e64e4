"""Development tool: writes a planted bug's directory.  bug(id, property, np, edits, needs, breaks, demo)
writes the change as a patch against /repo, with its demonstration, to /verif/seeded/<id>."""
import os, json, subprocess, shutil
R, S, T = "/repo", "/verif/seeded", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedtmpl")
def bug(id, prop, np, edits, needs, breaks, demo):
    d, cur = "", {}
    for f, old, new in edits:
        s = cur.get(f) or open(os.path.join(R, f)).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        cur[f] = s.replace(old, new)
    for f in sorted(cur):
        d += subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, os.path.join(R, f), "-"], input=cur[f], capture_output=True, text=True).stdout
    q = os.path.join(S, id); os.makedirs(q, exist_ok=True)
    open(q + "/patch.diff", "w").write(d)
    for f in ("demo.h", "demo.sh"): shutil.copy(os.path.join(T, f), q)
    open(q + "/np", "w").write("NP=%d\n" % np)
    open(q + "/demo.cpp", "w").write('#include "demo.h"\n' + demo.strip() + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(q + "/meta.json", "w"), indent=1)
