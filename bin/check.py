#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   or   check.py <property> replay <file>   or   check.py setup"""
import importlib, os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
import vlib
if __name__ == "__main__":
    if sys.argv[1] == "setup":
        try:
            vlib.setup()
        except vlib.CheckError as e:
            print(e); sys.exit(2)
        sys.exit(0)
    chk = importlib.import_module(sys.argv[1].lower()).CHECK
    if len(sys.argv) > 2 and sys.argv[2] == "replay":
        import re, json
        vlib.setup()
        un = lambda x: re.sub(rb"%([0-9a-f]{2})", lambda m: bytes([int(m[1], 16)]), x.encode()).decode("latin-1").encode("latin-1")
        sc = [[un(x) for x in l.rstrip("\n").split("\t")] for l in open(sys.argv[3]) if not l.startswith("#")]
        chk.script = lambda s: s
        os.makedirs(vlib.BUILD + "/run", exist_ok=True)
        with tempfile.TemporaryDirectory(dir=vlib.BUILD + "/run") as w:
            r = chk.one(sc, w)
        print(json.dumps(r, indent=1))
        sys.exit(1 if r else 0)
    sys.exit(vlib.main(chk, sys.argv[2:]))
