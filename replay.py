"""python replay.py FILE -- re-run a recorded counterexample on the real code.
Prints the real outputs at the recorded inputs next to the broken claims;
exit 1 when the real code still gives the recorded outputs."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))


def main():
    rec = json.load(open(sys.argv[1]))
    p = subprocess.run([sys.executable, os.path.join(VERIF, "symx", "conc.py"), rec["module"]],
                       input=json.dumps({"case": rec["case"], "vals": rec["inputs"], "confirm": rec.get("confirm", False), "prior": rec.get("prior")}) + "\n",
                       capture_output=True, text=True, cwd=VERIF)
    got = json.loads(p.stdout.strip().splitlines()[-1])
    print("property", rec["property"], "case", rec["case"])
    print("inputs  ", rec["inputs"])
    print("broken  ", rec["claim"], ":", rec["observed"])
    print("error   ", got.get("error")) if "error" in got else None
    same = True
    for k, v in rec["real_outputs"].items():
        w = got.get("out", {}).get(k)
        print(f"  {k} = {w}" + ("" if w == v else f"   (recorded: {v})"))
        same = same and w == v
    same = same and got.get("error") == rec.get("error")
    print("REPRODUCED" if same else "outputs differ from the recorded violation")
    sys.exit(1 if same else 0)


if __name__ == "__main__":
    main()
