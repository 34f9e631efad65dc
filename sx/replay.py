"""python3-vt -m sx.replay <replay file>: runs a recorded counterexample on the real code (exit 1 if it fails)."""
import json
import sys

from .run import native_replay


def main():
    with open(sys.argv[1]) as f:
        d = json.load(f)
    job = {"fn": d["fn"], "params": d["params"], "values": d["values"], "tier": d["tier"]}
    r = native_replay(d["property"], [job])[0]
    print(json.dumps(r, indent=1))
    sys.exit(1 if r["status"] == "failed" else 0)


if __name__ == "__main__":
    main()
