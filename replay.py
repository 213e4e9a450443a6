#!/opt/venv/bin/python
"""replay.py FILE: reproduce a recorded violation.  --minimise shrinks the file in place first."""

import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    args = [x for x in sys.argv[1:] if not x.startswith("--")]
    if os.environ.get("OMP_NUM_THREADS") != "1" or os.environ.get("PYTHONHASHSEED") is None:
        from check import environment

        os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv, environment())
    rec = json.load(open(args[0]))
    from dst import engine, worker
    from dst.props import CHECKS

    chk = CHECKS[rec["property"]]()
    engine.boot()
    srv = engine.Server()
    scn = rec["scenario"]
    if "--minimise" in sys.argv:
        small, tried = worker.minimise(srv, chk, scn, rec["class"], 60)
        r = worker.one(srv, chk, json.loads(json.dumps(small)))
        hit = [v for v in r["violations"] if v["cls"] == rec["class"]]
        if hit:
            rec["scenario"] = small
            rec["message"] = hit[0]["msg"]
            rec["minimised"] = {"candidates_tried": tried}
            json.dump(rec, open(args[0], "w"), indent=1)
            print("minimised to:", json.dumps(small)[:1500])
    r = worker.one(srv, chk, json.loads(json.dumps(rec["scenario"])))
    if r["status"] != "ok":
        print("ERROR", r["status"], r.get("error"))
        return 2
    hit = [v for v in r["violations"] if v["cls"] == rec["class"]]
    for v in hit or r["violations"]:
        print(f"[{v['cls']}] {v['msg'][:1000]}")
    print("reproduced" if hit else "not reproduced")
    return 1 if hit else 0


if __name__ == "__main__":
    sys.exit(main())
