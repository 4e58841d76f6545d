"""Write spec/MtCmds.tla from the frozen command table spec/mtcmds.json.

spec/mtcmds.json was taken once from the pinned commit (reviewed, then frozen); no check
reads the table from /repo.  `gen_table.py --check` exits 1 if MtCmds.tla is out of step.
"""
import json
import os
import sys

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


def render(cmds):
    out = [
        "------------------------------- MODULE MtCmds -------------------------------",
        "(* The MT command set of the adapter, frozen.  Generated by vlib/gen_table.py  *)",
        "(* from spec/mtcmds.json.  ty: 1 SREQ, 2 AREQ, 3 SRSP; req/rsp: <<name, type>>. *)",
        "EXTENDS Naturals, Sequences",
        "",
        "Cmds == <<",
    ]

    def params(ps):
        return "<<" + ", ".join('<<"%s", "%s">>' % (n, t) for n, t in ps) + ">>"

    rows = []
    for c in cmds:
        rows.append(
            '  [ss |-> %d, id |-> %d, name |-> "%s", ty |-> %d,\n   req |-> %s,\n   rsp |-> %s]'
            % (c["ss"], c["id"], c["name"], c["ty"], params(c["req"]), params(c["rsp"]))
        )
    out.append(",\n".join(rows))
    out.append(">>")
    out.append("=" * 77)
    return "\n".join(out) + "\n"


if __name__ == "__main__":
    cmds = json.load(open(os.path.join(SPEC, "mtcmds.json")))
    text = render(cmds)
    path = os.path.join(SPEC, "MtCmds.tla")
    if "--check" in sys.argv:
        sys.exit(0 if open(path).read() == text else 1)
    open(path, "w").write(text)
