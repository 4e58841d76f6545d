import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "vlib"))
from plan import PLAN
TECH = {
 "wire": "TLA+ (Unpi/Codec) model checked with TLC; recorded reads and writes of the real driver checked against it by TLC",
 "host": "TLA+ (Host) model checked with TLC; TLC-generated schedules and random histories run on the real driver, recordings checked against it by TLC",
 "startup": "TLA+ (Znp/Startup) model checked with TLC; TLC-generated adapter situations and faults run on the real start, recordings checked against it by TLC",
 "link": "TLA+ (Link) model checked with TLC incl. liveness; TLC-generated troubles run on the real driver, recordings checked against it by TLC",
}
NOTE = {
 "wire": "The framing and field codec of the specification are checked exhaustively within small bounds; the real parser/encoder is bound to them by exhaustive small streams plus seeded random ones for every command of the table. Assumes the MT command table in spec/mtcmds.json.",
 "host": "The specification is explored exhaustively for small menus of calls and frames; the real driver is bound to it by recordings of its whole observable behaviour under generated schedules and seeded random histories, on a virtual clock with a stand-in serial port. Not a proof for all histories.",
 "startup": "The contract is checked on a reference program for every adapter situation and every single fault within bounds; the real start is bound to it by recordings against a simulated adapter whose replies the specification itself verifies. Trusts spec/Znp.tla as the adapter's behaviour.",
 "link": "The contract and its liveness are checked for all placements of a bounded number of losses, failures and a shutdown; the real driver is bound to it by recordings under those placements and random ones. Assumes asyncio's transport contract.",
}
checks = []
for p in sorted(PLAN):
    fam = PLAN[p]["runs"][0]["family"]
    checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p,
        thorough_cmd="python3 check.py %s --tier thorough" % p,
        evidence_file="evidence/%s.json" % p, technique=TECH[fam], level="model_checking", level_note=NOTE[fam]))
json.dump(dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="none (no hooks: the checks observe the serial port and the public API only)", enable="nothing to enable", source_commits=[]),
    checks=checks, not_applicable=[],
    notes="Specification language: TLA+ with TLC (see DESIGN.md). known-findings.txt lists the defects found; violations are replayed with: python3 check.py --replay FILE"),
    open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
