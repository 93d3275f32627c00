#!/usr/bin/env python3
# writes MANIFEST.json; keep CHECKS in step with properties.jsonl
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX="bounded exhaustive enumeration of executions of the real code against a reference model"
CHECKS={
 "E01":(EX,"every destination type x every boundary/near-boundary wire value and every text up to a length over a token alphabet, from every prior destination state; exact big-integer reference"),
 "E02":("explicit-state exploration of scan histories on the real scanners","every sequence of wire values up to the depth, driver buffer overwritten after each step; each final state compared with the single-scan state and every earlier observed value re-read"),
 "E03":(EX,"every scalar/text/binary/JSON destination x every wire form x boundary values, plus write-then-read round trips through every wire form a driver may choose"),
 "E04":(EX,"every array size and element type x every text up to the size bound over an alphabet with 1-4 byte runes and invalid bytes, from every prior content"),
 "E05":(EX+" (PostgreSQL array_in/array_out grammar model)","every list up to the length bound over adversarial elements, every server rendering, and every text over the token alphabet up to the bound, judged by a reference array grammar"),
 "E06":(EX+" (JSON model)","every list up to the length bound over adversarial elements, every JSON spelling, every text over the token alphabet up to the bound, judged by encoding/json"),
 "E07":(EX+" (SQL lexer model)","every identifier up to the length bound over an adversarial alphabet in every dialect, and every literal, re-read by a reference SQL lexer"),
}
try:
    exec(open(os.path.join(here,"tools","checks_more.py")).read())
except FileNotFoundError:
    pass
NA={}
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
m={"version":1,"setup_cmd":"./setup.sh",
 "hooks":{"guard":"verif","enable":"no hooks in /repo are needed: the checks build /repo's packages as they are (with a scratch go.work) and replace nothing but the imports of generated code in scratch directories","source_commits":[]},
 "checks":[],"not_applicable":[],
 "notes":"Every check copies its harness to a scratch directory, builds it against /repo's working tree, enumerates, and writes evidence/<id>.json. See DESIGN.md."}
for p in props:
    i=p["id"]
    if i in CHECKS:
        t,n=CHECKS[i]
        m["checks"].append({"property":i,"quick_cmd":"./run.sh %s quick"%i,"thorough_cmd":"./run.sh %s thorough"%i,"technique":t,"level":"model_checking","level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"no check has been built for it yet")})
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
print(len(m["checks"]),"checks")
