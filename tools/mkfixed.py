"""Development aid: rewrites the 'fixed:' lines of known_findings.txt from /repo's fix: commits (property ids below)."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}
def p(ids, *cs):
    for c in cs:
        P[c] = ids
p("C20", "9627473"); p("C19", "48f467c"); p("C18,C19", "1742687"); p("C06", "3c5e864"); p("C10", "8a13c2b", "0a32ac2", "4cbef06", "c6ce8c2", "2cc60ef", "3854934")
p("C05,C07,C09", "1c10637"); p("C13", "07dcc49"); p("C07", "dc4d9a9"); p("C08,C12", "f7c4a3d"); p("C18", "dafee3d", "36a626b", "fbeed73"); p("C15,C21", "963651d")
p("C24", "5600a13", "abbf494"); p("C25", "e593091", "8acb021", "40c5715", "bfa66fa"); p("C21", "d1a486e", "6834489"); p("C09", "86d1790", "c6702a4"); p("C08", "92c5520"); p("C14", "43dfdcf"); p("C26", "22089e6"); p("C02", "1960a0d"); p("C03,C08", "82663fc")
p("C16", "d064d4d"); p("C15", "7d8ff79", "4c22520", "f0d4f0d", "6b084e0", "fd2a394", "1542831"); p("C01,C02,C23", "6ad8549"); p("C01,C02", "6d86f11", "a70fd5a", "be9934f", "a493027")
p("C04,C15,C22,C23", "2aebc3b"); p("C01,C02,C04,C22,C23", "8567df3"); p("C09,C23", "5371767"); p("C04,C05,C17,C22,C23", "a36eac4"); p("C04,C23", "d0a564b")
p("C04,C15,C22", "66b0f42"); p("C11,C23", "5f67fae"); p("C01,C02,C09,C23", "a4a51ec", "438a3f2"); p("C01,C09,C23", "a77e00e"); p("C03,C04,C22,C23", "6b40645"); p("C04,C05,C09,C17,C22,C23", "b255959")
p("C09,C23", "6fdcdb9", "34699ea"); p("C02,C23", "f137b31"); p("C03,C23", "10391ce"); p("C02", "0c35c18", "a2e512f", "553a708"); p("C01", "d554279"); p("C09", "4213178", "43293aa"); p("C15,C04", "fa42883")
p("C27", "5c03b2d", "ec16b60", "2d5fc23", "ff54ca4", "656111d", "40d4734", "36f8ee5", "3601043", "0fd4b5a", "dbd7c88", "87fa033", "afdb56b", "bbeeff1", "f5bac1b", "652a93e", "d5d338a", "921fc9f", "9d4502c", "3bc4146", "bcc1510", "211a599", "6490b6d", "80f4fcd", "6310df2", "27abb2f", "4d9deae", "430ca9a", "b6890eb", "2fb3f51", "7305d42"); p("C28", "3bcd0a0"); p("C11", "36d1591")
p("C31", "3545df4", "b0bf049", "32a37f9"); p("C30", "44d06a7", "da792e4"); p("C27,C30", "be0f5fd")
p("C35", "affd8c6", "d653b9a", "8af7837"); p("C36", "6e84dec", "a460d6e"); p("C34", "3df8140"); p("C24", "5ae234b"); p("C23", "598daf5", "92a9e56")
f = os.path.join(V, "known_findings.txt")
keep = [l for l in open(f)] if os.path.exists(f) else []
keep = [l for l in keep if not l.startswith("fixed:")]
if not keep:
    keep = ["# known: property=<id> site=<site> kind=<kind> :: <what fails> :: case=<pinned case>   (reported as KNOWN-FINDING)\n",
            "# fixed: property=<id> <commit> <what failed>                                          (repaired in /repo; suppresses nothing)\n"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split("\t", 1)
    if s.startswith("fix: "):
        for i in P.get(h, "C23").split(","):
            keep.append("fixed: property=%s %s %s\n" % (i, h, s[5:]))
open(f, "w").writelines(keep)
