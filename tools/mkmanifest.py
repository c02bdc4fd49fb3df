"""writes /verif/MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JX = "contracts on the jaxpr traced from /repo on every run; obligations discharged by z3/cvc5 (unbounded sizes)"
NOTE_JX = ("Every obligation generated from the traced function is discharged for all sizes and all real inputs; numbers are reals, "
           "dependency functions (jax primitives) by assumed contract; a concrete run of the same contract on the real code cross-checks the extraction.")
CLAIMS = {
    "C01": (JX, "proof", NOTE_JX), "C02": (JX, "proof", NOTE_JX), "C03": (JX, "proof", NOTE_JX), "C04": (JX, "proof", NOTE_JX),
    "C08": (JX, "proof", NOTE_JX), "C09": (JX + "; ghost log of key uses over a free key algebra", "proof", NOTE_JX),
    "C10": (JX, "proof", NOTE_JX), "C11": (JX, "proof", NOTE_JX), "C12": (JX, "proof", NOTE_JX), "C13": (JX, "proof", NOTE_JX),
    "C32": (JX, "proof", NOTE_JX + " The distribution of the base draws and textbook identities between distributions are assumed."),
}
try:
    from claims import MORE
    CLAIMS.update(MORE)
except ImportError:
    pass
NA = {
}
ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
checks = [dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="VERIF_TIER=thorough ./check %s" % i, technique=CLAIMS[i][0],
               level=CLAIMS[i][1], level_note=CLAIMS[i][2]) for i in ids if i in CLAIMS]
na = [dict(property=i, reason=NA.get(i, "not built yet")) for i in ids if i not in CLAIMS]
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="See DESIGN.md. No hooks are needed: the checks read and trace /repo's working tree."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
