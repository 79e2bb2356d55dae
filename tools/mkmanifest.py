import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: contracts on the C functions, symbolic execution of the compiler IR of /repo's sources, obligations discharged by exact polynomial identities and z3 linear integer arithmetic"
GEN = " Trusts the clang front end, the instruction semantics in vf/exe.py and vf/asm.py, exact integer polynomials (vf/poly.py) and z3; assumptions are listed in the evidence file."
TECHS = {}
CLAIM = {
 "C01": "Proof for all inputs of every full-radix contract of Fp25519, under every permitted overlap of arguments." + GEN,
 "C02": "Proof for all operands within the stated digit bounds, every lane of the 1-, 2- and 4-way representations of Fp25519, including absence of 64-bit overflow and the bounds of results." + GEN,
 "C03": "Proof for all inputs of every full-radix contract of Fp448, under every permitted overlap of arguments." + GEN,
 "C04": "Proof for all operands within the stated digit bounds, every lane of the 1-, 2- and 4-way representations of Fp448, including absence of 64-bit overflow and the bounds of results." + GEN,
}
exec(open(os.path.join(V, "tools", "claims.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims.py")) else None
NA = {
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []; na = []
for p in props:
    i = p["id"]
    if i in CLAIM:
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3-vt -m vf.check %s" % i, thorough_cmd="VERIF_TIER=thorough python3-vt -m vf.check %s" % i,
                           technique=TECHS.get(i, TECH), level="proof", level_note=CLAIM[i]))
    else: na.append(dict(property=i, reason=NA.get(i, "not yet under contract: work in progress, no claim is made")))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, vf.check'", checks=checks, not_applicable=na,
         notes="One command per property: python3-vt -m vf.check <id>. Known defects: known_findings.txt. Design: DESIGN.md. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
