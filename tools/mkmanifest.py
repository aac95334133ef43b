"""Write MANIFEST.json from the checks present and the tables below."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    "C01": "may-alias and in-place-effect analysis",
    "C02": "definite-assignment and cache-lifetime analysis of object state",
    "C03": "ownership typestate of nested estimators",
    "C04": "constructor parameter-flow analysis",
    "C05": "option reachability and value-flow analysis",
    "C06": "must-assign analysis of fitted state and exit values",
    "C07": "agreement of routing declarations with routed uses",
    "C08": "value-graph constraint extraction: presence under all options and formal direction",
    "C09": "homogeneity-degree inference over extracted constraints",
    "C10": "formal-sign analysis of cost and fee terms",
    "C11": "exception-path and must-pass-through analysis of the solve routine",
    "C12": "exhaustive expansion of risk-measure dispatch and tail-parameter agreement",
    "C13": "formal-sign analysis of worst-case terms",
    "C14": "table agreement between measure enums, functions, slots and annualisation",
    "C15": "effect analysis of setters against cached figures",
    "C16": "formal-direction analysis of comparisons and scores",
    "C17": "parameter preservation of rebuilds",
    "C18": "must-validate-before-insert analysis",
    "C19": "affine comparison of the bounds of every split",
    "C20": "affine cover of the purged rows and axis-kind inference",
    "C21": "row-provenance analysis of fit and predict calls",
    "C22": "who-may-call analysis of random sources and seed provenance",
    "C23": "who-may-write and must-pass-through analysis of covariance repair",
    "C24": "must-convert analysis of per-asset inputs",
    "C25": "token-table and sign analysis of the constraint parser",
    "C26": "mask provenance and direction analysis",
    "C27": "value-graph extraction, exact symbolic algebra and interval abstract interpretation",
    "C28": "transformation pairing and ordering analysis",
    "C29": "share complementarity and validation dominance",
    "C30": "exhaustiveness analysis over enumerations",
    "C31": "file-effect ordering analysis",
    "C32": "dataflow of the price conversion options",
    "C34": "inference of units (degree of homogeneity) and of translation over the value graph",
    "C35": "value-graph extraction, exact symbolic algebra and interval abstract interpretation",
    "C36": "value-graph extraction of formulas and identity testing against independent definitions",
    "C37": "value-graph extraction of formulas and identity testing against independent definitions",
    "C38": "symbolic extraction of the optimisation problem, exact linear programming at arbitrary data and weights",
}
NOTE = (
    "Static analysis: decides structural conditions that are necessary for the property on "
    "every path of the analysed source; numerical outcomes are outside its reach."
)
NA = {
    "C33": "Optimality of a numerical solution depends on the solver's arithmetic; source analysis "
    "can show what problem is posed (C08-C13) but not that the returned point is optimal.",
}


def main():
    ids = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
    have = {
        f[:-3].upper()
        for f in os.listdir(os.path.join(ROOT, "checks"))
        if f[0] == "c" and f[1:3].isdigit() and f.endswith(".py")
    }
    checks, na = [], []
    for i in ids:
        if i in have:
            checks.append({
                "property": i,
                "quick_cmd": f"python3 run.py {i} --tier quick",
                "thorough_cmd": f"python3 run.py {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": f"static analysis: {TECH[i]}",
                "level": "other",
                "level_note": NOTE,
            })  # fmt: skip
        else:
            na.append({"property": i, "reason": NA.get(i, "No static check built for it yet.")})
    m = {"version": 1, "setup_cmd": "python3 -V", "checks": checks, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
