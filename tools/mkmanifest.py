"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "static analysis: abstract interpretation into normalised value graphs"
NOTES = {
    "C01": "summaries of every operator's roll and distribution compared with one integer function each, for symbolic operands",
    "C02": "max/min summaries compared with the extremes of the summarised distribution, for symbolic operands, counts and sides",
    "C03": "side tables computed for symbolic dice texts (rope domain) compared with the documented multiset",
    "C04": "roll summary (random draws as effects) and distribution fold of a pool with a symbolic number of dice",
    "C05": "roll, bounds and distribution of keep/drop summarised for symbolic counts",
    "C06": "additive-map summaries of every distribution operator over unknown outcome tables",
    "C07": "variable identities and constraints attached by assignments, over unknown distributions",
    "C08": "constraint classes interpreted on symbolic value sets and orders of insertion",
    "C09": "escape and mutation effects on objects that came from outside or were handed out",
    "C10": "loop summary of each interpreter query over an unknown program, effects in order",
    "C11": "summaries of the views over unknown outcome tables",
    "C12": "conditions under which each documented exception is raised",
    "C13": "token table, precedence table and productions extracted from the source and checked as data",
    "C14": "cost summaries and their effects",
    "C15": "effect and repeat-call analysis of every query",
    "C16": "event analysis of the drawing calls over unknown distributions",
    "C17": "symbolic equality and hash summaries",
    "C18": "text summaries (rope domain) lexed with the extracted token table",
    "C19": "set summaries over unknown operands",
    "C20": "provenance of the component used by every operation, for each combination of injected components",
}


def main():
    ids = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8") if x.strip()]
    checks, na = [], []
    for pid in ids:
        if os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")):
            checks.append({
                "property": pid,
                "quick_cmd": "python3 -m checks.run %s" % pid,
                "thorough_cmd": "VERIF_TIER=thorough python3 -m checks.run %s" % pid,
                "technique": TECH + "; " + NOTES[pid],
                "level": "other",
                "level_note": "Decided from the source on every run: each obligation compares the value graph of the code with that of the "
                              "specification; equal normal forms hold for every input, different graphs are reported only with a valuation that "
                              "separates the two terms, and graphs that differ but are not separated by the valuations tried are accepted. Trusts the "
                              "analyser's models of builtins, re, random, copy, rply, matplotlib and PIL.",
            })
        else:
            na.append({"property": pid, "reason": "check under construction"})
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q engine checks", "checks": checks, "not_applicable": na,
         "notes": "All checks are one static analyser (engine/) with one rule file per property (checks/). No hooks in /repo."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
