"""writes MANIFEST.json from properties.jsonl and analyser/props.py"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analyser"))
sys.dont_write_bytecode = True
import props                                                               # noqa: E402

NA = {
    "C60": "The claim that the verification equation holds is arithmetic over the secp256k1 group inside libsecp256k1; no static argument over kms's source decides it. C40 decides that the right digest and key reach the primitive.",
    "C61": "Unpredictability and non-repetition are statements about probability distributions of the operating system's generator. C05 decides that all entropy comes from it and from nothing else.",
    "C62": "One-wayness and distinctness of derived keys rest on cryptographic hardness and collision resistance of HMAC-SHA512. C21 and C22 decide that exactly that function is applied.",
    "C63": "Running time depends on the compiled code of libsecp256k1, sha2 and pbkdf2 and on the machine, not on anything the source of kms determines. C49 decides the one control-flow claim kms itself makes.",
}
TECH = "abstract interpretation of MIR (provenance terms, path-sensitive guards)"
NOTE = ("Decides every path of the analysed entry points for arbitrary inputs of the listed shapes, from the type-checked program of the current tree. "
        "Trusts rustc's MIR, the models of std and of the cryptographic crates, and their documented meaning. Code the models do not cover is reported as undecided, never as a violation.")


def main():
    ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
    checks, na = [], []
    for i in ids:
        if i in props.SPECS:
            checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check %s --thorough" % i,
                           "technique": props.TECH.get(i, TECH), "level": "other", "level_note": props.NOTES.get(i, NOTE)})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks: the checks analyse /repo's library as it is. Findings and repairs: known-findings.txt."}
    with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
