"""
Writes MANIFEST.json from properties.jsonl and the check modules there are.
"""

import ast, json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def bounds(path):
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and node.targets[0].id == 'BOUNDS':
            b = ast.literal_eval(node.value)
            return b if isinstance(b, str) else b['quick']


def main():
    checks = []; missing = []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        ID = json.loads(line)['id']
        path = os.path.join(HERE, "mc", ID.lower() + ".py")
        if not os.path.exists(path):
            missing.append({'property': ID, 'reason': "check not built yet"})
            continue
        checks.append({
            'property': ID,
            'quick_cmd': "./run {} --tier quick".format(ID),
            'thorough_cmd': "./run {} --tier thorough".format(ID),
            'technique': "stateless model checking of the real code (exhaustive "
            "depth-first enumeration of decisions with prefix replay)",
            'level': "model_checking",
            'level_note': "Exhaustive within these bounds (quick tier), executed on the code in "
            "/repo itself, each execution compared with a reference: {}. Trusts the harness's "
            "control of time, randomness and evaluation completion (checked by replay) and the "
            "third-party libraries.".format(bounds(path)),
            'evidence_file': "evidence/{}.json".format(ID),
        })
    m = {
        'version': 1,
        'setup_cmd': "bash setup.sh",
        'checks': checks,
        'not_applicable': missing,
        'notes': "No hooks in /repo. Findings: KNOWN_FINDINGS.txt. Design: DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")

main()
