"""One table -> properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md.

    python tools/props.py        (re)writes the generated files
"""

import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, text, why, files, mech, design, over=("inputs", "configurations"), note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(
        dict(id=id, title=title, statement=" ".join(statement.split()), over=list(over), text=" ".join(text.split()),
             why=" ".join(why.split()), files=files, mech=mech, design=" ".join(design.split()), note=note)
    )


exec(open(os.path.join(HERE, "tools", "table.py")).read())

KF_COMMITS = json.load(open(os.path.join(HERE, "tools", "fixes.json")))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(
                json.dumps(
                    {
                        "id": p["id"],
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": {"over": p["over"], "text": p["text"]},
                        "why_tests_cant": p["why"],
                        "anchors": {
                            "files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "hook_needed": None,
                        },
                    }
                )
                + "\n"
            )
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"./check {p['id']} quick",
                "thorough_cmd": f"./check {p['id']} thorough",
                "technique": "property-based testing (Hypothesis generators, shrinking, explicit oracles)",
                "level": "exploration",
                "level_note": p["note"] or "random structured inputs within the bounds recorded in the evidence file; not exhaustive",
            }
            for p in P
        ],
        "not_applicable": [],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
    # repaired defects
    known = json.load(open(os.path.join(HERE, "tools", "findings.json")))
    log = subprocess.run(
        ["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "--reverse", "--format=%h %s"], capture_output=True, text=True
    ).stdout.splitlines()
    fixed = []
    for line in log:
        h, s = line.split(" ", 1)
        if not s.startswith("fix:"):
            continue
        s = s[4:].strip()
        owner = [v for k, v in KF_COMMITS.items() if s.startswith(k)]
        if owner == [None]:  # reverted
            continue
        if not owner:
            print("no property for fix:", s)
            continue
        fixed.append(
            {"property": owner[0], "status": "fixed", "commit": h, "what": f"fixed: property={owner[0]} {h} {s}"}
        )
    with open(os.path.join(HERE, "known_findings.json"), "w") as fh:
        json.dump({"findings": known + fixed}, fh, indent=1)
        fh.write("\n")
    head = open(os.path.join(HERE, "tools", "design_head.md")).read()
    tail = open(os.path.join(HERE, "tools", "design_tail.md")).read()
    body = []
    for p in P:
        body.append(f"### {p['id']} - {p['title']}\n\n*Property.* {p['statement']}\n\n*How it is decided.* {p['design']}\n\n*Why tests cannot.* {p['why']}\n")
    fx = "\n".join(f"- `{f['commit']}` ({f['property']}) {f['what'].split(' ', 3)[3]}" for f in fixed)
    kf = "\n".join(f"- {f['property']} / {f['sub']}: {f['what']}" for f in known) or "none"
    with open(os.path.join(HERE, "DESIGN.md"), "w") as fh:
        fh.write(head + "\n".join(body) + tail.replace("@@FIXED@@", fx).replace("@@KNOWN@@", kf))


if __name__ == "__main__":
    main()
