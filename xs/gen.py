"""Writes properties.jsonl and MANIFEST.json from props.py."""
import glob
import json
from . import props
from .build import VERIF


def main():
    with open(f"{VERIF}/properties.jsonl", "w", encoding="utf-8") as f:
        for p in props.P + props.NAP:
            anchors = {"files": p["files"], "mechanism": p["mechanism"]}
            if p.get("observe"):
                anchors["observe_at"] = p["observe"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 -m xs.build",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"python3 -m xs.run {p['id']}",
            "thorough_cmd": f"python3 -m xs.run {p['id']} --tier thorough",
            "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in props.P],
        "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in props.NAP],
    }
    with open(f"{VERIF}/MANIFEST.json", "w", encoding="utf-8") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    design()


def design():
    """The generated sections of DESIGN.md."""
    path = f"{VERIF}/DESIGN.md"
    text = open(path, encoding="utf-8").read()
    props_ = []
    for p in props.P:
        props_ += [f"### {p['id']} {p['title']}", "",
                   f"*Quantifies over* {p['qtext']}. *Why tests cannot settle it:* {p['why']}", "",
                   f"*Decided by* `xs/checks/{'`, `xs/checks/'.join(m + '.py' for m in p['modules'])}`: {p['covers']}", "",
                   f"*Reach.* {p['note']}" + (f" Assumes: {'; '.join(p['assumptions'])}." if p["assumptions"] else ""), ""]
    nas = ["| Property | Why not static analysis |", "|---|---|"] + [f"| {p['id']} {p['title']} | {p['reason']} |" for p in props.NAP]
    seeds = ["| Change | Breaks | What it does | Needs |", "|---|---|---|---|"]
    for meta in sorted(glob.glob(f"{VERIF}/seeded/*/meta.json")):
        m = json.load(open(meta, encoding="utf-8"))
        seeds.append(f"| {meta.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
    fixed = ["| Property | Commit | What failed |", "|---|---|---|"]
    for x in json.load(open(f"{VERIF}/known_findings.json", encoding="utf-8"))["fixed"]:
        _, prop, commit, what = x.split(" ", 3)
        fixed.append(f"| {prop[len('property='):]} | `{commit}` | {what} |")
    for name, lines in (("properties", props_), ("not applicable", nas), ("planted", seeds), ("fixed", fixed)):
        a, b = f"<!-- {name} -->\n", f"<!-- end of {name} -->"
        if a in text:
            text = text[:text.index(a) + len(a)] + "\n".join(lines).rstrip() + "\n" + text[text.index(b):]
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


if __name__ == "__main__":
    main()
