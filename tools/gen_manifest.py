"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the records below.

P(id, title, statement, over, text, why, files, mechanism[(name, where)], oracle note)
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, note):
    PROPS.append(dict(
        rec=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                 why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])),
        note=note))


def load():
    d = os.path.join(HERE, "tools", "records")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            exec(compile(open(os.path.join(d, f)).read(), f, "exec"), {"P": P})


def main():
    load()
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["rec"]["title"]) <= 80, p["rec"]["title"]
            f.write(json.dumps(p["rec"]) + "\n")
    man = dict(
        version=1,
        setup_cmd="bash setup.sh",
        checks=[dict(
            property=p["rec"]["id"],
            quick_cmd=f"bash run.sh {p['rec']['id']}",
            thorough_cmd=f"bash run.sh {p['rec']['id']} --tier thorough",
            technique="property-based testing with Hypothesis: generated inputs against " + p["note"],
            level="exploration",
            level_note="Search over generated cases, not a proof: it shows the property on every case explored "
            "(counts, distinct non-trivial cases and samples are in the evidence file) within the sizes and "
            "tolerances stated in DESIGN.md.",
        ) for p in PROPS],
        not_applicable=[],
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(PROPS), "properties")


if __name__ == "__main__":
    main()
