"""Writes properties.jsonl and MANIFEST.json from the registry."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(props.PROPS, key=lambda p: p["id"]):
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=p["quantifier"],
                                why_tests_cant=p["why"], anchors=p["anchors"])) + "\n")
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="NONE_NEEDED", enable="no source hooks: observation is done by linker interposition (ld --wrap), fake layer-0 devices and sanitizers", source_commits=[]),
         checks=[dict(property=p["id"], quick_cmd="./check %s --tier quick" % p["id"], thorough_cmd="./check %s --tier thorough" % p["id"],
                      technique=p["technique"], level=p["level"], level_note=p["note"]) for p in sorted(props.PROPS, key=lambda p: p["id"]) if p["parts"]],
         not_applicable=[dict(property=a, reason=b) for a, b in props.NOT_APPLICABLE])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
