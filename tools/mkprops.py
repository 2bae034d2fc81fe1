#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here because it is easier to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))
S = "src/tool1cd/"
exec(open(os.path.join(os.path.dirname(__file__), "props_data.py"), encoding="utf-8").read())
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
