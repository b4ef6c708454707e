#!/usr/bin/env python3
"""Rewrite the generated part of DESIGN.md from what the checks say about themselves (RULE, ASSUMPTIONS), plus the notes below."""
import ast
import json
import os
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHY = {
    "C09": "The corner cases are combinations of sign, step, bounds, kind of sequence and kind of replacement; a table of examples samples few of them.",
    "C10": "A view that copied something when it was made agrees until the data changes: only a history shows it.",
    "C14": "Only histories show whether a refused operation left a trace.",
    "C15": "Bindings of several threads and generators interleave; the schedule is generated.",
    "C16": "Where an escape lands depends on every catch point that is alive at the time.",
    "C17": "Which handler or restart runs depends on the whole dynamic context at the time of the signal.",
    "C18": "The number of active frames is measured while generated mutually recursive programs run, so a missing tail call shows however deep it hides.",
    "C20": "Dispatch depends on the set of registered signatures and their order: cases are registries plus calls.",
    "C23": "Laziness is invisible to the values; the trace of evaluations is compared.",
    "C26": "A decoder must give the same messages for every fragmentation of the stream; the fragmentation is part of the case.",
    "C28": "Scope bugs need shadowing across nested forms, which is what the generator aims at.",
    "C29": "The oracle is the same text without the macro, so every construct of the language can appear in the program.",
    "C30": "Continuations captured once and called later, several times, from anywhere in the remaining program: the interpreter keeps them as data.",
    "C31": "The call-by-need interpreter gives both the order of evaluation and the values.",
    "C36": "What is counted where depends on the nesting of sessions, test sets and tests and on where the exception or signal comes from.",
    "C37": "Whole modules, so that the macros of the dialect meet all at once with everything the generators of C29, C31, C32, C34, C35 know.",
}

spec = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
out = []
for p in spec:
    pid = p["id"]
    path = os.path.join(HERE, "checks", pid.lower() + ".py")
    if pid <= "C08" or not os.path.exists(path):
        continue
    d = {}
    suites = []
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id in ("RULE", "ASSUMPTIONS", "TECHNIQUE"):
                d[n.targets[0].id] = ast.literal_eval(n.value)
    for n in ast.walk(ast.parse(open(path).read())):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "Suite" and n.args and isinstance(n.args[0], ast.Constant):
            suites.append(n.args[0].value)
    rule = d["RULE"]
    text = f"**{pid} {p['title']}.** {rule[0].upper() + rule[1:]}."
    if "TECHNIQUE" in d:
        text += f" Method: {d['TECHNIQUE']}."
    if d.get("ASSUMPTIONS"):
        text += " Bounds: " + "; ".join(d["ASSUMPTIONS"]) + "."
    if pid in WHY:
        text += " " + WHY[pid]
    if suites:
        text += f" Suites: {', '.join(suites)}."
    out.append("\n".join(textwrap.wrap(text, 140, break_long_words=False, break_on_hyphens=False)))
path = os.path.join(HERE, "DESIGN.md")
s = open(path).read()
a, b = "<!-- generated by tools/make_design.py -->", "<!-- end -->"
i, j = s.index(a), s.index(b)
open(path, "w").write(s[:i] + a + "\n\n" + "\n\n".join(out) + "\n\n" + s[j:])
