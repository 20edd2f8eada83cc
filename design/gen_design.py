"""DESIGN.md from head.md, the property table, known findings, planted bugs and tail.md."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def text(*p):
    with open(os.path.join(ROOT, *p), encoding='utf-8') as f:
        return f.read()


def write(props, explanations):
    out = [text('design', 'head.md'), '\n## Properties\n']
    for p in props:
        d = p['prop']
        out.append(f"### {d['id']} {d['title']}\n")
        out.append(d['statement'] + '\n')
        if p['na']:
            out.append(f"*Not applicable.* {p['na']}\n")
            continue
        out.append(f"* **Decided by** {p['technique']}. {explanations.get(d['id'], '')}".rstrip())
        out.append(f"* **For** {d['quantifier']['text']}.")
        out.append(f"* **Bounds and trust** {p['note']}")
        out.append(f"* **Beyond tests** {d['why_tests_cant']}\n")
    kf = json.loads(text('known_findings.json'))['findings']
    out.append('## Known findings\n\nDefects recorded and not repaired (each check prints them as `KNOWN-FINDING`):\n')
    out += [f"* {f['property']}: {f['what']}" for f in kf if f['status'] != 'fixed']
    out.append('\nDefects repaired by a `fix:` commit in `/repo`:\n')
    out += ['* ' + f['what'].replace('fixed: property=', '') for f in kf if f['status'] == 'fixed']
    out.append('\n## Planted bugs and the checks that catch them\n\n| bug | needs | breaks | check |\n|---|---|---|---|')
    sd = os.path.join(ROOT, 'seeded')
    missed = json.loads(text('design', 'missed.json'))
    for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else ():
        m = json.loads(text('seeded', s, 'meta.json'))
        out.append(f"| {s} | {m['needs']} | {m['what_it_breaks']} | {m['property'] + (' (missed: ' + missed[s] + ')' if s in missed else '')} |")
    out.append('')
    out.append(text('design', 'tail.md'))
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w', encoding='utf-8') as f:
        f.write('\n'.join(out))
