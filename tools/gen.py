#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/proptext.py and props.py."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, HARNESS
from proptext import TEXT, NA, HOOK_COMMITS
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for pid, t in TEXT.items():
        assert len(t['title']) <= 80, pid
        f.write(json.dumps(dict(id=pid, title=t['title'], statement=t['statement'],
                                quantifier=dict(over=t['over'], text=t['quant']), why_tests_cant=t['why'],
                                anchors=dict(files=t['files'], mechanism=[dict(name=n, where=w) for n, w in t['mech']],
                                             observe_at=t.get('observe', []), hook_needed=t.get('hook')))) + '\n')
checks = []
for pid in PROPS:
    assert pid in TEXT, pid
    checks.append(dict(property=pid, quick_cmd='python3 check.py %s --tier quick' % pid, thorough_cmd='python3 check.py %s --tier thorough' % pid,
                       technique='symbolic execution of the compiled LLVM IR of /repo with z3 deciding every branch and assertion; counterexamples replayed natively',
                       level='model_checking',
                       level_note=TEXT[pid].get('note', 'Decided for every input within the stated bounds (evidence: coverage.harnesses.*.bounds).') + ' Trusts rustc/LLVM up to IR emission, the nsx executor (cross-checked by native replay of sampled paths) and z3.'))
m = dict(version=1, setup_cmd='python3 check.py --setup',
         hooks=dict(guard='cfg(nora_verif)', enable='RUSTFLAGS="--cfg nora_verif"', source_commits=HOOK_COMMITS),
         checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in NA.items()])
for pid in TEXT:
    assert (pid in PROPS) != (pid in NA), pid
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')


def wrap(s, n=118, ind='  '):
    out, line = [], ''
    for w in s.split():
        if len(line) + len(w) + 1 > n:
            out.append(line)
            line = ind + w
        else:
            line = line + ' ' + w if line else w
    return '\n'.join(out + [line])


tools = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(root, 'DESIGN.md'), 'w') as f:
    f.write(open(os.path.join(tools, 'design_head.md')).read())
    for pid, t in TEXT.items():
        f.write('### %s %s\n\n' % (pid, t['title']))
        f.write(wrap('Oracle: ' + t['oracle'], ind='') + '\n\n')
        for n in PROPS[pid]['harnesses']:
            f.write(wrap('* `%s` (%s): %s.' % (n, HARNESS[n]['crate'], HARNESS[n]['bounds'])) + '\n')
        if PROPS[pid].get('crash'):
            f.write(wrap('* and, for the absence of panics and memory errors only: ' + ', '.join('`%s`' % n for n in PROPS[pid]['crash']) + '.') + '\n')
        f.write('\n')
    f.write(open(os.path.join(tools, 'design_tail.md')).read())
    f.write(open(os.path.join(tools, 'design_results.md')).read())
