"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tool/mkmeta.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = lambda **kw: [dict(name=k, where=v) for k, v in kw.items()]
T_ABS = 'abstract interpretation of the LLVM IR: gated value graph, loop summaries, inferred linear invariants'
T_TERM = 'gated value-graph dataflow with loop summarisation; derived terms compared with the specification'
T_PATH = 'effect analysis of main: gating conditions of every call, print and exit derived from the LLVM IR, compared with the specified effects per request class'
BASE = 'Trusts the clang 18 front end, the listed LLVM clean-up passes and the analyser itself; real arithmetic stands for floating point; lists up to 2^27 elements; allocation succeeds. '
SOUND = BASE + 'Every obligation is either proved by the analysis, refuted by a state that satisfies all derived invariants (alarm), or reported as undecided in the evidence without an alarm.'
TERM = BASE + 'Equality of derived and specified terms is proved by normalisation; where normal forms differ, random interpretation of the two terms only refutes (alarm) or leaves the row agreed/undecided in the evidence.'

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na, state=state))


exec(open(os.path.join(V, 'tool', 'props_table.py')).read())


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            a = {'files': p['files'], 'mechanism': p['mech']}
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    checks = [{'property': p['id'], 'quick_cmd': 'python3 run_check.py %s' % p['id'], 'thorough_cmd': 'python3 run_check.py %s' % p['id'],
               'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in PROPS if not p['na']]
    na = [{'property': p['id'], 'reason': p['na']} for p in PROPS if p['na']]
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na}, f, indent=1); f.write('\n')


main()
