"""The single source of properties.jsonl and MANIFEST.json: python3 tools/specs.py rewrites both."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYX = 'intvalpy/kernel/interval_arithmetics.pyx'
RI = 'intvalpy/kernel/real_intervals.py'
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note, level='exploration', hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level))


exec(open(os.path.join(V, 'tools', 'spec_text.py')).read())


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['id']
            f.write(json.dumps({
                'id': q['id'], 'title': q['title'], 'statement': q['statement'],
                'quantifier': {'over': q['over'], 'text': q['text']}, 'why_tests_cant': q['why'],
                'anchors': {'files': q['files'], 'mechanism': [{'name': n, 'where': w} for n, w in q['mech']], 'hook_needed': None},
            }, ensure_ascii=False) + '\n')
    m = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'checks': [{
            'property': q['id'],
            'quick_cmd': './check %s --tier quick' % q['id'],
            'thorough_cmd': './check %s --tier thorough' % q['id'],
            'technique': q['technique'], 'level': q['level'], 'level_note': q['note'],
        } for q in P if q['technique']],
        'not_applicable': [{'property': q['id'], 'reason': q['note']} for q in P if not q['technique']],
        'notes': 'No hooks are needed in /repo: every monitor observes the public API in process, the floating-point '
                 'environment through libc, and the native extension through a sanitizer build made outside /repo.',
    }
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
