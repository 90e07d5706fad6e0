"""python3 tools/mkseed.py SPEC.py: write /verif/seeded/<id>/ from a spec (id, prop, file, edits [(old, new)], needs, breaks, demo).

Authoring aid only: the patch is made with git diff in a throw-away copy of /repo.
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = '/verif/seeded'


def make(id, prop, edits, needs, breaks, demo):
    """edits: [(file, old, new)]; demo: python source that raises / exits nonzero when the property is broken."""
    w = tempfile.mkdtemp()
    subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
    for f, old, new in edits:
        p = os.path.join(w, 'r', f)
        s = open(p, newline='').read()
        # blank lines of the file may be left out of `old`
        rx = re.compile(r'\r?\n(?:[ \t]*\r?\n)*'.join(map(re.escape, old.split('\n'))))
        found = rx.findall(s)
        assert len(found) == 1, (id, f, len(found), old)
        nl = '\r\n' if '\r\n' in found[0] else '\n'
        open(p, 'w', newline='').write(s.replace(found[0], new.replace('\n', nl)))
    d = subprocess.run(['git', 'diff'], cwd=w + '/r', capture_output=True).stdout
    o = os.path.join(V, id)
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'wb').write(d)
    open(o + '/demo.py', 'w').write(demo.lstrip('\n'))
    open(o + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg\n'
                                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w)


for f in sys.argv[1:]:
    exec(open(f).read())
