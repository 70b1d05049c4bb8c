# mkseeds.py FILE... : each FILE defines SEEDS = [(id, prop, needs, breaks, [(path, old, new), ...], main_rs)];
# writes /verif/seeded/<id> from the edits, made in the scratch clone /tmp/edit of /repo.
import re, sys, subprocess, os, json, runpy
E = '/tmp/edit'
for f in sys.argv[1:]:
    only = None
    if ':' in f: f, only = f.split(':')
    for (i, prop, needs, breaks, edits, main) in runpy.run_path(f)['SEEDS']:
        if only and i not in only.split(','): continue
        subprocess.check_call(['git', '-C', E, 'checkout', '-q', '--', '.'])
        for (p, old, new) in edits:
            s = open(f'{E}/{p}').read()
            n = s.count(old)
            assert n == 1, (i, p, n, old)
            open(f'{E}/{p}', 'w').write(s.replace(old, new))
        d = f'/verif/seeded/{i}'; os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(subprocess.check_output(['git', '-C', E, 'diff']).decode())
        open(f'{d}/demo.sh', 'w').write(open('/verif/tools/demo/demo.sh').read().replace('@ID@', i))
        open(f'{d}/main.rs', 'w').write(re.sub(r'(?<![\w:<])F::(ONE|ZERO|TWO)\b', r'<F as Field>::\1', main.lstrip()))
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
        subprocess.check_call(['git', '-C', E, 'checkout', '-q', '--', '.'])
        print('wrote', i)
