"""Authoring aid: quiet.py [-p PROPS] [ids]: run the checks on scratch copies with behaviour-preserving edits; report alarms and lost obligations."""
import sys, os, subprocess, tempfile, importlib.util, glob, json, shutil
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
args = sys.argv[1:]
props = None
if args[:1] == ['-p']:
    props = args[1].split(',')
    args = args[2:]
refs = []
for f in sorted(glob.glob(V + '/tools/refactors/*.py')):
    sp = importlib.util.spec_from_file_location('m', f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    refs += m.REF
if props is None:
    props = [c['property'] if 'property' in c else c['property_id'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]


def go(r):
    name, edits = r
    w = tempfile.mkdtemp(prefix='quiet.', dir='/tmp')
    out = []
    try:
        subprocess.run(['git', 'clone', '-q', '--shared', '/repo', w + '/r'], check=True)
        for f, old, new in edits:
            p = w + '/r/' + f
            s = open(p).read()
            if old not in s:
                return '%s: anchor text missing in %s: %s' % (name, f, old[:60])
            open(p, 'w').write(s.replace(old, new, 1))
        shutil.copytree(V, w + '/v', ignore=shutil.ignore_patterns('.git', 'seeded'))
        for p in props:
            x = subprocess.run(['python3', w + '/v/run.py', p, 'quick'], env=dict(os.environ, VERIF_REPO=w + '/r'), capture_output=True, text=True, timeout=1500)
            last = [l for l in x.stdout.splitlines() if 'obligations' in l]
            if x.returncode or 'VIOLATION' in x.stdout:
                out.append('  ALARM %s rc=%d %s' % (p, x.returncode, [l[:300] for l in x.stdout.splitlines() if 'violated' in l or 'VIOLATION' in l or 'rror' in l][:3] or x.stderr[-600:]))
            elif last:
                base = subprocess.run(['true'])
                out.append('  %s' % last[-1][:120])
                d = json.load(open(w + '/v/evidence/%s.json' % p))['coverage']
                for o in d.get('undecided_obligations', [])[:2]:
                    out.append('      undecided: %s %s' % (o['obligation'][:120], o['detail'][:120]))
    except Exception as e:
        out.append('  ERROR %r' % e)
    finally:
        shutil.rmtree(w)
    keep = [l for l in out if 'ALARM' in l or 'ERROR' in l]
    und = [l for l in out if ', 0 undecided' not in l and l not in keep]
    return '## %s: %d alarms\n%s' % (name, len(keep), '\n'.join(keep + und))


rs = [r for r in refs if not args or r[0] in args]
with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for t in ex.map(go, rs):
        print(t, flush=True)
