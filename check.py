#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   |   check.py --replay FILE"""
import importlib, os, sys, json, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/lib'); sys.path.insert(0, HERE + '/checks')
sys.dont_write_bytecode = True
os.environ.setdefault('LC_ALL', 'C.UTF-8')

def main():
    a = sys.argv[1:]
    import build, runner
    if a and a[0] == '--replay':
        rep = json.load(open(a[1]))
        mod = importlib.import_module(rep['property'].lower())
        if 'exe' not in rep:
            print(json.dumps(rep, indent=1)); return 0
        mod.build_all(rep['tier'])
        exe = build.BUILD + '/bin/' + rep['exe']
        out = tempfile.mkdtemp()
        p = subprocess.run([exe, '--tier', rep['tier'], '--shard', str(rep['shard']), '--shards', str(rep['shards']), '--out', out, rep['mode'], rep['case']] + rep['args'], env=runner.clean_env(out), cwd=out)
        print('exit', p.returncode)
        try: print(open('%s/fail.%d' % (out, rep['shard'])).read())
        except OSError: pass
        return 0
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    mod = importlib.import_module(pid.lower())
    build.prune()
    try:
        return mod.run(tier)
    except build.BuildError as e:
        print('error: %s' % e); return 2
    except Exception as e:
        import traceback; traceback.print_exc(); return 2

if __name__ == '__main__':
    sys.exit(main())
