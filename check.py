#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N] [--cap SECONDS] [--replay FILE]

Seeded search over simulated runs for a violation of one property.  Exit 0: none found;
1: violation (line `VIOLATION property=<id> replay=<file>`); 3: the check could not decide."""
import argparse
import os
import shutil
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
       'MKL_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1', 'VERIF_INNER': '1', 'LC_ALL': 'C.UTF-8',
       'PYTHONWARNINGS': 'ignore'}
PYTHON = '/opt/venv/bin/python'


def outer(argv):
    """A clean environment, a scratch directory that is removed, and a hard time limit."""
    tmp = tempfile.mkdtemp(prefix='verif-')
    env = {k: v for k, v in os.environ.items() if k.lower() not in ('http_proxy', 'https_proxy', 'all_proxy', 'no_proxy',
                                                                    'requests_ca_bundle', 'curl_ca_bundle')}
    env.update(ENV)
    if os.environ.get('VERIF_HASHSEED'):
        env['PYTHONHASHSEED'] = os.environ['VERIF_HASHSEED']
    env.update({'TMPDIR': tmp, 'HOME': tmp, 'MPLCONFIGDIR': os.path.join(tmp, 'mpl'), 'NETRC': os.path.join(tmp, 'netrc')})
    thorough = 'thorough' in argv or (os.environ.get('VERIF_TIER') == 'thorough' and '--tier' not in argv)
    p = subprocess.Popen([PYTHON, '-X', 'utf8', os.path.abspath(__file__)] + argv, env=env, start_new_session=True)
    try:
        rc = p.wait(timeout=24 * 3600 if thorough else 840)
    except subprocess.TimeoutExpired:
        print('check.py: no answer within the time limit', file=sys.stderr)
        rc = 3
    except BaseException:
        rc = 3
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        shutil.rmtree(tmp, ignore_errors=True)
    return rc if rc in (0, 1) else 3


def main():
    if not os.environ.get('VERIF_INNER'):
        sys.exit(outer(sys.argv[1:]))
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', choices=['quick', 'thorough'], default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--cap', type=float)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--replay')
    ap.add_argument('--digests', help='write one line per run to this file (determinism self-test)')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    from sim import driver
    sys.exit(driver.run(a))


if __name__ == '__main__':
    main()
