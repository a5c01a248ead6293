"""Runs harnesses concretely on the unmodified code.

python replay.py FILE [--batch]   FILE: {"property", "params", "model"} or a list of such
Without --batch: prints the outcome, exit status 1 if the property fails."""
import importlib
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


class Timeout(BaseException):
    pass


def alarm(*_):
    raise Timeout


def run_one(item, timeout=20):
    from symex.ctx import ConcreteCtx, Failure, Skip
    module = importlib.import_module('checks.' + item['property'].lower())
    ctx = ConcreteCtx(item['params'], item['model'])
    ctx.key = None
    out = {'status': 'pass'}
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        getattr(module, item['params'].get('h', 'harness'))(ctx)
    except Failure as e:
        out = {'status': 'fail', 'message': str(e)}
    except Skip as e:
        out = {'status': 'skip', 'message': str(e)}
    except Timeout:
        out = {'status': 'timeout', 'message': 'does not terminate in %d s' % timeout}
    except MemoryError:
        out = {'status': 'timeout', 'message': 'memory exhausted'}
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()
        out = {'status': 'exception', 'message': '%s: %s' % (type(e).__name__, e), 'traceback': tb[-8:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out['key'] = ctx.key
    out['observations'] = [repr(_) for _ in ctx.observations]
    return out


def main():
    from symex import loader
    loader.install_plain()
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    with open(sys.argv[1]) as f:
        data = json.load(f)
    if '--batch' in sys.argv:
        for item in data:
            print(json.dumps(run_one(item)), flush=True)
        return
    r = run_one(data)
    print('property %s, params %s' % (data['property'], json.dumps(data['params'], ensure_ascii=False)))
    print('input %s' % json.dumps(data['model'], ensure_ascii=False))
    print('%s %s' % (r['status'], r.get('message', '')))
    for line in r.get('traceback', ()):
        print('  ' + line)
    sys.exit(0 if r['status'] in ('pass', 'skip') else 1)


if __name__ == '__main__':
    main()
