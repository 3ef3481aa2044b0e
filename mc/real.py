"""Runs the batches of graphs.py on the real threads of the interpreter."""
import json
import os
import sys
import threading

REPO = os.environ.get('MC_REPO', '/repo')


def main():
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import biggus
    import biggus._init
    assert biggus.__file__.startswith(REPO + os.sep), biggus.__file__
    from mc import graphs
    from mc import ref as R
    sys.setswitchinterval(1e-5)
    model = R.Model()
    n = 0
    before = threading.active_count()
    for repeat in range(int(sys.argv[1])):
        for mask in (None, 'third'):
            for few in (True, False):
                every = dict(graphs.family(few, mask))
                every.update(graphs.large(few, mask))
                for name, (ps, limit) in sorted(every.items()):
                    biggus._init.MAX_CHUNK_SIZE = limit
                    case = graphs.Case(biggus, ps, model)
                    out = []

                    def go():
                        try:
                            out.append(case.evaluate(mask is not None))
                        except BaseException as e:
                            out.append(e)
                    t = threading.Thread(target=go)
                    t.daemon = True
                    t.start()
                    t.join(60)
                    n += 1
                    where = '%s %s %s on real threads: ' % (name, few, mask)
                    if not out:
                        return n, where + 'hangs'
                    if isinstance(out[0], BaseException):
                        return n, where + 'raised %r' % (out[0],)
                    message = case.compare(out[0], mask is not None)
                    if message:
                        return n, where + message
    for i in range(3000):
        if threading.active_count() <= before:
            break
        threading.Event().wait(0.01)
    else:
        return n, 'real threads are left'
    return n, None


if __name__ == '__main__':
    result = main()
    print('RESULT ' + json.dumps(result))
    sys.stdout.flush()
    os._exit(0)
