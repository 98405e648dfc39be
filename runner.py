import os, sys, importlib
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def _main():
    pid = sys.argv[1]
    if pid == '--selftest':
        # nothing to build: the checks import the library from /repo's working tree when they run
        print(sys.version)
        return 0
    try:
        from lib import base
        mod = importlib.import_module('checks.' + pid.lower())
    except Exception:
        # The library cannot be imported at all: nothing of the property can hold.
        import traceback
        print(traceback.format_exc())
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, pid + '-import.txt')
        open(p, 'w').write(traceback.format_exc())
        print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    return base.main(pid, mod)


if __name__ == '__main__':
    sys.exit(_main())
