import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks'))
import vlib

if __name__ == '__main__':
    pid = sys.argv[1]
    try:
        check = importlib.import_module(pid).check
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        traceback.print_exc()
        if any(f.filename.startswith(vlib.REPO + os.sep) for f in tb):
            path = os.path.join(vlib.ROOT, 'out', pid + '-import.txt')
            os.makedirs(os.path.dirname(path), exist_ok=True)
            open(path, 'w').write(traceback.format_exc())
            print('VIOLATION property=%s replay=%s' % (pid, path))
            sys.exit(1)
        sys.exit(2)
    check.main(sys.argv[2:])
