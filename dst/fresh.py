"""fresh.py <fe> <args..>: one front end build in its own interpreter (for hash seeds and interpreter start up settings)"""
import os
import sys

sys.dont_write_bytecode = True
sys.path[:0] = [os.path.realpath(os.environ.get('NECRO_REPO', '/repo')), os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/stub',
                os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
from dst.world import fe_main  # noqa: E402

main = fe_main(sys.argv[1])
sys.argv = [sys.argv[1]] + sys.argv[2:]
try:
    rc = main()
except Exception as e:
    sys.stderr.write('%s: %s' % (type(e).__name__, e))
    rc = 1
sys.exit(0 if rc is None or isinstance(rc, int) and rc == 0 else 3)
