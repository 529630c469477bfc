import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import core  # noqa: E402

sys.setrecursionlimit(20000)
if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    th = threading.Thread(target=lambda: rc.append(core.main(sys.argv)),
                          daemon=True)
    th.start()
    th.join(float(os.environ.get('SA_LIMIT', '780')))
    if th.is_alive():
        # out of time: report what has been decided so far
        rc.append(core.CURRENT.finish('stopped at the time limit', floor=1)
                  if core.CURRENT else 4)
    sys.stdout.flush()
    os._exit(rc[0] if rc else 4)
