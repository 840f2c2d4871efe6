import sys
import threading

from .rt import main

rc = []
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=lambda: rc.append(main()))
t.start()
t.join()
sys.exit(rc[0] if rc else 3)
