import sys
from ctv.core import main
if __name__ == "__main__":
    a = sys.argv[1:]
    rp = None
    if "--replay" in a:
        k = a.index("--replay"); rp = a[k + 1]; del a[k:k + 2]
    rc = main(a[0], a[1] if len(a) > 1 else "quick", rp)
    sys.stdout.flush()
    import os
    os._exit(rc)
