"""setup_cmd: build the IR and the native replay libraries once (checks rebuild when needed)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build
try:
    build.ir_text()
    for p in ('checked', 'release'):
        build.native_lib(p)
    import gobuild
    gobuild.made()
    print('ready')
except build.BuildError as e:
    print(e)
    sys.exit(1)
