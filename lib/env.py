"""Makes Hypothesis and the yargy of /repo importable."""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VENDOR = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup_path():
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(1, REPO)
    if VENDOR not in sys.path:
        sys.path.append(VENDOR)


def import_yargy():
    """Import yargy from the sources, never from cached bytecode."""
    import importlib
    import warnings
    setup_path()
    warnings.filterwarnings('ignore')
    prefix = sys.pycache_prefix
    sys.pycache_prefix = '/nonexistent/verif-pycache'
    try:
        import pkgutil
        import yargy
        real = os.path.realpath(yargy.__file__)
        if not real.startswith(os.path.realpath(REPO) + os.sep):
            raise ImportError('yargy is imported from %s' % real)
        for item in pkgutil.walk_packages(yargy.__path__, 'yargy.'):
            importlib.import_module(item.name)
    finally:
        sys.pycache_prefix = prefix
    return yargy
