"""Makes `import lsl` mean: Python straight from /repo's working tree, native modules from a fresh build."""
import glob, importlib.machinery, importlib.util, os, sys, types
from vf.common import EXTENSIONS, REPO


class _Native:
    def __init__(self, libdir):
        self.libdir = libdir

    def find_spec(self, name, path=None, target=None):
        stem = EXTENSIONS.get(name)
        if stem is None:
            if name == 'lsl.version' and not os.path.exists(os.path.join(REPO, 'lsl/version/__init__.py')):
                return importlib.machinery.ModuleSpec(name, _Version())
            return None
        cand = glob.glob(os.path.join(self.libdir, stem + '*.so'))
        loader = importlib.machinery.ExtensionFileLoader(name, cand[0])
        return importlib.util.spec_from_file_location(name, cand[0], loader=loader)


class _Version:
    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        mod.version = mod.full_version = '0.0.0'
        mod.short_version = '0.0'


def install(libdir):
    sys.meta_path.insert(0, _Native(libdir))
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
