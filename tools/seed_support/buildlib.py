"""module_builder of the current directory, importable without FontDocTools."""
import atexit, os, shutil, sys, tempfile, types

class ArgumentIterator:
    def __init__(self, a): self._i = iter(a)
    def __iter__(self): return self
    def __next__(self): return next(self._i)
    def nextExtra(self, what):
        try: return next(self._i)
        except StopIteration: raise ValueError('Missing ' + what)

m = types.ModuleType('FontDocTools.ArgumentIterator'); m.ArgumentIterator = ArgumentIterator
sys.modules['FontDocTools'] = types.ModuleType('FontDocTools'); sys.modules['FontDocTools.ArgumentIterator'] = m
sys.path.insert(0, os.path.join(os.getcwd(), 'module_builder'))
sys.path.insert(0, os.getcwd())

def scratch():
    d = tempfile.mkdtemp()
    atexit.register(shutil.rmtree, d, True)
    return d
