"""Importing and running module_builder, and asking the C compiler."""
import os, re, subprocess, sys, types
from . import core, env

_mods = None
def modules():
    """{name: module} of module_builder.  FontDocTools (not installed here, argument scanning only) is a stand-in."""
    global _mods
    if _mods is None:
        import importlib
        if 'FontDocTools' not in sys.modules:
            pkg, mod = types.ModuleType('FontDocTools'), types.ModuleType('FontDocTools.ArgumentIterator')
            mod.ArgumentIterator = ArgumentIterator
            sys.modules['FontDocTools'], sys.modules['FontDocTools.ArgumentIterator'] = pkg, mod
        d = os.path.join(core.REPO, 'module_builder')
        if d not in sys.path: sys.path.insert(0, d)
        _mods = {n: importlib.import_module(n) for n in ('HeaderToPtyhon', 'UCDReader', 'ModuleBuilder', 'ModuleInstaller')}
    return _mods


class ArgumentIterator:
    """What ModuleBuilder uses of FontDocTools.ArgumentIterator."""
    def __init__(self, arguments): self._it = iter(arguments)
    def __iter__(self): return self
    def __next__(self): return next(self._it)
    def nextExtra(self, what):
        try: return next(self._it)
        except StopIteration: raise ValueError(f'Missing {what}.')


HIDE = ['-DU_HIDE_DEPRECATED_API', '-DU_HIDE_OBSOLETE_API', '-DU_HIDE_DRAFT_API', '-DU_HIDE_INTERNAL_API', '-DU_FORCE_HIDE_DEPRECATED_API', '-DUCONFIG_HAVE_PARSEALLINPUT=0', '-DU_SHOW_CPLUSPLUS_API=0']
def have_c():
    from shutil import which
    return bool(which('gcc')) and os.path.exists('/usr/include/unicode/uchar.h')


def c_values(header, names):
    """{name: value} of the integer constants among names, by the C compiler."""
    ints = [n for n in names if isinstance(names[n], int)]
    d = core.scratch()
    with open(f'{d}/p.c', 'w') as f:
        f.write(f'#include <{header}>\n#include <stdio.h>\nint main(void){{\n' + ''.join(f'printf("{n} %lld\\n",(long long)({n}));\n' for n in ints) + 'return 0;}\n')
    r = subprocess.run(['gcc', '-w', '-O0', f'{d}/p.c', '-o', f'{d}/p'], capture_output=True, text=True)
    if r.returncode:
        bad = re.findall(r"‘(\w+)’ undeclared", r.stderr)
        if bad: raise core.Violation(f'{header}: {bad[:5]} are defined, but not by the header')
        raise core.HarnessError(r.stderr[:2000])
    out = subprocess.run([f'{d}/p'], capture_output=True, text=True, check=True).stdout
    return {n: int(v) for n, v in (l.split() for l in out.splitlines())}


def c_constants(header):
    """Enumerators and integer macros the header itself defines when its conditional parts are hidden."""
    r = subprocess.run(['gcc', '-E', '-dD', *HIDE, '-include', 'unicode/utypes.h', '-x', 'c', f'/usr/include/{header}'], capture_output=True, text=True, check=True).stdout
    mine, text = False, []
    for line in r.splitlines():
        m = re.match(r'# \d+ "([^"]+)"', line)
        if m: mine = m.group(1).endswith('/' + header)
        elif mine: text.append(line)
    text = '\n'.join(text)
    found = []
    for body in re.findall(r'\benum\b\s*\w*\s*\{(.*?)\}', text, re.S):
        body = '\n'.join(l for l in body.splitlines() if not l.startswith('#'))
        found += [e.strip().split('=')[0].strip() for e in body.split(',') if e.strip()]
    return found
