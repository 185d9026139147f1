"""Scratch copy of the package with EFT and basis files in place, for real processes."""
import json
import os
import shutil
import subprocess
import sys
from . import bases as B
from . import env
from .core import REPO


def make(root, defs=None):
    """Copy the working tree's package to root/wcxf and install definition files."""
    dst = os.path.join(root, 'wcxf')
    shutil.copytree(os.path.join(REPO, 'wcxf'), dst, ignore=shutil.ignore_patterns('__pycache__', '*.pyc', 'bases'))
    bd = os.path.join(dst, 'bases')
    os.makedirs(os.path.join(bd, 'child'))
    for kind, d in (defs if defs is not None else B.all_definitions(env.flavorkit())):
        if kind == 'eft':
            fn = '%s.eft.json' % d['eft']
        else:
            fn = '%s.%s.basis.json' % (d['eft'], d['basis'])
            if 'parent' in d:
                fn = os.path.join('child', fn)
        with open(os.path.join(bd, fn.replace(' ', '_')), 'w') as f:
            json.dump(d, f)
    return root


def command(root, fn, argv, stdin='', cwd=None, timeout=300, opts=(), stdout=subprocess.PIPE):
    """Run a console script of the staged package as a process."""
    e = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8')
    e.pop('PYTHONHASHSEED', None)
    code = 'import sys; sys.argv[0] = "wcxf"; from wcxf.cli import %s as f; sys.exit(f())' % fn
    return subprocess.run([sys.executable, '-W', 'ignore', *opts, '-c', code] + list(argv), input=stdin.encode('utf-8'),
                          stdout=stdout, stderr=subprocess.PIPE, env=e, cwd=cwd or root, timeout=timeout)
