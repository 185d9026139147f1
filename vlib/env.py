"""Imports the package from the repository working tree and registers the
reconstructed EFT and basis definitions."""
import os
import sys
import warnings

from . import bases
from .core import REPO, Inconclusive

warnings.simplefilter('ignore')

_FK = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'flavorkit_keys.txt')


def flavorkit():
    import collections
    with open(_FK) as f:
        return collections.OrderedDict((l.strip(), False) for l in f if l.strip())


def load(register=True):
    import wcxf
    here = os.path.realpath(os.path.dirname(wcxf.__file__))
    if here != os.path.realpath(os.path.join(REPO, 'wcxf')):
        raise Inconclusive('wcxf imported from %s, not from the repository' % here)
    import numpy as np
    np.seterr(all='ignore')
    if register:
        bases.register_all(wcxf, flavorkit())
    return wcxf


