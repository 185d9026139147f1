"""Freezes the entry numbers of the SMEFTsim cards and the SM part of the card
(model conventions that only the SMEFTsim UFO model defines) as vlib/smeftsim.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, '/repo']
from vlib import env, card
w = env.load()
from wcxf.converters.smeftsim import *
out = {}
for s in 'AB':
    c = smeftsim_card_fill(initialize_smeftsim_card(s), w.WC('SMEFT', 'Warsaw mass', 1, {}), s, 1000., 'alpha')
    out['ids' + s] = {b: [[e[:-2], e[-1].lstrip('# ').strip()] for e in blk['values']] for b, blk in c['Block'].items()}
    for sch in ('alpha', 'mw'):
        pre, post = smeftsim_card_text(s, sch)
        out['sm' + s + sch] = card.parse(pre + '\n' + post)
with open(os.path.join(ROOT, 'vlib', 'smeftsim.json'), 'w') as f:
    json.dump(out, f, sort_keys=True, separators=(',', ':'))
    f.write('\n')
