#!/usr/bin/env python3
"""gen_card_model.py: write fixtures/card_model.json, the reference model of the
SMEFTsim card: for every entry (model set, block, indices) the coefficient it
stands for and how (abs, angle, real), read off a card made from coefficients
that are all different."""
import json
import os
import random
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, '/repo')
sys.path.insert(0, here)
import cmath
import io
import pylha
import wcxf
from wcxf.converters import smeftsim as s
from checks.cardmodel import entries, HOW

out = {}
for ms in 'AB':
    b = json.load(open(os.path.join(here, 'fixtures/bases/smeft.Warsaw_mass.basis.json')))
    names = {n: (x or {}).get('real', False) for sec in b['sectors'].values() for n, x in sec.items()}
    cand = {}
    for seed in range(10):
        rng = random.Random(seed)
        d = {}
        for n, real in names.items():
            a = rng.uniform(0.1, 1)
            d[n] = complex(a * rng.choice([1, -1])) if real else a * cmath.exp(1j * rng.uniform(-3, 3))
        cut = 3.0 + seed
        wc = wcxf.WC('SMEFT', 'Warsaw mass', 1000, wcxf.WC.dict2values(d))
        card = s.smeftsim_card_fill(s.initialize_smeftsim_card(ms), wc, ms, cut, 'alpha')
        f = io.StringIO()
        pylha.dump(card, fmt='lha', stream=f)
        for key, v in entries(f.getvalue()):
            m = {'%s %s' % (how, n) for n in d for how in ('real', 'abs', 'angle') if abs(HOW[how](d[n], cut) - v) < 2e-6 * abs(v)}
            if v == cut:
                m.add('cutoff -')
            cand[key] = cand[key] & m if key in cand else m
    res = {}
    for key, m in cand.items():
        if len(m) == 1:
            res[key] = m.pop()
        else:
            print('?', ms, key, m)
    out[ms] = res
    print(ms, len(res))
json.dump(out, open(os.path.join(here, 'fixtures/card_model.json'), 'w'), indent=0, sort_keys=True)
