"""One-off generator of /verif/fixtures/bases: stand-ins for the missing wcxf-bases
submodule.  The names are taken from what the translators read and write (run
against the pristine repository), so that every registered translator and
matcher can run.  Committed output; not used by any check at run time."""
import sys, os, json, itertools
sys.path.insert(0, '/repo')
import warnings; warnings.simplefilter('ignore')
import numpy as np, yaml
import wcxf
from wcxf.translators import wet, smeft as tsm
from wcxf.matchers import smeft as msm
from wcxf.util import smeftutil
OUT = sys.argv[1]
os.makedirs(OUT + '/child', exist_ok=True)

def put(fn, d):
    with open(os.path.join(OUT, fn), 'w') as f:
        json.dump(d, f, indent=None, separators=(',', ':'))
        f.write('\n')

# ---- SMEFT
with open('/repo/wcxf/data/test.Warsaw_mass.yml') as f:
    mass = yaml.load(f, Loader=yaml.FullLoader)
names = list(mass['values'])
bnv = ('duql', 'qque', 'qqql', 'duue')
def smeft_sectors(keys):
    s = {'dB=dL=0': {}, 'dB=dL=1': {}, 'dL=2': {}}
    for k in keys:
        n = k.split('_')[0]
        v = mass['values'].get(k)
        sec = 'dB=dL=1' if n in bnv else 'dL=2' if n == 'llphiphi' else 'dB=dL=0'
        s[sec][k] = {'tex': n} if isinstance(v, dict) else {'tex': n, 'real': True}
    return {k: v for k, v in s.items() if v}
allk = list(names)
for n in bnv:   # not in the sample card: add the full tensors
    if not any(k.split('_')[0] == n for k in allk):
        for i in itertools.product('123', repeat=4):
            k = n + '_' + ''.join(i); allk.append(k); mass['values'][k] = {'Re': 1}
for i in range(1, 4):
    for j in range(i, 4):
        k = 'llphiphi_%d%d' % (i, j)
        if k not in allk:
            allk.append(k); mass['values'][k] = {'Re': 1}
print('smeft', len(allk))
put('smeft.eft.json', {'eft': 'SMEFT', 'sectors': {s: {} for s in ['dB=dL=0', 'dB=dL=1', 'dL=2']}})
for b in ['Warsaw', 'Warsaw up', 'Warsaw mass']:
    put('smeft.%s.basis.json' % b.replace(' ', '_'),
        {'eft': 'SMEFT', 'basis': b, 'metadata': {'description': 'synthetic ' + b}, 'sectors': smeft_sectors(allk if b != 'Warsaw mass' else allk)})

# ---- JMS (non-redundant index sets)
herm = ["VnueLL", "VnuuLL", "VnudLL", "VeuLL", "VedLL", "V1udLL", "V8udLL", "VeuRR", "VedRR", "V1udRR", "V8udRR", "VnueLR",
        "VeeLR", "VnuuLR", "VnudLR", "VeuLR", "VedLR", "VueLR", "VdeLR", "V1uuLR", "V8uuLR", "V1udLR", "V8udLR", "V1duLR", "V8duLR", "V1ddLR", "V8ddLR"]
cur = ["S1uuRR", "S8uuRR", "S1ddRR", "S8ddRR"]
both = ["VuuLL", "VddLL", "VuuRR", "VddRR"]
def fields(name):
    """field content of a JMS operator name -> list of 'n','e','u','d' (positions)"""
    core = name
    for suf in ('LL', 'RR', 'LR', 'RL'):
        if core.endswith(suf): core = core[:-2]; break
    core = core[1:]
    core = core.lstrip('18')
    out = []
    while core:
        if core.startswith('nu'): out.append('n'); core = core[2:]
        else: out.append(core[0]); core = core[1:]
    if len(out) == 2: out = [out[0]] * 2 + [out[1]] * 2
    if len(out) == 3: out.append('e')
    return out
jms = {}
orig = msm.C
for name in orig:
    if name in ('G', 'Gtilde'):
        jms[name] = True; continue
    if name in ('nu', 'nugamma', 'egamma', 'ugamma', 'dgamma', 'uG', 'dG'):
        r = '12' if name[0] == 'u' else '123'
        for i in itertools.product(r, repeat=2):
            jms[name + '_' + ''.join(i)] = False
        continue
    fl = fields(name)
    rng = ['12' if f == 'u' else '123' for f in fl]
    if len(rng) != 4: raise SystemExit(name)
    seen = set()
    for i in itertools.product(*rng):
        orb = {i}
        if name in herm or name in both: orb |= {(a[1], a[0], a[3], a[2]) for a in set(orb)}
        if name in cur or name in both: orb |= {(a[2], a[3], a[0], a[1]) for a in set(orb)}
        if name in both: orb |= {(a[1], a[0], a[3], a[2]) for a in set(orb)}
        if orb & seen: continue
        seen |= orb
        jms[name + '_' + ''.join(i)] = (name in herm or name in both) and i == (i[1], i[0], i[3], i[2])
# data-file driven names (FlavorKit maps)
fk = json.load(open('/repo/wcxf/data/flavorkit_jms.json')); fkc = json.load(open('/repo/wcxf/data/flavorkit_jms_conj.json'))
extra = [v for v in list(fk.values()) + list(fkc.values()) + ['VeeLL_1223', 'VeeRR_1223'] if v not in jms]
print('jms', len(jms), 'flavorkit targets not representative:', len(extra), extra[:5])

def basis(eft, name, keys, real=()):
    """group in a few sectors, with 'tex' here and there"""
    secs = {}
    for k in keys:
        if '_' in k: s = k.split('_')[0][:3]
        elif '::' in k: s = k.split('::')[0]
        else: s = ''.join(c for c in k if c.isalpha())[:2]
        secs.setdefault(s, {})[k] = {'tex': 'C'} if not (k in real) else {'tex': 'C', 'real': True}
    return {'eft': eft, 'basis': name, 'metadata': {'description': 'synthetic'}, 'sectors': secs}

realj = {k for k, r in jms.items() if r}
B = {}
B['WET', 'JMS'] = basis('WET', 'JMS', jms, realj)
wcxf.EFT(**{'eft': 'WET', 'sectors': {}})
wcxf.Basis(**B['WET', 'JMS'])
rs = np.random.RandomState(1)
def rnd(keys): return {k: rs.rand() + 1j * rs.rand() for k in keys}
flav = set(wet.JMS_to_flavio(rnd(jms), 80.)); eos = set(wet.JMS_to_EOS(rnd(jms), 80.))
ff = set(wet.JMS_to_FormFlavor(rnd(jms), 80.)); bern = set(wet.JMS_to_Bern(rnd(jms), 80.))
fkk = set(wet.JMS_to_FlavorKit(rnd(jms), 80.)) | set(fk) | set(fkc)
def grow(keys, eft, name, fn):
    while True:
        wcxf.Basis(**basis(eft, name, sorted(keys)))
        try: return fn()
        except KeyError as e: keys.add(e.args[0])
# keys read but never written
bo = grow(bern, 'WET', 'Bern', lambda: wet.Bern_to_flavio(rnd(bern), 80.)); flav |= set(bo)
fo = grow(flav, 'WET', 'flavio', lambda: wet.flavio_to_Bern(rnd(flav), 80.)); bern |= set(fo)
print('flavio', len(flav), 'bern', len(bern), 'eos', len(eos), 'ff', len(ff), 'fk', len(fkk))
B['WET', 'flavio'] = basis('WET', 'flavio', sorted(flav)); B['WET', 'Bern'] = basis('WET', 'Bern', sorted(bern))
B['WET', 'EOS'] = basis('WET', 'EOS', sorted(eos)); B['WET', 'formflavor'] = basis('WET', 'formflavor', sorted(ff))
B['WET', 'FlavorKit'] = basis('WET', 'FlavorKit', sorted(fkk))
# lower EFTs
def jms_lower(k, nd, nu):
    if '_' not in k: return True
    n, ind = k.split('_')
    if n in ('dgamma', 'dG'): return all(int(i) <= nd for i in ind)
    if n in ('ugamma', 'uG'): return all(int(i) <= nu for i in ind)
    if n in ('nu', 'nugamma', 'egamma'): return True
    return all(int(i) <= {'d': nd, 'u': nu}.get(f, 3) for f, i in zip(fields(n), ind))
lower = {'WET-4': (2, 2), 'WET-3': (2, 1), 'WET-2': (1, 1)}
for eft, (nd, nu) in lower.items():
    B[eft, 'JMS'] = basis(eft, 'JMS', [k for k in jms if jms_lower(k, nd, nu)], realj)
    if eft != 'WET-2':
        bad = ['b'] if eft == 'WET-4' else ['b', 'c']
        def ok(k, pre):
            body = k.split('_')[-1] if '_' in k else k[1:]
            body = body.replace('nu', '')
            return not any(c in body for c in bad)
        B[eft, 'flavio'] = basis(eft, 'flavio', sorted(k for k in flav if ok(k, 0)))
        B[eft, 'Bern'] = basis(eft, 'Bern', sorted(k for k in bern if ok(k, 0)))
for eft in ['WET', 'WET-4', 'WET-3', 'WET-2']:
    secs = {}
    for (e, b), d in B.items():
        if e == eft: secs.update({s: {} for s in d['sectors']})
    put('%s.eft.json' % eft.lower().replace('-', ''), {'eft': eft, 'sectors': secs})
for (e, b), d in B.items():
    put('%s.%s.basis.json' % (e.lower().replace('-', ''), b), d)
    print(e, b, sum(len(s) for s in d['sectors'].values()))
# children
put('child/wet.JMS_ext.basis.json', {'eft': 'WET', 'basis': 'JMS ext', 'parent': 'JMS', 'sectors': {'xtra': {'Xa_1': {'tex': 'a', 'real': True}, 'Xb_1': {'tex': 'b'}}}})
put('child/wet.flavio_ext.basis.json', {'eft': 'WET', 'basis': 'flavio ext', 'parent': 'flavio', 'sectors': {'xtra': {'Yc_1': {'tex': 'c'}}}})
put('child/wet.JMS_ext2.basis.json', {'eft': 'WET', 'basis': 'JMS ext2', 'parent': 'JMS', 'sectors': {'xtrb': {'Xz_1': {'tex': 'z'}}}})
