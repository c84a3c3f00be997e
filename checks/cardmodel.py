"""Reference model of a SMEFTsim card: which coefficient every entry of it
stands for (fixtures/card_model.json, made by tools/gen_card_model.py)."""
import cmath
import json
import os

_model = {}
HOW = {'abs': lambda z, cut: abs(z) * cut ** 2, 'real': lambda z, cut: z.real * cut ** 2,
       'angle': lambda z, cut: cmath.phase(z), 'cutoff': lambda z, cut: cut}


def entries(text):
    """The numerical entries of a card, as ('BLOCK i j ..', value)."""
    block = None
    for line in text.split('\n'):
        w = line.split('#')[0].split()
        if not w:
            continue
        if w[0].lower() == 'block':
            block = w[1]
        elif w[0].lower() == 'decay':
            block = None
        elif block is not None and len(w) > 1:
            try:
                yield ' '.join([block] + w[:-1]), float(w[-1])
            except ValueError:
                pass


def number(v):
    return complex(float(v.get('Re', 0)), float(v.get('Im', 0))) if isinstance(v, dict) else complex(float(v))


def compare(text, values, model_set, cutoff):
    """The first difference between a card and the coefficients, or None."""
    if not _model:
        _model.update(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'fixtures', 'card_model.json'))))
    seen = {}
    for k, v in entries(text):
        if k in seen and k in _model[model_set]:
            return 'entry %s appears twice' % k
        seen[k] = v
    for k, what in _model[model_set].items():
        how, name = what.split()
        if k not in seen:
            return 'entry %s (%s) is missing' % (k, what)
        want = HOW[how](number(values.get(name, 0)), cutoff)
        if abs(seen[k] - want) > 2e-6 * abs(want) + 1e-300:
            return 'entry %s is %r, %s should be %r' % (k, seen[k], what, want)
    return None
