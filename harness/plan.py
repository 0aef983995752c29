"""Which work units decide which property."""
import scenarios

BUDGET = {'quick': 240, 'thorough': 3 * 3600}
PROPS = ['C%02d' % n for n in range(1, 22)]
ENUMS = {
    'C01': ['patterns', 'fixtures', 'scale'], 'C03': ['values'], 'C04': ['deps', 'faults'], 'C06': ['schemas'],
    'C07': ['required'], 'C08': ['patterns'], 'C09': ['edits', 'scale'], 'C10': ['scale'], 'C02': ['scale'], 'C11': ['edits'], 'C13': ['required'], 'C16': ['patterns', 'scale'],
    'C20': ['patterns', 'scale'], 'C21': ['values', 'deps', 'faults', 'required'],
    'C17': ['fixtures', 'patterns', 'scale'], 'C18': ['keys', 'sizes'], 'C19': ['selection']}
ALL_ENUMS = ['values', 'deps', 'faults', 'patterns', 'schemas', 'required', 'keys', 'sizes', 'selection', 'fixtures', 'edits', 'scale']
# scenarios of the bounded model
MODELS = {
    'C01': ['lists', 'twice', 'top'], 'C02': ['edit', 'deep'], 'C03': ['top'], 'C04': ['dep', 'edit'], 'C05': ['gate', 'twice'],
    'C06': [], 'C07': ['required', 'ps', 'psnode'], 'C08': ['lists', 'struct'], 'C09': ['lists', 'deep'],
    'C10': ['copy'], 'C11': ['edit', 'arrays'], 'C12': ['paths', 'twice', 'gate'], 'C13': ['ps', 'psnode'], 'C14': ['soc'],
    'C15': ['struct'], 'C16': ['lists', 'edit'], 'C17': ['top', 'edit'], 'C18': ['arrays'], 'C19': ['paths'],
    'C20': ['struct'], 'C21': ['gate', 'dep']}
# groups of laws of the specification
LAWS = {'C01': 'trees', 'C02': 'trees', 'C03': 'values', 'C04': 'trees', 'C06': 'schemas', 'C08': 'trees', 'C10': 'trees',
        'C16': 'trees', 'C17': 'trees', 'C18': 'arrays', 'C21': 'values'}
MODEL_LIMIT = {'quick': 250, 'thorough': 4000}
# traces of the property's own profile (quick tier) and of every other profile
OWN = {'C06': 240, 'C03': 320, 'C07': 320, 'C19': 320, 'C11': 320}
OTHER = 24


def units(prop, tier, seed):
    out = []
    quick = tier == 'quick'

    def walks(p, n, first=0, size=30, deep=False, base=0):
        for i in range(first, first + n, size):
            out.append({'kind': 'walk', 'prop': p, 'seed': seed + base, 'first': i,
                        'n': min(size, first + n - i), 'deep': deep})
    if prop in LAWS:
        out.append({'kind': 'laws', 'name': LAWS[prop], 'deep': not quick})
    for name in MODELS[prop] if quick else scenarios.ALL:
        mine = name in MODELS[prop]
        for v in scenarios.ALL[name][1]:
            out.append({'kind': 'model', 'prop': '', 'name': name, 'variant': v, 'seed': seed, 'timeout': 700 if quick else 3000,
                        'depth': scenarios.ALL[name][2][0 if quick or not mine else 1], 'limit': MODEL_LIMIT[tier]})
            if mine and not quick and 'hdf5' in v:
                # HDF5 as the property C05 would have it
                out.append(dict(out[-1], strict=True, limit=0))
    if quick:
        for e in ENUMS.get(prop, []):
            out.extend({'kind': 'enum', 'name': e, 'part': i, 'parts': 8} for i in range(8))
        walks(prop, OWN.get(prop, 480))
        for p in PROPS:
            if p != prop:
                # different traces in the checks of different properties
                walks(p, OTHER, first=1000 * int(prop[1:]), size=OTHER)
        return out
    for e in ALL_ENUMS:
        mine = e in ENUMS.get(prop, [])
        out.extend({'kind': 'enum', 'name': e, 'part': i, 'parts': 32 if mine else 8, 'deep': mine}
                   for i in range(32 if mine else 8))
    walks(prop, 6 * OWN.get(prop, 480))
    walks(prop, 4 * OWN.get(prop, 480), deep=True, base=1000)
    for p in PROPS:
        if p != prop:
            walks(p, 15 * OTHER, first=1000 * int(prop[1:]))
    walks(prop, 40 * OWN.get(prop, 480), first=100000)
    return out
