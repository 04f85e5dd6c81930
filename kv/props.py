"""Which specification tasks and which replay batteries decide each property."""
import importlib

# property -> [(module, function returning tasks)]
SPECS = {
    'C01': [('radial', 'c01')], 'C02': [('radial', 'c02')], 'C03': [('radial', 'c03')], 'C04': [('radial', 'c04')],
    'C05': [('radial', 'c05')], 'C06': [('radial', 'c06')], 'C07': [('radial', 'c07')],
    'C08': [('grid', 'c08')], 'C09': [('grid', 'c09')], 'C10': [('grid', 'c10')], 'C11': [('grid', 'c11')],
    'C12': [('sphere', 'c12')], 'C13': [('sphere', 'c13')], 'C14': [('sphere', 'c14s'), ('grid', 'c14')], 'C15': [('sphere', 'c15')],
    'C16': [('eom', 'c16')], 'C17': [('eom', 'c17')],
    'C22': [('main', 'c22')],
    'C21': [('io', 'c21')],
    'C20': [('params', 'c20')],
    'C19': [('ident', 'c19')],
    'C18': [('eom', 'c18')], 'C28': [('eom', 'c28')], 'C29': [('sphere', 'c29')],
    'C27': [('grid', 'c27')], 'C23': [('safety', 'c23')], 'C24': [('safety', 'c24')],
    'C25': [('launcher', 'c25')], 'C26': [('launcher', 'c26')],
}

# properties replayed on the real code (kv/battery)
BATTERY = set(SPECS)

# properties whose tasks never touch /repo's C++ (launcher): no program to parse
NO_CPP = {'C25', 'C26'}


def tasks(prop):
    out = []
    for m, f in SPECS[prop]:
        out += getattr(importlib.import_module('kv.specs.' + m), f)()
    return out
