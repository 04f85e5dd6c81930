"""C20: parameter file."""
from .common import *
from ..exec import Unsupported, Undef

FILE = var('paramfile', 'S')
# accessor -> (name in the file, kind); from the parameter list of the launcher and the documentation, not from params.cpp
TABLE = {
    'nt': ('nt', 'I'), 'nx': ('nx', 'I'), 'nl': ('nl', 'I'), 'nm': ('nm', 'I'), 'nlat': ('nlat', 'I'), 'nphi': ('nphi', 'I'),
    't_step_save': ('t_step_save', 'I'), 'dt': ('dt', 'R'), 'cl': ('compactification_length', 'R'),
    'Rmax': ('Rmax', 'R'), 'Rmin': ('Rmin', 'R'), 'bh_mass': ('black_hole_mass', 'R'), 'bh_spin': ('black_hole_spin', 'R'),
    'km1': ('km1', 'R'), 'k0': ('k0', 'R'), 'k1': ('k1', 'R'), 'k2': ('k2', 'R'), 'V2': ('V2', 'R'), 'V3': ('V3', 'R'), 'V4': ('V4', 'R'),
    'id': ('initial_data_type', 'S'), 'initial_data_direction': ('initial_data_direction', 'S'),
    'amp': ('amp', 'R'), 'rl': ('rl', 'R'), 'ru': ('ru', 'R'), 'l_ang': ('l_ang', 'I'), 'm_ang': ('m_ang', 'I'),
}
SP = tm.string(' ')


def first_line(name):
    k = fresh('ln')
    return tm.first(k, tm.app('nlines', FILE, s='I'), eq(tm.app('upto', tm.app('line', FILE, k, s='S'), SP, s='S'), tm.string(name)))


def rest(name):
    return tm.app('after', tm.app('line', FILE, first_line(name), s='S'), SP, s='S')


def value(name, kind):
    t = tm.app('tok', rest(name), I(0), s='S')
    return {'I': lambda: tm.app('stoi', t, s='I'), 'R': lambda: tm.app('stod', t, s='R'), 'S': lambda: t}[kind]()


def found(name):
    return lt(first_line(name), tm.app('nlines', FILE, s='I'))


def wellformed(name, kind):
    ln = tm.app('line', FILE, first_line(name), s='S')
    return andd(lt(I(0), tm.app('ntok', rest(name), s='I')), nott(eq(tm.app('find', ln, SP, s='I'), I(2 ** 64 - 1))))


def ctor(k):
    r = k.run(True, True, {})
    r.assume(tm.app('readable', FILE, s='B'))
    p = r.obj('Params', [FILE], 'params')
    facts = []
    for n, kd in TABLE.values():
        facts += [found(n), wellformed(n, kd)]
    for n, (nm_, kd) in TABLE.items():
        try:
            v = r.call('Params::' + n, p, [])
        except Unsupported as e:
            # the constructor ran to its end within reach, and left the member the accessor returns without a value
            if 'uninitialised' not in str(e) or "('obj', 'params'" not in str(e):
                raise
            k.must('%s is set from the file' % n, False, str(e))
            continue
        if isinstance(v, Undef):
            k.must('%s is set from the file' % n, False, 'no value')
            continue
        if kd == 'S':
            k.true('%s is the word after "%s"' % (n, nm_), eq(v, value(nm_, kd)), r, facts)
        else:
            k.eq('%s is the number after "%s"' % (n, nm_), v, value(nm_, kd), r, facts)
        k.true('a file without "%s" stops the program' % nm_, found(nm_), r)
    exits(k, r, [n for n, _ in TABLE.values()])


def exits(k, r, names):
    """the program stops only because a parameter is missing, and then with a failure status"""
    for kind, code, st in r.ex.exits:
        k.true('the exit status is a failure', ne(code, I(0)), tuple(st.facts) + tuple(st.br))
        fs = tuple(st.facts) + tuple(st.br)
        last = strings(fs[-1]) if fs else ()
        sel_ = [n for n in names if n in last] or names
        k.true('the program stops only when a parameter is missing', orr(*[nott(found(n)) for n in sel_]), fs)


def strings(t):
    out, todo, seen = set(), [t], set()
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == 'c' and isinstance(u.a[0], str):
            out.add(u.a[0])
        todo += tm.children(u)
    return out


def lists(k, kind):
    NAME, n0 = var('pname', 'S'), var('n0')
    r = k.run(True, True, {})
    r.assume(tm.app('readable', FILE, s='B'), le(I(0), n0))
    p = r.obj('Params', [], 'params')
    a = r.vec('arr', n0, kind)
    A0 = r.arr(a)
    m0 = r.snapshot()
    r.call('Params::_read_array', p, [FILE, NAME, a], sig='vector<double>' if kind == 'R' else 'vector<size_t>')
    k_ = fresh('ln')
    fl = tm.first(k_, tm.app('nlines', FILE, s='I'), eq(tm.app('upto', tm.app('line', FILE, k_, s='S'), SP, s='S'), NAME))
    rst = tm.app('after', tm.app('line', FILE, fl, s='S'), SP, s='S')
    cnt = tm.app('ntok', rst, tm.string('float' if kind == 'R' else 'int'), s='I')
    fnd = lt(fl, tm.app('nlines', FILE, s='I'))
    k.eq('one entry is added for each value on the line', r.st.mem[a.path + ('#n',)], n0 + cnt, r, (fnd,))
    i = var('i')
    k.eq('the values on the line, in order', r.at(a, n0 + i), tm.app('stod' if kind == 'R' else 'stoi', tm.app('tok', rst, i, s='S'), s=kind), r, inr(i, cnt) + (fnd,))
    k.eq('earlier entries are kept', r.at(a, i), sel(A0, (i,)), r, inr(i, n0) + (fnd,))
    k.true('a file without the name stops the program', fnd, r)
    for kind_, code, st in r.ex.exits:
        k.true('the exit status is a failure', ne(code, I(0)), tuple(st.facts) + tuple(st.br))
        k.true('the program stops only when the name is missing', nott(fnd), tuple(st.facts) + tuple(st.br))
    k.frame('only the list is written', m0, r, [a.path])


def c20():
    return [('Params::Params', ctor, ()), ('Params::_read_array (double)', lists, ('R',)), ('Params::_read_array (size_t)', lists, ('I',))]
