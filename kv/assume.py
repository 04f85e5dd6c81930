"""What a check leaves unchecked, listed in its evidence."""

# callee contract -> the property whose check proves that the callee's body satisfies it
PROVED_BY = {
    'FD::FD': 'C04', 'Cheb::Cheb': 'C04', 'Sphere::Sphere': 'C08', 'Grid::Grid': 'C08', 'Scalar_eom::Scalar_eom': 'C16', 'Field::Field': 'C28',
    'FD::der': 'C01', 'FD::der2': 'C02', 'FD::filter': 'C03', 'Cheb::to_ch': 'C05', 'Cheb::der': 'C06', 'Cheb::filter': 'C07',
    'Sphere::partial_phi': 'C12', 'Sphere::laplace_beltrami': 'C12', 'Sphere::sphereX': 'C13', 'Sphere::filter': 'C14',
    'Sphere::power_spectrum': 'C15', 'Sphere::compute_ylm': 'C29', 'Sphere::to_Ylm': 'C29', 'Sphere::to_Sph': 'C29',
    'Grid::set_partial_phi': 'C11', 'Grid::set_spherical_lap': 'C11', 'Grid::set_sphereX': 'C11', 'Grid::set_angular_power_spectrum': 'C11',
    'Grid::set_n_l_coef': 'C11', 'Grid::set_partial_R': 'C10', 'Grid::set_partial_r': 'C10', 'Grid::set_partial2_r': 'C10',
    'Grid::filter': 'C14', 'Grid::compute_ylm': 'C19', 'Grid::norm_indep_res': 'C27', 'Grid::total_variation': 'C27',
    'Scalar_eom::set_k': 'C16', 'Scalar_eom::set_rho': 'C17', 'Scalar_eom::time_step': 'C18',
    'Params::Params': 'C20', 'Csv::write_R_psl': 'C21', 'ID::compact_pulse': 'C19', 'Field::shift': 'C28',
}
REAL = 'double arithmetic is read as exact real arithmetic: rounding, overflow to infinity and NaN are outside the proof (the replay battery runs the real arithmetic)'
INT = 'int and size_t are read as mathematical integers (no 32- or 64-bit overflow); an unsigned value below zero is an obligation'
PY = 'Python integers are exact; Python floats are read as exact reals; os, subprocess and shutil calls are recorded, not executed'
EXTRA = {
    'C13': ['the complex transforms use the layout l(l+1)+m with |m|<=l<=lmax, which SHTns provides for mmax=lmax (and, per its documentation, requires)'],
    'C29': ['the complex transforms use the layout l(l+1)+m with |m|<=l<=lmax, which SHTns provides for mmax=lmax (and, per its documentation, requires)'],
    'C15': ['Parseval is taken over the retained degrees below lmax, which is what the function reports'],
    'C19': ['pulses at least 1e-14 wide that end below r=1e12 (the stand-in for infinity)', 'exp and the spherical harmonics are uninterpreted; the derivative identity is checked with exp differentiated symbolically (sympy)'],
    'C20': ['std::stoi, std::stod and operator>> parse a decimal token the way the C++ standard says; files do not change while they are read'],
    'C21': ['an output stream accepts every write; setprecision(16) prints enough digits to recover the stored value to 1e-15 relative'],
    'C22': ['the parameter file is valid: positive sizes, t_step_save >= 1'],
    'C23': ['FFTW new-array execution and the SHTns transforms are thread-safe on distinct arrays (their documentation); planning is not and must be serial',
            'schedules are covered by the non-interference of any two iterations or sections, so no schedule is enumerated'],
    'C24': ['every allocation succeeds or throws; stack size is not modelled'],
}


CTORS = ('FD::FD', 'Cheb::Cheb', 'Sphere::Sphere', 'Grid::Grid', 'Scalar_eom::Scalar_eom', 'Field::Field')


def for_prop(prop, mods=(), libs=()):
    out = [PY] if prop in ('C25', 'C26') else [REAL, INT]
    out += EXTRA.get(prop, [])
    for m in sorted(mods):
        if m in CTORS and prop not in ('C22', 'C23', 'C24'):
            continue            # the constructor's own body is executed; only its arguments are remembered
        q = PROVED_BY.get(m)
        out.append('contract of %s assumed at calls here; its body is checked against it by %s' % (m, q) if q and q != prop else
                   'contract of %s assumed at calls here; its body is checked against it in this same check' % m if q else 'contract of %s assumed' % m)
    out += ['library contract (not verified): ' + l for l in sorted(libs)]
    return out
