"""Everything the public getters of species and reactions answer, as plain data."""
import json

import world

SP_UNITS = ('mass', 'charge', 'h_form', 'lj_epsilon', 'lj_sigma')
R_UNITS = ('arrh_a', 'arrh_c', 'el_en_loss', 'gas_heat_contrib')


def num(v):
    return None if v is None else float(v)


def rp_facts(rp, with_id=True):
    out = {'name': rp.get_name(), 'stateless': rp.get_stateless(), 'state': rp.get_state(), 'mass': num(rp.get_mass()),
           'charge': rp.get_charge(), 'h_form': num(rp.get_h_form()), 'lj_epsilon': num(rp.get_lj_epsilon()),
           'lj_sigma': num(rp.get_lj_sigma()), 'hpem_name': rp.get_hpem_name(), 'qdb_id': rp.get_qdb_id(),
           'stick_coef': num(rp.get_stick_coef()),
           'ret_coefs': None if rp.get_ret_coefs() is None else {k: float(v) for k, v in rp.get_ret_coefs().items()},
           'comments': rp.get_comments() or None, 'latex': rp.get_latex(), 'atoms': dict(rp.get_atoms()),
           'units': [rp.get_unit(u) for u in SP_UNITS]}
    if with_id:
        out['id'] = rp.id
    return out


def r_facts(r, with_id=True):
    out = {'L': [x.get_name() for x in r.get_reactants()], 'R': [x.get_name() for x in r.get_products()],
           'arrh_a': num(r.get_arrh_a()), 'arrh_a_nominal': num(r.get_arrh_a(si_units=False)), 'arrh_b': num(r.get_arrh_b()),
           'arrh_c': num(r.get_arrh_c()), 'elastic': bool(r.get_elastic()), 'el_en_loss': num(r.get_el_en_loss()),
           'gas_heat_contrib': num(r.get_gas_heat_contrib()), 'special_number': r.get_special_number(),
           'qdb_r_id': r.get_qdb_r_id(), 'qdb_ds_id': r.get_qdb_ds_id(), 'doi': r.get_doi(),
           'comments': r.get_comments() or None, 'latex': r.get_latex(),
           'units': [r.get_unit(u) for u in R_UNITS]}
    # the unit of an undefined value is of no consequence
    if out['arrh_a_nominal'] is None:
        out['units'][0] = None
    if with_id:
        out['id'] = r.id
    return out


def first_diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if a[k] != b.get(k):
                return '{}: {!r} != {!r}'.format(k, a[k], b.get(k))
    return '{!r} != {!r}'.format(a, b)
