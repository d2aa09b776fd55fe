"""Independent reference of the global model's equations, in plain scalar loops from the documented formulae.

Knows a chemistry only as (spec, RefState) and the model parameters as a dict; never calls the code under test.
Constants are CODATA values written out here (scipy's differ by < 1e-9 relative).
"""
import math

import gen

K_B = 1.380649e-23
E_CH = 1.602176634e-19
EPS0 = 8.8541878128e-12
M_E = 9.1093837015e-31
AMU = 1.66053906660e-27
MTORR = 0.133322
SCCM = 4.485e17


class Plasma:
    def __init__(self, ref, params, neutral=False, diffusion_model=1):
        self.ref, self.neutral, self.dm = ref, neutral, diffusion_model
        ids = self.ids = ref.ids()
        rids = self.rids = ref.rids()
        self.names = [ref.name(i) for i in ids]
        self.q = [ref.sp[i]['k']['q'] for i in ids]
        self.m = [gen.fnum(ref.sp[i]['attrs']['mass']) * AMU for i in ids]
        self.sig = [(gen.fnum(ref.sp[i]['attrs']['lj_sigma']) if ref.sp[i]['attrs'].get('lj_sigma') is not None else 3.)
                    * 1e-10 for i in ids]
        self.s = [ref.stick_coef(i) for i in ids]
        self.rc = {i: ref.ret_coefs(i) for i in ids}
        self.A = [ref.arrh_a(r) for r in rids]
        get = lambda r, k: gen.fnum(ref.r[r]['attrs'][k]) if ref.r[r]['attrs'].get(k) is not None else 0.
        self.B = [get(r, 'arrh_b') for r in rids]
        self.C = [get(r, 'arrh_c') for r in rids]
        self.loss = [get(r, 'el_en_loss') for r in rids]
        self.e = ref.by_name.get('e')
        self.M = ref.by_name.get('M')
        self.lhs = [ref.r[r]['L'] for r in rids]
        self.rhs = [ref.r[r]['R'] for r in rids]
        self.elc = [self.e in L for L in self.lhs]
        self.els = [bool(ref.r[r]['attrs']['elastic']) if ref.r[r]['attrs'].get('elastic') is not None
                    else set(ref.r[r]['L']) == set(ref.r[r]['R']) for r in rids]
        self.partner = []
        for L, c, l in zip(self.lhs, self.elc, self.els):
            hv = [i for i in ids if i in L]
            self.partner.append(gen.fnum(ref.sp[hv[0]]['attrs']['mass']) * AMU if c and l else None)
        P = params
        self.Tg, self.r, self.z, self.p0, self.t_end = P['temp_gas'], P['radius'], P['length'], P['pressure'], P['t_end']
        self.feeds = [P['feeds'].get(n, 0.) for n in self.names]
        self.power, self.t_power = P['power'], P['t_power']
        self.V = math.pi * self.r ** 2 * self.z
        self.area = 2 * math.pi * self.r * self.z + 2 * math.pi * self.r ** 2
        self.lam = 1 / math.sqrt((math.pi / self.z) ** 2 + (2.405 / self.r) ** 2)
        pos = [m for m, q in zip(self.m, self.q) if q > 0]
        self.m_ion = sum(pos) / len(pos) if pos else float('nan')

    def initial(self, Te):
        """The documented initial densities (tiny electron density, feeds sharing what is left of the pressure)."""
        n_tot = self.p0 / (K_B * self.Tg)
        tiny = 1e-15 * n_tot
        nq = [q for q in self.q if q < 0]
        npos = sum(q for q in self.q if q > 0)
        n_pos = (tiny + tiny * -sum(nq)) / npos
        n = [None] * len(self.q)
        for i, q in enumerate(self.q):
            n[i] = n_pos if q > 0 else tiny if q < 0 else None
        return n, tiny, n_tot, 1.5 * tiny * Te

    def evaluate(self, y):
        """All partial results for the state y (n_1 … n_N, rho), as floats and lists; '~x' holds the magnitude of x's terms."""
        o = {}
        N, R = len(self.ids), len(self.rids)
        n = [float(v) for v in y[:-1]]
        rho = float(y[-1])
        ix = {i: k for k, i in enumerate(self.ids)}
        o['density_vector'], o['electron_energy_density'] = n, rho
        o['total_density'] = nt = math.fsum(n)
        o['total_pressure'] = p = K_B * self.Tg * nt
        T05 = 0.5 * E_CH / K_B
        o['ion_temperature'] = Ti = (T05 - self.Tg) * MTORR / p + self.Tg if p > MTORR else T05
        ne = math.fsum(a * b for a, b in zip(n, self.q))
        Tg_ev = self.Tg * K_B / E_CH
        if self.neutral:
            ne, Te = 0., float('nan')
        else:
            Te = max(rho / (1.5 * ne), Tg_ev)
            o['debye_length'] = lamD = math.sqrt(EPS0 * Te / (E_CH * ne))
        o['electron_density'], o['electron_temperature'] = ne, Te
        k, rates = [], []
        for j in range(R):
            T, Tref = (Te, 1.) if self.elc[j] else (self.Tg, 300.)
            k.append(self.A[j] * (T / Tref) ** self.B[j] * math.exp(-self.C[j] / T))
            x = k[-1]
            for i in self.lhs[j]:
                x *= ne if i == self.e else nt if i == self.M else n[ix[i]]
            rates.append(x)
        o['reaction_rate_coefficients'], o['reaction_rates'] = k, rates
        vol, volm = [0.] * N, [0.] * N
        for j in range(R):
            for side, sg in ((self.lhs[j], -1), (self.rhs[j], 1)):
                for i in side:
                    if i in ix:
                        vol[ix[i]] += sg * rates[j]
                        volm[ix[i]] += abs(rates[j])
        o['volumetric_source_rates'], o['~volumetric_source_rates'] = vol, volm
        nn = math.fsum(n[i] for i in range(N) if self.q[i] == 0)
        tot = math.fsum(self.feeds) * SCCM / self.V
        flow, flowm = [], []
        for i in range(N):
            terms = [self.feeds[i] * SCCM / self.V]
            if self.q[i] == 0:
                terms += [-n[i] * 1e3 * p / self.p0, n[i] * 1e3, -tot * n[i] / nn]
            flow.append(math.fsum(terms))
            flowm.append(math.fsum(abs(t) for t in terms))
        o['flow_source_rates'], o['~flow_source_rates'] = flow, flowm
        v = [math.sqrt(8 * K_B * (self.Tg if self.q[i] == 0 else Ti) / (math.pi * self.m[i])) for i in range(N)]
        o['mean_speeds'] = v
        sig = [[0.] * N for _ in range(N)]
        ok = True
        for i in range(N):
            for j in range(N):
                if i == j:
                    continue
                if self.q[i] == 0 or self.q[j] == 0:
                    sig[i][j] = (self.sig[i] + self.sig[j]) ** 2
                else:
                    mu = self.m[i] * self.m[j] / (self.m[i] + self.m[j])
                    b0 = E_CH ** 2 * abs(self.q[i] * self.q[j]) / (2 * math.pi * EPS0 * mu * v[i] ** 2)
                    lg = math.log(2 * lamD / b0)
                    ok = ok and lg > 0.05
                    sig[i][j] = math.pi * b0 ** 2 * lg
        o['sigma_sc'] = sig
        den = [math.fsum(n[j] * sig[i][j] for j in range(N)) for i in range(N)]
        dm = [math.fsum(abs(n[j] * sig[i][j]) for j in range(N)) for i in range(N)]
        o['ok'] = ok and all(d > 1e-3 * m > 0 for d, m in zip(den, dm))  # conditioning guard
        mfp = [1 / d if d else float('inf') for d in den]
        o['mean_free_paths'] = mfp
        Df = [math.pi / 8 * a * b for a, b in zip(mfp, v)]
        o['free_diffusivities'] = Df
        D = list(Df)
        if not self.neutral:
            neg = math.fsum(n[i] for i in range(N) if self.q[i] < 0)
            al, ga = neg / ne, Te * E_CH / K_B / Ti
            fp = [Df[i] for i in range(N) if self.q[i] > 0]
            Da = sum(fp) / len(fp) * (1 + ga * (1 + 2 * al)) / (1 + al * ga)
            o['ambipolar_diffusivity_pos'], o['ambipolar_diffusivity_neg'] = Da, 0.
            D = [Da if q > 0 else 0. if q < 0 else d for q, d in zip(self.q, Df)]
        o['diffusivities'] = D
        fl = []
        for i in range(N):
            if self.s[i] == 0 or D[i] == 0:
                fl.append(0.)
            elif self.dm == 0:
                fl.append(-D[i] * n[i] * self.s[i] / self.lam ** 2 * self.V / self.area)
            else:
                fl.append(-D[i] * n[i] * self.s[i] / (self.s[i] * self.lam + 4 * D[i] / v[i]))
        o['wall_fluxes'] = fl
        sink = o['diffusion_sinks'] = [f * self.area / self.V for f in fl]
        src = [0.] * N
        for j, i in enumerate(self.ids):
            for name, c in (self.rc[i] or {}).items():
                t = ix.get(self.ref.by_name.get(name))
                if t is not None:
                    src[t] += c * -sink[j]
        o['diffusion_sources'] = src
        o['diffusion_source_rates'] = dif = [a + b for a, b in zip(sink, src)]
        o['~diffusion_source_rates'] = difm = [abs(a) + abs(b) for a, b in zip(sink, src)]
        o['min_n_correction'] = cor = [(1 - x) / 1e-10 if x < 1 else 0. for x in n]
        o['dn_dt'] = [a + b + c + d for a, b, c, d in zip(vol, flow, dif, cor)]
        o['~dn_dt'] = [a + b + c + d for a, b, c, d in zip(volm, flowm, difm, cor)]
        if self.neutral:
            return o
        loss = list(self.loss)
        for j in range(R):
            if self.elc[j] and self.els[j]:
                loss[j] = 3 * M_E / self.partner[j] * (Te - Tg_ev)
        o['el_en_losses'] = loss
        t1 = [loss[j] * rates[j] for j in range(R) if self.elc[j]]
        o['drho_dt_el_inel'], o['~drho_dt_el_inel'] = math.fsum(t1), math.fsum(map(abs, t1))
        t2 = [1.5 * Te * (self.rhs[j].count(self.e) - self.lhs[j].count(self.e)) * rates[j] for j in range(R)]
        o['drho_dt_gain_loss'], o['~drho_dt_gain_loss'] = math.fsum(t2), math.fsum(map(abs, t2))
        t3 = [-2 * Te * q * x for q, x in zip(self.q, dif)]
        t3m = [2 * Te * abs(q) * x for q, x in zip(self.q, difm)]
        o['drho_dt_el_walls'], o['~drho_dt_el_walls'] = math.fsum(t3), math.fsum(t3m)
        o['sheath_voltage'] = Vs = Te * 0.5 * math.log(self.m_ion / (2 * math.pi * M_E))
        t4 = [-(0.5 * Te + Vs * q) * x for q, x in zip(self.q, dif) if q > 0]
        t4m = [(0.5 * Te + Vs * q) * x for q, x in zip(self.q, difm) if q > 0]
        o['drho_dt_ions_walls'], o['~drho_dt_ions_walls'] = math.fsum(t4), math.fsum(t4m)
        o['min_rho_correction'] = (1 - rho) / 1e-10 if rho < 1 else 0.
        return o

    def power_range(self, t, slack):
        """Smallest and largest power the given profile takes within `slack` of time t."""
        lo, hi = float('inf'), -float('inf')
        T, P = self.t_power, self.power
        a, b = t - slack, t + slack
        pts = [P[0]] if a < T[0] else []
        if b > T[-1]:
            pts.append(P[-1])
        for i in range(len(T) - 1):
            t0, t1 = T[i], T[i + 1]
            if t0 > b or t1 < a:
                continue
            for x in (max(a, t0), min(b, t1)):
                if t1 == t0:
                    pts += [P[i], P[i + 1]]
                else:
                    pts.append(P[i] + (P[i + 1] - P[i]) * (x - t0) / (t1 - t0))
        for x in pts:
            lo, hi = min(lo, x), max(hi, x)
        return lo, hi


# ---------------------------------------------------- generators --------------------------------------------------- #

def draw_params(d, names, t_end=None, constant=False, feed_pool=None, ints=True):
    """Model parameters under their nominal names. `names` are the species which may be fed."""
    te = t_end or d.pick([1e-3, 1e-2, 1., 10, 2, 0.5])
    P = {'radius': d.pick([0.1, 0.01, 0.05, 1, 0.37]), 'length': d.pick([0.1, 0.3, 0.02, 1, 0.08]),
         'pressure': d.weighted([(100., 2), (d.logflt(-1, 5), 4), (10, 1), (0.05, 1)]),
         'temp_gas': d.weighted([(300., 2), (500, 1), (d.flt(200, 3000), 3)]), 't_end': te}
    pool = list(names if feed_pool is None else feed_pool)
    P['feeds'] = {n: d.weighted([(d.flt(1, 500), 3), (100, 1), (d.logflt(-3, 3), 1)])
                  for n in d.perm(pool)[:d.weighted([(1, 4), (2, 2), (0, 2), (3, 1)])]}
    if constant or d.bool(1, 5):
        p = d.weighted([(500, 1), (d.flt(0, 3000), 2), (0., 1)])
        P['power'], P['t_power'] = [p, p], [0, d.pick([1.1, 2, 1000]) * te]
        return P
    n = d.int(1, 4)
    whole = ints and isinstance(te, int) and d.bool()
    grid = 20 if not whole else te * 3
    unit = te / 20. if not whole else 1
    marks = sorted({d.int(1 if i else 0, grid - 1) for i in range(n)})
    T, W = [], []
    first = d.weighted([(0, 3), (-1, 1)])
    T.append(first * unit if first else 0)
    W.append(d.weighted([(0, 1), (d.flt(0, 3000), 2)]))
    for m in marks:
        t = m * unit
        if t <= T[0] and (len(T) > 1 or m == 0):
            continue
        if d.bool(3, 5):
            T += [t, t]
            W += [d.weighted([(W[-1], 2), (d.flt(0, 3000), 1)]), d.weighted([(0., 1), (d.flt(0, 3000), 2)])]
        else:
            T.append(t)
            W.append(d.flt(0, 3000))
    end = (max(grid, 22) + d.int(2, 10)) * unit if not whole else te * 3 + d.int(1, 5)
    T.append(end)
    W.append(d.weighted([(W[-1], 1), (d.flt(0, 3000), 1)]))
    P['power'], P['t_power'] = W, T
    return P


def draw_state(d, n_species_max=12):
    """Raw numbers from which `make_y` builds a state for whatever species exist: exponents and special cases."""
    return {'x': [d.int(0, 1000) for _ in range(n_species_max)], 'dom': d.int(0, 40),
            'ne': d.flt(-9, -3), 'Te': d.weighted([(d.flt(0.5, 8), 12), (0.001, 3), (1., 3), (d.flt(0.02, 0.5), 3), (0., 1), (-0.5, 1), (1e-25, 1)]),
            'press': d.weighted([(1., 2), (d.flt(0.2, 2), 3), (1e-6, 1), (0.9999, 1)]),
            'odd': d.weighted([(None, 4), (0., 1), (0.3, 1), (-5., 1)]), 'odd_i': d.int(0, 40)}


def make_y(pl, st):
    """A physical state: total pressure near p0, positive charge density, one neutral possibly (near) empty or negative."""
    N = len(pl.ids)
    nt = pl.p0 * st['press'] / (K_B * pl.Tg)
    neu = [i for i in range(N) if pl.q[i] == 0]
    pos = [i for i in range(N) if pl.q[i] > 0]
    n = [0.] * N
    base = nt * 10 ** st['ne']
    for i in range(N):
        e = st['x'][i % len(st['x'])] / 1000.
        if pl.q[i] == 0:
            n[i] = nt * 10 ** (-6 * e)
        elif pl.q[i] > 0:
            n[i] = base * 10 ** (-4 * e)
        else:
            n[i] = 0.3 * base * 10 ** (-4 * e)
    if neu:
        dom = neu[st['dom'] % len(neu)]
        n[dom] = nt
        if st['odd'] is not None and len(neu) > 1:
            odd = neu[st['odd_i'] % len(neu)]
            if odd != dom:
                n[odd] = st['odd']
    if pos:
        neg = sum(n[i] for i in range(N) if pl.q[i] < 0)
        n[pos[st['dom'] % len(pos)]] += base + neg
        ne = sum(a * b for a, b in zip(n, pl.q))
        rho = 1.5 * ne * st['Te']
    else:
        rho = 0.
    return n + [rho]
