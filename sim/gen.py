"""Seeded generation of operation histories (and their faults and schedules)."""
import random

H2O = ['R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R21SD', 'R22SD', 'R23SD', 'R24', 'MWL24']
BOTH = ['R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R24']
O2 = BOTH + ['R22', 'R23']
O3 = ['R18', 'R22']
BAD = ['R99', 'r24', '', 'R21', 'R22SDx', 'R2', 'R98 ', '19SD', 'R24SD', 'R2OSD']
CROSS = {'H': ['R22', 'R23'], 'O': ['R21SD', 'R22SD', 'R23SD', 'MWL24'], '3': ['R24', 'R17', 'R22SD', 'R98']}   # other gases' models
AMU = ['R03', 'R17', 'R18', 'R19', 'R20', 'R20SD']
FREQS = [22.235, 23.8, 31.4, 50.3, 53.75, 58.1, 60.3, 89.0, 110.8, 118.75, 117.9, 142.17, 165.5, 183.31, 190.3, 325.1, 448.0, 22.2351, 23.84, 31.0, 90]
WKEYS = ['gamma_a', 'gamma_w', 'n_a', 'n_w', 'S', 'B2', 'FL', 'SR', 'delta_a', 'delta_w', 'con_Cf', 'con_Cs', 'con_Xf', 'con_Xs',
         'con_Cf_factr', 'con_Cs_factr', 'n_da', 'n_dw', 'FL']
OKEYS = ['O2gamma', 'O2gamma_NL', 'O2S', 'O2FL', 'O2BE', 'WB300', 'X05', 'w2a', 'Y300', 'Y300_NL', 'O2_V', 'O2_V_NL', 'y0', 'y1', 'dnu0', 'dnu1', 'Snr', 'O2_nS']
O3KEYS = ['O3_FL', 'O3_S1', 'O3_B', 'O3_W', 'O3_X', 'O3_SR']
PLAINUTIL = ['mr2rh', 'mr2rho', 'mr2e', 'rho2rh', 'rho2mr', 'e2mr', 'satmix', 'satvap', 'eswat_goffgratch',
             'esice_goffgratch', 'virtual_temperature', 'atmospheric_tickness', 'dewpoint2rh', 'kgkg_to_kgm3',
             'ppmv_to_moleculesm3', 'to_kelvin', 'to_celsius', 'dilec12', 'tk2b_mod', 'pressure_to_height',
             'height_to_pressure', 'vapor', 'refractivity', 'bright']
SHAPES = ['2d', '2d', 'F', 'f4', 'step', 'series', 'series', '0d', 'scalar', 'masked', 'list', 'int']
VARIANTS = ['t', 'tiny', 'rh', 'z', 'o3', 'cld', 'swap', 'dry', 'up', 't', 'rh', 'duct', 'none', 'gap']
INSTR = ['hat', 'mp3', 'arm', 'tem', 'k2w']
SATS = ['SAPHIR', 'AMSU', 'ATMS', 'MWI', 'MWS', 'ICI', 'CIMR', 'xx']


CLOUDS = ['off', 'high', 'two', 'thin', 'top', 'ice', 'water', 'empty']


class Config:
    """A small pool of models, columns, frequencies shared by the runs of one epoch."""

    def __init__(self, rng):
        n = rng.randint(3, 5)
        self.both = rng.sample(BOTH, n)
        self.h2o = rng.sample(H2O, 3)
        self.o2 = rng.sample(O2, 3)
        self.amu = rng.sample(AMU, 2)
        self.profs = []
        for _ in range(3):
            self.profs.append([rng.choice(['low', 'mid', 'full']), rng.choice([5, 6, 7, 9]), rng.randrange(1000)])
        if rng.random() < .7:           # columns that differ in little
            self.profs[2] = self.profs[0] + [rng.choice(VARIANTS)]
        self.profs.append(self.profs[1] + [rng.choice(VARIANTS)])
        if rng.random() < .15:
            self.profs[1] = [rng.choice(['low', 'full']), 26, rng.randrange(1000)]
        self.frqs = [sorted(rng.sample(FREQS, k)) for k in (1, 2, 2, 3)]
        self.angles = [[90.0], [90.0, 42.0], [19.5], [60.0, 30.0, 90.0]]
        a = rng.choice([90.0, 42.0, 30.0])
        self.angles.append(rng.choice([[a, round(a - .04, 2)], [a - .001], [round(a - .4, 1), a], [42.0, 42.0], [5.0], [.6], [1.2], [30.0, .5]]))
        if rng.random() < .3:           # another array with nearly the same frequencies
            self.frqs[1] = [f + .0004 for f in self.frqs[0]]
        if rng.random() < .3:           # not in order, one of them twice
            f = list(self.frqs[3])
            rng.shuffle(f)
            self.frqs[2] = f[:2] if rng.random() < .5 else f[:2] + f[:1]
        self.emis = [0.6, 1.0, 0.95]


class Gen:
    def __init__(self, rng, cfg):
        self.r, self.c = rng, cfg
        self.ops = []
        self.faults = {}
        self.n = 0
        self.x = []            # radiative transfer instances
        self.wf, self.ext = [], []
        self.d = {'w': [], 'o': [], '3': [], 'full': []}
        self.sp = None
        self.dm = {}
        self.cloudy = {}
        self.prof = {}
        self.hasclouds = set()
        self.ang = {}
        self.frq = {}
        self.prefix = ''

    def name(self, k):
        self.n += 1
        return '%s%s%d' % (k, self.prefix, self.n)

    def add(self, o):
        if o['op'] in ('util', 'ext_call', 'wf_mk') and self.r.random() < .15:
            o['tmp'] = True
        if o['op'] == 'util' and o['fn'] in PLAINUTIL and 'shape' not in o:
            r = random.Random('%d %s' % (len(self.ops), o))
            if r.random() < .3:
                o['shape'] = r.choice(SHAPES)
        self.ops.append(o)
        return o

    def ch(self, seq):
        return seq[self.r.randrange(len(seq))]

    def p(self, x):
        return self.r.random() < x

    # ---- pieces ----------------------------------------------------------------
    def sel_all(self, m=None):
        m = m or self.ch(self.c.both)
        how = self.r.randrange(3)
        if how == 0 and self.x:
            self.add({'op': 'select', 'x': self.ch(self.x), 'm': m})
        else:
            for c in 'HONL':
                self.add({'op': 'select1', 'cls': c, 'm': m})

    def sel_one(self, bad=0.0):
        c = self.ch('HHOONL3')
        pool = {'H': self.c.h2o + self.c.both, 'O': self.c.o2 + self.c.both, 'N': self.c.both + ['MWL24'],
                'L': self.c.both, '3': O3}[c]
        m = self.ch(BAD + CROSS.get(c, []) * 2) if self.p(bad) else self.ch(pool)
        self.add({'op': 'select1', 'cls': c, 'm': m})
        if c == '3':
            self.add({'op': 'set_ll', 'cls': '3'})
        return c, m

    def ozone(self):
        self.add({'op': 'select1', 'cls': '3', 'm': self.ch(O3)})
        self.add({'op': 'set_ll', 'cls': '3'})

    def mk(self, **kw):
        x = self.name('x')
        cloudy = self.p(0.3)
        o = {'op': 'mk', 'x': x, 'prof': self.ch(self.c.profs), 'frq': self.ch(self.c.frqs),
             'angles': self.ch(self.c.angles) if self.p(.7) else None, 'o3': self.p(0.2),
             'rt': self.p(0.35), 'sat': self.p(0.5), 'cloudy': cloudy,
             'absmdl': self.ch(self.c.both) if self.p(0.4) else self.ch(BAD) if self.p(.015) else ''}
        if self.p(.15):
            o['how'] = self.ch(['list', 'view'])
        if not o['o3'] and not cloudy and self.p(.07):
            o['down'] = True
        if not o.get('how') and self.p(.1):
            o['tmp'] = True
        o.update(kw)
        r = random.Random('%d %s' % (len(self.ops), o))
        if r.random() < .12:
            o['col'] = r.choice(['step', 'ma'])
        self.add(o)
        self.x.append(x)
        self.frq[x] = o['frq']
        self.cloudy[x] = o['cloudy']
        self.prof[x] = o['prof']
        if o['angles']:
            self.ang[x] = o['angles']
        if o['cloudy']:
            self.add({'op': 'clouds', 'x': x, 'prof': o['prof']})
            if self.p(.2):
                self.ops[-1]['cl'] = self.ch(CLOUDS)
        return x

    def again(self):
        """One calculation, then the same object with one setting changed."""
        x = self.ch(self.x[-4:]) if self.x and self.p(.6) else self.mk()
        self.exec(x)
        self.setter(x)
        self.exec(x)

    def pair(self):
        """Two objects made from and set to the same things, one of them changed."""
        a = self.mk()
        o = [o for o in self.ops if o['op'] == 'mk'][-1]
        b = self.mk(**{k: v for k, v in o.items() if k not in ('op', 'x')})
        n = len(self.ops)
        self.setter(a)
        for q in self.ops[n:]:
            if q.get('x') == a:
                self.add(dict(q, x=b))
        if self.p(.4):
            self.exec(a)
        self.setter(a)
        if self.p(.6):
            self.exec(a)
        self.exec(b)

    def setter(self, x=None):
        if not self.x:
            return self.mk()
        x = x or self.ch(self.x)
        k = self.r.randrange(4)
        if self.p(.08):
            return self.wrong(x)
        if k == 3:
            if self.cloudy[x] and self.p(.6):
                self.add({'op': 'clouds', 'x': x, 'prof': self.prof[x], 'cl': self.ch(CLOUDS + [None])})
            elif self.p(.3):
                self.add({'op': 'attr', 'x': x, 'n': 'ice', 'v': self.p(.6)})
            elif x in self.ang and self.p(.5):
                v = [a for a in self.c.angles if a != self.ang[x] and len(a) == len(self.ang[x])]
                if v:
                    self.add({'op': 'attr', 'x': x, 'n': 'angles', 'v': self.ch(v)})
            else:
                v = [f for f in self.c.frqs if f != self.frq[x] and len(f) == len(self.frq[x])]
                if v:
                    self.add({'op': 'attr', 'x': x, 'n': 'frq', 'v': self.ch(v)})
        elif k == 0:
            if self.p(.6):
                self.add({'op': 'sat', 'x': x, 'v': self.p(0.5)})
            elif self.p(.6):
                self.add({'op': 'attr', 'x': x, 'n': 'ray_tracing', 'v': self.p(.5)})
            else:
                v = self.p(.6)
                self.add({'op': 'attr', 'x': x, 'n': 'cloudy', 'v': v})
                if v and not self.cloudy[x]:
                    self.cloudy[x] = True
                    self.add({'op': 'clouds', 'x': x, 'prof': self.prof[x]})
        elif k == 1:
            if self.p(0.5):
                self.add({'op': 'emis', 'x': x, 'v': self.ch(self.c.emis)})
            else:
                n = len(self.frq[x])
                self.add({'op': 'emis', 'x': x, 'v': [round(0.5 + 0.05 * ((i * 3 + len(x)) % 9), 3) for i in range(n)]})
        elif self.d['full'] and self.p(.5):
            self.add({'op': 'amu', 'x': x, 'd': self.ch(self.d['full'])})
        else:
            self.add({'op': 'sat', 'x': x, 'v': self.p(0.5)})

    def wrong(self, x):
        """A setting the object refuses, or cannot calculate with; put right later, or not."""
        k = self.r.randrange(5)
        if k < 2:
            self.add({'op': 'sat', 'x': x, 'v': self.ch([1, 0, None, 'x'])})
        elif k == 2:
            self.add({'op': 'emis', 'x': x, 'v': self.ch([1, 0, None, 'x'])})
        elif k == 3:
            self.add({'op': 'emis', 'x': x, 'v': [.7] * (len(self.frq[x]) - 1)})
            self.exec(x)
            if self.p(.7):
                self.add({'op': 'emis', 'x': x, 'v': self.ch(self.c.emis)})
        elif not self.cloudy[x]:
            self.add({'op': 'clouds', 'x': x, 'prof': self.prof[x]})

    def exec(self, x=None):
        if not self.x:
            self.mk()
        self.add({'op': 'exec', 'x': x or self.ch(self.x[-4:]), 'bt': self.p(0.5)})

    def absorb(self, amu=0.0):
        k = self.ch(['h2o', 'o2', 'o3', 'n2', 'liq', 'clear', 'cloudy', 'h2o', 'o2'])
        for c in {'h2o': 'H', 'o2': 'O', 'clear': 'HO'}.get(k, ''):
            if self.p(0.85):
                self.add({'op': 'set_ll', 'cls': c})
        if k == 'o3':
            self.ozone()
        o = {'op': 'absorb', 'kind': k, 'prof': self.ch(self.c.profs), 'lev': self.r.randrange(6),
             'f': self.ch(FREQS)}
        if k == 'clear':
            o['o3'] = self.p(.3)
        if k == 'liq' and self.p(.15):
            o['w'] = 0.0
        if self.p(.25):
            o['tmp'] = True
        if self.d['full'] and k in ('h2o', 'o2', 'clear') and self.p(amu):
            o['amu'] = self.ch(self.d['full'])
        self.add(o)

    # parameters
    def params(self, kind=None, m=None):
        kind = kind or self.ch('wwoo3')
        d = self.name('d')
        m = m or (self.ch(O3) if kind == '3' else self.ch(self.c.amu))
        self.add({'op': 'params', 'kind': kind, 'd': d, 'm': m})
        if self.p(.3):
            self.ops[-1]['raw'] = True
        self.d[kind].append(d)
        return d

    def full(self, m=None, o3=False):
        """Complete parameter set for one model."""
        m2 = m or self.ch(self.c.amu) if self.p(.12) else None
        m = m or self.ch(self.c.amu)
        src = [self.params('w', m), self.params('o', m2 or m)]
        if o3 or self.p(0.2):
            src.append(self.params('3'))
        d = self.name('d')
        self.add({'op': 'merge', 'd': d, 'src': src})
        self.d['full'].append(d)
        self.dm[d] = m
        return d

    def edit(self, src=None):
        if not self.d['full']:
            self.full()
        src = src or self.ch(self.d['full'])
        d = self.name('d')
        key = self.ch(WKEYS + OKEYS + (O3KEYS if self.p(.2) else []))
        self.add({'op': 'edit', 'd': d, 'src': src, 'key': key, 'i': self.r.randrange(40),
                  'f': self.ch([1.1, 0.9, 1.01, 1.5]), 'u': self.ch([0.01, 0.1, 0.5])})
        self.d['full'].append(d)
        self.dm[d] = self.dm.get(src)
        return d

    def other_frq(self, old):
        if all(isinstance(f, int) for f in old):      # an integer array keeps integers
            return [f + self.ch([1, 2]) for f in old]
        return [round(f + self.ch([.01, .5, -.25]), 4) for f in old]

    def touch(self):
        if self.p(.75):
            self.add({'op': 'touch', 'prof': self.ch(self.c.profs), 'v': self.ch(VARIANTS[:8])})
        else:
            old = self.ch(self.c.frqs)
            self.add({'op': 'retune', 'old': old, 'new': self.other_frq(old)})

    def refill(self):
        """The same caller's arrays before and after a change of their content."""
        prof = self.ch(self.c.profs)
        x = self.mk(prof=prof)
        o = dict(self.ops[-2 if self.cloudy[x] else -1])
        self.exec(x)
        if self.p(.75):
            self.add({'op': 'touch', 'prof': prof, 'v': self.ch(VARIANTS[:8])})
        else:
            self.add({'op': 'retune', 'old': o['frq'], 'new': self.other_frq(o['frq'])})
        del o['op'], o['x']
        self.exec(self.mk(**o))

    def loop(self):
        """A loop over columns, as in a user's program: nothing outlives its turn."""
        kw = {'tmp': True, 'absmdl': '', 'frq': self.ch(self.c.frqs), 'angles': self.ch(self.c.angles), 'cloudy': False, 'down': False,
              'rt': self.p(.4), 'sat': self.p(.5), 'o3': self.p(.1)}
        pr = self.ch(self.c.profs)
        for k in range(self.r.randint(2, 4)):
            if self.p(.3):
                self.add({'op': 'absorb', 'kind': self.ch(['clear', 'cloudy']), 'prof': pr, 'lev': 0, 'f': kw['frq'][0], 'tmp': True})
            elif self.p(.15):
                self.add({'op': 'util', 'fn': self.ch(PLAINUTIL), 'prof': pr, 'tmp': True})
            x = self.mk(**dict(kw, prof=pr))
            self.exec(x)
            self.x.remove(x)
            self.add({'op': 'drop', 'x': x})
            if self.p(.75):
                pr = pr[:3] + [self.ch(VARIANTS)] if self.p(.7) else self.ch(self.c.profs)
            else:
                kw['frq'] = self.ch(self.c.frqs)

    def copy(self):
        src = self.ch(self.x + self.wf + self.ext) if self.x + self.wf + self.ext else self.mk()
        x = self.name('x')
        self.add({'op': 'copy', 'x': x, 'of': src, 'how': self.ch(['deepcopy', 'pickle'])})
        for l in (self.x, self.wf, self.ext):
            if src in l:
                l.append(x)
        for t in (self.frq, self.cloudy, self.prof, self.ang):
            if src in t:
                t[x] = t[src]

    def twin(self):
        """Two calculations that differ in one thing, often by very little."""
        x = self.mk(absmdl='')
        o = dict(self.ops[-2 if self.cloudy[x] else -1])
        del o['op'], o['x']
        k = self.ch(['angle', 'angle', 'frq', 'prof', 'rt', 'sat', 'o3', 'cloudy', 'down'])
        if k == 'angle':
            a = self.ch([42.0, 30.0, 19.5, 60.0, 90.0, 10.0])
            o['rt'] = self.ops[-2 if self.cloudy[x] else -1]['rt'] = self.p(.75)
            self.ops[-2 if self.cloudy[x] else -1]['angles'] = [a]
            o['angles'] = [round(a + self.ch([-.001, -.02, -.04, -.3, -1.0]), 4)]
        elif k == 'frq':
            d = self.ch([.0004, .004, .01, .3])
            o['frq'] = [round(f + d, 4) for f in o['frq']]
        elif k == 'prof':
            o['prof'] = o['prof'] + [self.ch(VARIANTS)]
        elif k in ('rt', 'sat', 'cloudy', 'o3'):
            o[k] = not o[k]
            o.pop('down', None)
        else:
            o.update(down=not o.get('down'), cloudy=False, o3=False)
        self.exec(x)
        self.exec(self.mk(**o))
        if self.p(.4):
            self.exec(x)

    def tweak(self):
        if not self.d['full']:
            self.full()
        self.add({'op': 'tweak', 'd': self.ch(self.d['full'][-4:]), 'key': self.ch(WKEYS + OKEYS), 'i': self.r.randrange(40),
                  'f': self.ch([1.1, 0.9, 1.01, 1.5]), 'u': self.ch([0.01, 0.1, 0.5])})

    def covmat(self):
        self.add({'op': 'covmat'})

    def setp(self, d=None):
        if not self.d['full']:
            self.full()
        part = self.d['w'] + self.d['o']
        # sets of one gas can be perturbed, not calculated with
        self.sp = d or self.ch(part if self.p(.3) and part else self.d['full'])
        self.add({'op': 'setp', 'd': self.sp})

    def perturb(self):
        if self.sp is None:
            self.setp()
        d = self.name('d')
        keys = WKEYS[:14] * (self.sp not in self.d['o']) + OKEYS[:10] * (self.sp not in self.d['w'])
        what = self.r.sample(keys, self.r.randint(1, 2)) if self.p(.75) else []
        self.add({'op': 'perturb', 'd': d, 'what': sorted(set(what)), 'mode': self.ch(['max', 'min', 'non', 'max', 'non', 'ran'] if self.p(.4) else ['max', 'min']),
                  'i': self.r.randrange(15)})
        if self.p(.5):
            self.ops[-1]['raw'] = True
        if not what:
            # the names, the mode and the element are left to their defaults
            self.ops[-1]['dflt'] = self.r.randrange(4)
        if self.sp in self.d['full']:
            self.d['full'].append(d)
            self.dm[d] = self.dm.get(self.sp)
        return d

    def amu_exec(self):
        """An uncertainty computation the documented way."""
        if not self.d['full']:
            self.full()
        d = self.ch(self.d['full'])
        m = self.dm.get(d) or self.ch(self.c.amu)
        if self.x and self.p(0.5):
            x = self.ch(self.x[-4:])
            self.add({'op': 'amu', 'x': x, 'd': d})
        else:
            x = self.mk(amu=d, absmdl=m if self.p(.7) else '')
        if self.p(.5):
            self.sel_all(m)
        self.exec(x)

    # helpers
    def wf_mk(self):
        x = self.name('x')
        self.add({'op': 'wf_mk', 'x': x, 'prof': self.ch(self.c.profs), 'step': self.ch([4.0, 6.0, 3.0])})
        if self.p(.92):
            self.add({'op': 'wf_set', 'x': x, 'attr': 'frequencies', 'v': self.ch(self.c.frqs)})
        elif self.p(.5):
            self.add({'op': 'wf_get', 'x': x})
        self.wf.append(x)
        return x

    def wf_set(self):
        if not self.wf:
            self.wf_mk()
        x = self.ch(self.wf)
        a = self.ch(['frequencies', 'satellite', 'emissivity', 'model', 'angle', 'bandpass', 'legend_labels', 'model'])
        v = {'frequencies': lambda: self.ch(self.c.frqs) if self.p(.93) else 'x', 'satellite': lambda: self.p(.5) if self.p(.93) else self.ch([1, None]),
             'emissivity': lambda: self.ch(self.c.emis), 'angle': lambda: self.ch([90.0, 45.0, 30.0]),
             'model': lambda: self.ch(self.c.both + ['R24', 'R99', 'R22SD']),
             'bandpass': lambda: self.ch([None, [1], [1, 1], [2, 1]]),
             'legend_labels': lambda: self.ch([None, ['a', 'b', 'c']])}[a]()
        self.add({'op': 'wf_set', 'x': x, 'attr': a, 'v': v})

    def wf_gen(self):
        if not self.wf:
            self.wf_mk()
        self.add({'op': 'wf_gen', 'x': self.ch(self.wf)})

    def wf_plot(self):
        if not self.wf:
            self.wf_mk()
        o = {'op': 'wf_plot', 'x': self.ch(self.wf), 'title': self.ch(['', 't']), 'legend': self.p(.7),
             'normalized': self.p(.3)}
        if self.p(.2):
            o['ylim'] = self.ch([1, 2])
        if self.p(.2):
            o['xlim'] = [0, self.ch([.5, 2])]
        if self.p(.25):
            o['grouped'] = self.ch([[1, 1], [2], [1, 2], [1]])
        self.add(o)
        if self.p(.5):
            self.add({'op': 'wf_get', 'x': o['x']})

    def ext_op(self):
        if not self.ext or self.p(.15):
            x = self.name('x')
            self.add({'op': 'ext_mk', 'x': x})
            self.ext.append(x)
        x = self.ch(self.ext)
        k = self.r.randrange(10)
        if k == 0:
            self.add({'op': 'ext_height', 'x': x, 'v': self.ch([[0., 5., 10., 30., 60., 90.], [1., 2., 55., 70.]]) if self.p(.85) else None})
        elif k == 1:
            self.add({'op': 'ext_get', 'x': x})
        elif k < 5:
            self.add({'op': 'ext_call', 'x': x, 'fn': 'profile_extrapolation', 'lat': self.ch([0., 30., -33., 50., 70., -60., 30.2, 50.04, 44.9, 45.2]),
                      'month': self.ch([1, 2, 4, 7, 8, 12]), 'prof': self.ch(self.c.profs)})
        elif k < 8:
            self.add({'op': 'ext_call', 'x': x, 'fn': self.ch(['temperature', 'pressure', 'water_vapour_density']),
                      'lat': self.ch([0., 10., 30., -33., 50., 70., 30.3, 21.9, 22.1]), 'season': self.ch(['summer', 'winter']) if self.p(.95) else 'spring',
                      'h': self.ch([[0., 5., 14., 40.], [1., 12., 20., 60., 85.], [0., 5., 14.02, 40.]])})
        else:
            fn, args = self.ch([('standard_temperature', [288.15]), ('standard_temperature', [250.0]),
                                ('standard_pressure', [288.15, 1013.25]), ('standard_pressure', [300.0, 990.0]),
                                ('standard_water_vapour_density', [2.0, 7.5]), ('standard_water_vapour_density', [6.0, 3.0]),
                                ('standard_water_vapour_pressure', [2.0, 7.5]), ('standard_water_vapour_pressure', [])])
            self.add({'op': 'ext_call', 'x': x, 'fn': fn, 'args': args, 'h': self.ch([[0., 5., 14., 40.], [0., 11.5, 26., 85.]])})
        o = self.ops[-1]
        if 'h' in o and self.p(.35):
            o['h'] = self.r.sample(o['h'], len(o['h'])) + self.ch([[], [], [o['h'][0]]])

    def clim(self):
        fn, a = self.ch([('gl_atm', self.r.randrange(6)), ('gl_atm_minor', self.r.randint(8, 28)),
                         ('gl_atm_trace', self.ch([29, 30, 31, 40, 43])), ('atm_profiles', None),
                         ('gl_atm', self.r.randrange(6)), ('gl_atm_minor', [8, 9, 12]), ('gl_atm_trace', [29, 31])])
        self.add({'op': 'clim', 'fn': fn, 'arg': a})

    def direct(self):
        """The radiative transfer functions called directly, with their default settings."""
        self.add({'op': 'util', 'fn': 'planck', 'prof': self.ch(self.c.profs), 'args': self.ch([[22.2], [22.2], [54.0, True], [31.4, None, .7]])})

    def util(self):
        k = self.r.randrange(13)
        P = self.ch(self.c.profs)
        if k == 12:
            return self.direct()
        if k == 0 and self.p(.3):
            self.add({'op': 'util', 'fn': 'gas_mass', 'args': [self.r.randrange(40)]})
        elif k == 0:
            self.add({'op': 'util', 'fn': 'get_frequencies', 'args': [self.ch(INSTR) if self.p(.95) else 'none']})
        elif k == 1:
            self.add({'op': 'util', 'fn': 'get_frequencies_sat', 'args': [self.ch(SATS)]})
        elif k == 2:
            self.add({'op': 'util', 'fn': 'constants', 'args': [self.ch(['light', 'R', 'Rwatvap', 'avogadro', 'nope'])] if self.p(.8) else []})
        elif k == 3:
            fn, args = self.ch([('ppmv2gkg', [1]), ('ppmv2gkg', [self.r.randrange(30)]), ('ray_tracing', [42.0]), ('ray_tracing', [90.0]), ('ray_tracing', [41.97]),
                                ('exponential_integration', []), ('cloud_integrated_density', []),
                                ('planck', [54.0, True, 0.8]), ('planck', [22.2, False, 1.0]), ('planck', [22.2]),
                                ('cloud_radiating_temperature', [22.0]),
                                ('uncertainty_propagation', [self.ch(['aA+bB', 'aA-bB', 'A^a', 'aA', '?']), 2.0, 3.0]), ('uncertainty_propagation', [self.ch(['A/B', 'A*B']), 1.0, 1.0, self.ch([0.0, .3])])])
            self.add({'op': 'util', 'fn': fn, 'prof': P, 'args': args})
        elif k == 4:
            fn, args = self.ch([('mr2rh', [263.0]), ('satmix', [263.0]), ('satvap', [263.0]), ('dewpoint2rh', [True, 'x']),
                                ('vapor', [True]), ('dewpoint2rh', [False, 'x'])])
            self.add({'op': 'util', 'fn': fn, 'prof': P, 'args': args})
        else:
            self.add({'op': 'util', 'fn': self.ch(PLAINUTIL), 'prof': P})

    def conversions(self, n):
        """Some conversions, each twice with arrays of one kind."""
        s = self.ch(SHAPES + [None])
        P = self.ch(self.c.profs)
        todo = self.r.sample(PLAINUTIL, n)
        for f in todo + self.r.sample(todo, n):
            self.add({'op': 'util', 'fn': f, 'prof': P if self.p(.5) else self.ch(self.c.profs), 'shape': s})

    def models(self):
        self.add({'op': 'models'})

    def ll(self):
        c = self.ch('HO3')
        self.add({'op': 'set_ll', 'cls': c})
        self.add({'op': 'll', 'cls': c})

    def scribble(self):
        self.add({'op': 'scribble', 'k': self.r.randrange(14)})

    # ---- faults ------------------------------------------------------------------
    def fault(self, o):
        """A fault suited to operation o, or None."""
        k = o['op']
        reads = {'exec': 'h2o o2', 'set_ll': 'ls', 'models': 'ls', 'params': 'ls', 'wf_gen': 'ls'}
        kinds = []
        if k in ('exec', 'set_ll', 'models', 'params', 'wf_gen', 'covmat'):
            kinds += ['nc'] * 4 + ['nofile']
        if k == 'clim':
            kinds += ['loadtxt'] * 3
        if k == 'era_read':
            kinds += ['nc'] * 8
        if k == 'era_get':
            return None
        if k in ('select', 'select1', 'sat', 'emis', 'attr', 'wf_set', 'edit', 'merge', 'scribble', 'par', 'll', 'copy', 'env', 'touch', 'drop', 'retune', 'tweak'):
            return None
        kinds += ['ki'] * 4 + ['mem'] * 3
        t = self.ch(kinds)
        if t == 'nc':
            ev = self.ch(['open', 'open', 'read', 'read', 'close'])
            f = {'t': 'nc', 'event': ev, 'nth': self.ch([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12]),
                 'exc': self.ch(['EMFILE', 'EIO', 'ENOENT', 'EACCES', 'ESTALE', 'HDF', 'NOMEM'] if ev == 'open'
                                else ['HDFREAD', 'EIO', 'NOMEM', 'INT', 'HDFREAD'])}
            if self.p(.4):
                f['match'] = self.ch(['h2o_lineshape', 'o2_lineshape', 'o3_lineshape'])
                f['nth'] = self.ch([1, 1, 2, 3])
            return f
        if t == 'loadtxt':
            return {'t': 'loadtxt', 'nth': 1, 'exc': self.ch(['EIO', 'EMFILE', 'NOMEM', 'INT', 'ENOENT'])}
        if t == 'nofile':
            return {'t': 'nofile', 'spare': self.r.randrange(3)}
        return {'t': t, 'pick': self.r.randrange(1 << 30)}

    def place_faults(self, rate):
        for i, o in enumerate(self.ops):
            if self.p(rate):
                f = self.fault(o)
                if f:
                    self.faults[str(i)] = f


def weighted(g, table, n):
    total = sum(w for w, _ in table)
    for _ in range(n):
        u = g.r.random() * total
        for w, f in table:
            u -= w
            if u <= 0:
                f()
                break


# ------------------------------------------------------------------------ per property
def gen_c01(rng, cfg):
    g = Gen(rng, cfg)
    if g.p(.85):
        g.sel_all()
    if g.p(.5):
        g.ozone()
    weighted(g, [(6, g.exec), (3, g.mk), (4, g.sel_all), (3, lambda: g.sel_one(.12)), (3, g.setter), (4, g.absorb),
                 (1.2, g.wf_gen), (.8, g.wf_set), (1, g.ext_op), (1, g.clim), (1, g.util), (.7, g.models),
                 (.8, g.params), (.8, g.amu_exec), (.4, g.perturb), (.7, g.ll), (.3, g.wf_plot), (.5, g.touch), (.6, g.refill), (1.2, g.twin), (.2, g.covmat), (.3, g.copy), (.5, g.loop)], rng.randint(7, 19))
    g.exec()
    if g.p(.15):
        g.conversions(4)
    return {'ops': g.ops, 'checks': ['fresh']}


def gen_c02(rng, cfg):
    g = Gen(rng, cfg)
    g.sel_all()
    if g.p(.4):
        g.ozone()
    n = rng.randint(4, 10)
    web = g.p(.15)
    w = Web(g, rng) if web else None

    def online():
        if g.p(.5):
            o = g.add(w.op(.4, HARD))
            if g.p(.5):                     # asked for again
                g.add(dict(o, net=w.script(o['op'], 0, HARD)))
            return
        o = g.add(era_get(g, ['d0']))
        o.pop('res', None), o.pop('off', None)
        if g.p(.35):
            o['fault'] = {'k': g.ch(['raise', 'enospc', 'ki', 'mem', 'short', 'reject', 'nokey', 'commit']), 'at': round(rng.random(), 3),
                          'step': rng.randint(1, 12)}
            if g.p(.5):
                return
            o = g.add({k: v for k, v in dict(o, x=g.name('x')).items() if k != 'fault'})
        for _ in range(rng.randint(1, 3)):
            x = g.add({'op': 'era_read', 'x': o['x'], 'lonlat': o['lonlat'], '_fmt': o['fmt']})
            if g.p(.35):
                g.faults[str(len(g.ops) - 1)] = {'t': 'nc', 'event': g.ch(['open', 'read', 'read', 'close']), 'nth': rng.randint(1, 10),
                                                 'exc': g.ch(['EIO', 'NOMEM', 'EMFILE', 'INT'])}
            elif g.p(.4):
                x['_via'] = 'thread'
    for _ in range(n):
        if web and g.p(.4):
            online()
        weighted(g, [(6, g.exec), (2, g.mk), (2, g.sel_all), (2, lambda: g.sel_one(.05)), (1, g.setter), (3, g.absorb),
                     (1.5, g.wf_gen), (.5, g.wf_set), (1, g.ext_op), (1, g.clim), (.6, g.util), (.8, g.models),
                     (1, g.params), (1, g.amu_exec), (1, g.ll), (.4, g.covmat), (.2, g.touch), (.2, g.refill), (.3, g.twin), (.15, g.loop)], rng.randint(1, 2))
        if g.p(.35):                    # the user sets everything again after a failure
            for c in 'HONL':
                g.add({'op': 'select1', 'cls': c, 'm': g.ch(g.c.both)})
            if g.p(.6):
                for c in 'HO':
                    g.add({'op': 'set_ll', 'cls': c})
                    g.add({'op': 'll', 'cls': c})
            if g.p(.3):
                g.ozone()
    g.place_faults(0.4)
    for c in 'HONL':
        g.add({'op': 'select1', 'cls': c, 'm': g.ch(g.c.both)})
    g.exec()
    if g.p(.5):
        g.direct()
    for c in 'HO':
        g.add({'op': 'll', 'cls': c})
    # a lock kept by a failed call shows in another thread only
    if g.p(.5):
        for k, o in enumerate(g.ops):
            if str(k) not in g.faults and not o.get('fault') and g.p(.2):
                o['_via'] = 'thread'
    for k, o in enumerate(g.ops):
        if str(k) in g.faults:
            o.pop('_via', None)
    s = {'ops': g.ops, 'faults': g.faults, 'checks': ['fresh'], 'real_nc': g.p(.05)}
    if web:
        s.update(web=True, truth='web', checks=['fresh', 'exact', 'errors'], real_nc=False)
    return s


def gen_c03(rng, cfg, catalogue):
    g = Gen(rng, cfg)
    m = g.ch(cfg.both if g.p(.5) else cfg.amu)
    # some runs are about what one function keeps where all threads see it
    focus = g.ch(sorted({x[0] for x in catalogue['shared']})) if catalogue['shared'] and g.p(.3) else ''
    sets = 'uncertainty' in focus or focus.endswith('2_absorption') or focus.endswith('2o_absorption')
    if sets and ('uncertainty' in focus or g.p(.7)):
        m = g.ch(sorted(AMU))
    g.sel_all(m)
    o3 = g.p(.3)
    if o3:
        g.ozone()
    shared = [g.mk(absmdl='') for _ in range(rng.randint(0, 2))]
    full = []
    if m in AMU and (g.p(.65) or sets):
        full.append(g.full(m))
        full.append(g.edit(full[0]))
        full.append(g.edit(full[0]))
        if g.p(.6) or 'uncertainty' in focus:
            g.setp(full[0])
        g.sel_all(m)
        if o3:
            g.ozone()
    # half of the runs concentrate on a few kinds of calls, so that equal calls meet
    swarm = set(g.r.sample(range(12), g.ch([1, 2, 3]))) | ({8} if g.sp else set()) | ({0} if g.p(.6) else set()) if g.p(.6) else None
    if focus and g.p(.8):
        swarm = {8} if 'uncertainty' in focus else {3, 2} if 'models' in focus else {4, 5} if 'clim' in focus or 'weight' in focus else {0, 1, 2, 10}
    often = g.ch([.4, .9])
    if g.p(.7):
        for c in 'HO':
            g.add({'op': 'set_ll', 'cls': c})
    setup = g.ops
    clients = []
    nc = rng.choice([2, 2, 2, 3, 3, 4])
    for k in range(nc):
        h = Gen(rng, cfg)
        h.prefix = 'c%d_' % k
        h.d['full'] = list(full)
        h.dm = {d: m for d in full}
        h.sp = g.sp
        mine = shared[k:k + 1]           # an instance belongs to one client
        h.x = list(mine)
        for x in mine:
            h.frq[x], h.cloudy[x], h.prof[x] = g.frq[x], g.cloudy[x], g.prof[x]
            if x in g.ang:
                h.ang[x] = g.ang[x]

        def mk():
            kw = {'absmdl': m if h.p(.4) else '', 'prof': h.ch(cfg.profs[:2]), 'frq': h.ch(cfg.frqs[:3])}
            if not o3:
                kw['o3'] = False
            if full and h.p(often):
                kw['amu'] = h.ch(full)
            h.mk(**kw)

        def ex():
            if not h.x or h.p(.4):
                mk()
            h.add({'op': 'exec', 'x': h.ch(h.x), 'bt': h.p(.5)})

        def ab():
            h.add({'op': 'absorb', 'kind': h.ch(['h2o', 'o2', 'n2', 'liq', 'clear', 'cloudy']), 'prof': h.ch(cfg.profs[:2]),
                   'lev': h.r.randrange(6), 'f': h.ch(FREQS), **({'amu': h.ch(full)} if full and h.p(.4) else {})})

        def setll():
            c = h.ch('HO' + ('3' if o3 else ''))
            h.add({'op': 'set_ll', 'cls': c})
            if h.p(.5):
                h.add({'op': 'll', 'cls': c})

        def par():
            if m in AMU:
                h.params(h.ch('wo'), m)

        def pert():
            if g.sp:
                h.perturb()
        acts = [(4, ex), (2, ab), (1.2, setll), (1, h.models), (.5, h.ext_op), (.5, h.clim), (.5, h.util),
                (.6, par), (.6, pert), (.6, lambda: h.setter() if h.x else mk()), (.25, h.covmat), (.4, h.loop)]
        if swarm:
            acts = [(1, f) for k, (_, f) in enumerate(acts) if k in swarm]
        weighted(h, acts, rng.randint(3, 8) if focus and len(acts) < 3 else rng.randint(1, 4))
        for o in h.ops:
            if o.get('o3') and not o3:
                o['o3'] = False
        clients.append(h.ops)
    kind = rng.random()
    seed = rng.randrange(1 << 40)
    groups = {}
    for x in catalogue['shared']:
        groups.setdefault(x[0], []).append(tuple(x))
    if groups and (rng.random() < .5 if focus else kind < .35):
        sched = {'kind': 'park', 'seed': seed, 'groups': [groups[focus]] if focus else [groups[x] for x in sorted(groups)],
                 'p': rng.choice([1, .5, .2])}
    elif focus:
        sched = {'kind': 'hot', 'seed': seed, 'sites': [tuple(x) for x in catalogue['shared'] if x[0] == focus],
                 'p': rng.choice([.7, .5, .3, .1]), 'base': rng.choice([0, 0, .0005, .005])}
    elif kind < .48:
        sched = {'kind': 'rand', 'seed': seed, 'p': rng.choice([.3, .05, .01, .003, .001])}
    elif kind < .85:
        hot = catalogue['rare']
        if catalogue['shared'] and rng.random() < .65:
            hot = catalogue['shared']
        nf = rng.choice([1, 2, 3, 6, 12])
        a = rng.randrange(len(hot))
        # neighbouring sites: cooperating accesses are usually close together
        sites = [hot[(a + rng.randrange(8)) % len(hot)] for _ in range(nf // 2 + 1)] + \
                [hot[rng.randrange(len(hot))] for _ in range(nf // 2)]
        p = rng.choice([1.0, .5, .25])
        if hot is catalogue['shared'] and rng.random() < .6:
            sites, p = hot, rng.choice([.5, .2, .05])
        sched = {'kind': 'hot', 'seed': seed, 'sites': sorted(set(map(tuple, sites))), 'p': p,
                 'base': rng.choice([0, 0, .0005, .005])}
    else:
        sched = {'kind': 'pct', 'seed': seed, 'd': rng.randint(1, 5), 'n_est': catalogue['events'] * nc}
    tail = []
    if g.p(.5):
        g2 = Gen(rng, cfg)
        g2.prefix = 't'
        g2.sel_all()
        g2.mk(absmdl='', o3=False)
        g2.exec()
        tail = g2.ops
    return {'ops': setup + [{'op': 'par', 'clients': clients, 'sched': sched}] + tail, 'checks': ['fresh', 'threads']}


def gen_c04(rng, cfg):
    g = Gen(rng, cfg)
    g.sel_all()
    if g.p(.5):
        g.ozone()
    weighted(g, [(4, g.exec), (3, g.mk), (1.5, g.sel_all), (2, g.setter), (2, lambda: g.absorb(.5)), (.6, g.pair), (1, g.wf_gen), (1, g.wf_mk),
                 (1, g.wf_plot), (1.5, g.wf_set), (2, g.ext_op), (1, g.clim), (5, g.util), (1.2, g.amu_exec), (.6, g.perturb),
                 (.5, g.setp)], rng.randint(10, 26))
    if g.p(.5):
        g.place_faults(.25)
    web = g.p(.25)
    if web:
        w = Web(g, rng, True)
        for _ in range(rng.randint(2, 6)):
            g.add(w.op(.15, HARD))
    ro = g.p(.4)
    if g.p(.4):                        # one kind of array through many conversions
        s = g.ch(SHAPES)
        for fn in rng.sample(PLAINUTIL, 16):
            g.add({'op': 'util', 'fn': fn, 'prof': g.ch(cfg.profs), 'shape': s})
    return {'ops': g.ops, 'faults': g.faults, 'checks': ['inputs'], 'ro': ro, 'web': web}


def gen_c05(rng, cfg):
    g = Gen(rng, cfg)

    def one():
        c, m = g.sel_one(.15)
        if c in 'HO3':
            g.add({'op': 'set_ll', 'cls': c})
            if g.p(.8):
                g.add({'op': 'll', 'cls': c})

    def ab():
        k = g.ch(['h2o', 'o2', 'o3', 'n2', 'liq'])
        g.add({'op': 'absorb', 'kind': k, 'prof': g.ch(cfg.profs), 'lev': g.r.randrange(6), 'f': g.ch(FREQS)})

    def wide():
        c = g.ch('HO')
        g.add({'op': 'select1', 'cls': c, 'm': g.ch(H2O if c == 'H' else O2)})
        g.add({'op': 'set_ll', 'cls': c})
        g.add({'op': 'll', 'cls': c})
    weighted(g, [(6, one), (4, wide), (3, ab), (1.5, g.exec), (1, g.sel_all), (1, lambda: g.params(m=g.ch(AMU) if g.p(.8) else None)), (1, g.models),
                 (.6, g.mk), (.4, g.wf_gen)], rng.randint(8, 24))
    if g.p(.5):
        g.place_faults(.2)
        for c in 'HO3':
            g.add({'op': 'select1', 'cls': c, 'm': g.ch({'H': H2O, 'O': O2, '3': O3}[c])})
            g.add({'op': 'set_ll', 'cls': c})
            g.add({'op': 'll', 'cls': c})
    return {'ops': g.ops, 'faults': g.faults, 'checks': ['fresh', 'truth'], 'truth': 'lists', 'real_nc': g.p(.1),
            'observe': ['ll', 'set_ll', 'absorb', 'models', 'exec']}


def gen_c06(rng, cfg):
    g = Gen(rng, cfg)
    g.sel_all()
    if g.p(.4):
        g.ozone()
    for _ in range(rng.randint(1, 2)):
        g.mk()
    if g.p(.3):
        g.full()
    weighted(g, [(5, g.exec), (3, g.again), (1, g.pair), (3, g.setter), (2, g.sel_all), (.6, g.mk), (.5, lambda: g.sel_one(.1)),
                 (.4, g.clim), (.4, g.ext_op), (.3, g.wf_gen), (.5, g.amu_exec), (.3, g.models), (.5, g.util),
                 (.4, g.params), (.6, g.touch), (.3, g.refill), (.5, g.twin), (.6, lambda: g.mk()), (.6, g.copy), (.5, g.loop)], rng.randint(8, 20))
    g.exec()
    if g.p(.25):
        g.place_faults(.15)
    if g.p(.3):
        g.conversions(12)
    return {'ops': g.ops, 'faults': g.faults, 'checks': ['fresh', 'results'], 'observe': ['exec']}


def gen_c07(rng, cfg):
    g = Gen(rng, cfg)
    g.full()
    weighted(g, [(2, g.full), (3, g.edit), (1.5, g.setp), (3, g.perturb), (4, g.amu_exec), (2, g.exec),
                 (2, lambda: g.absorb(.5)), (1.5, g.params), (1, g.ll), (1.5, lambda: g.sel_all(g.ch(cfg.amu))),
                 (.5, g.mk), (1.3, g.tweak)], rng.randint(8, 18))
    # unperturbed work after all that
    m = g.ch(cfg.amu)
    g.sel_all(m)
    g.exec(g.mk(absmdl='', amu=None))
    g.params('w', m)
    g.params('o', m)
    if g.p(.3):
        g.place_faults(.12)
    return {'ops': g.ops, 'faults': g.faults, 'checks': ['fresh', 'inputs'], 'inputs': 'dict '}


def gen_c12(rng, cfg):
    g = Gen(rng, cfg)
    g.sel_all()
    weighted(g, [(4, g.wf_gen), (3, g.wf_set), (1, g.wf_mk), (3, g.wf_plot), (7, g.ext_op), (2, g.clim), (2, g.exec),
                 (1, g.sel_all), (1, lambda: g.sel_one(.1)), (.7, g.ll), (.8, g.touch)], rng.randint(8, 20))
    if g.p(.4):
        for i, o in enumerate(g.ops):
            if o['op'] in ('wf_gen', 'clim') and g.p(.5):
                f = g.fault(o)
                if f:
                    g.faults[str(i)] = f
    g.exec()
    if g.p(.3):
        g.direct()
    for c in 'HO':
        g.add({'op': 'll', 'cls': c})
    return {'ops': g.ops, 'faults': g.faults, 'checks': ['fresh']}


def gen_c13(rng, cfg):
    g = Gen(rng, cfg)
    g.sel_all()
    weighted(g, [(3, g.exec), (3, lambda: g.sel_one(.2)), (4, g.ll), (3, g.models), (2, g.params), (1, g.wf_gen),
                 (2, g.clim), (1, g.sel_all), (1, g.absorb), (.7, g.covmat)], rng.randint(6, 16))
    web = g.p(.35)
    if web:
        w = Web(g, rng)
        for _ in range(rng.randint(1, 4)):
            g.add(w.op(.6, HARD + STALL, .15))
        o = g.add(era_get(g, ['d0']))
        for _ in range(rng.randint(0, 2)):
            g.add({'op': 'era_read', 'x': o['x'], 'lonlat': o['lonlat']})
    g.place_faults(.5)
    return {'ops': g.ops, 'faults': g.faults, 'checks': ['fds'], 'real_nc': g.p(.35), 'web': web}


def gen_c14(rng, cfg):
    g = Gen(rng, cfg)
    g.sel_all()
    if g.p(.4):
        g.ozone()

    def res():
        weighted(g, [(4, g.exec), (2, g.absorb), (1, g.wf_gen), (2, g.ext_op), (2, g.clim), (3, g.util), (1.5, g.models),
                     (2, g.params), (1, g.perturb)], 1)

    def scr():
        res()
        o = g.ops[-1]
        if g.p(.7):
            g.add({'op': 'scribble', 'k': -1})
            if g.p(.4) and o['op'] in ('clim', 'util', 'ext_call', 'absorb', 'models', 'exec', 'params', 'wf_gen'):
                g.add(dict(o))
        else:
            g.scribble()
    def web():
        o = g.add(era_get(g, ['d0'])) if g.p(.2) else g.add(g.ch(got)) if got and g.p(.4) else g.add(w.op(0, HARD))
        if o['op'] == 'era_get':
            o.pop('res', None), o.pop('off', None)
            o = g.add({'op': 'era_read', 'x': o['x'], 'lonlat': o['lonlat'], '_fmt': o['fmt']})
        got.append(dict(o))
        if g.p(.7):
            g.add({'op': 'scribble', 'k': -1})
    got, w = [], Web(g, rng)
    online = g.p(.25)
    weighted(g, [(5, scr), (3, res), (1, g.sel_all), (1, g.mk), (1, g.setter)] + ([(8, web)] if online else []), rng.randint(8, 18))
    g.exec()
    if g.p(.3):
        n = len(g.ops)
        g.conversions(6)
        more = g.ops[n:]
        del g.ops[n:]
        for o in more:
            g.ops.append(o)
            if g.p(.5):
                g.add({'op': 'scribble', 'k': -1})
    if online:
        return {'ops': g.ops, 'checks': ['fresh', 'scribble', 'exact'], 'truth': 'web', 'web': True}
    return {'ops': g.ops, 'checks': ['fresh', 'scribble']}


def gen_c15(rng, cfg):
    g = Gen(rng, cfg)
    g.sel_all()
    if g.p(.4):
        g.ozone()
    f = rng.sample(FREQS, rng.randint(2, 5))
    if g.p(.4):
        f.append(round(f[0] + g.ch([0, .0004, .004, .04]), 4))
    if g.p(.6):
        f.sort()
    a = [g.ch([90.0, 42.0, 30.0, 19.5, 60.0, 10.0]) for _ in range(rng.randint(1, 3))]
    if g.p(.4):
        a.append(round(a[0] - g.ch([0, .02, .3, 1.0]), 3))
    # one frequency of an own batch or of the pool's
    def mk():
        o = {'frq': g.ch([f, f[:3], f[::-1]]) if g.p(.7) else g.ch(cfg.frqs)}
        if g.p(.7):
            o['angles'] = g.ch([a, a[::-1]])
        if g.p(.15):
            o['o3'] = True
        x = g.mk(**o)
        if g.p(.3):
            g.add({'op': 'emis', 'x': x, 'v': [round(0.5 + 0.05 * ((i * 4 + len(x)) % 9), 3) for i in range(len(o['frq']))]})
        return x

    def ex():
        g.exec(mk() if g.p(.5) or not g.x else None)

    def ab():
        g.add({'op': 'absorb', 'kind': g.ch(['clear', 'clear', 'cloudy']), 'prof': g.ch(cfg.profs), 'lev': 0,
               'f': g.ch(FREQS + f), 'o3': g.p(.4)})

    def wf():
        x = g.wf_mk()
        g.add({'op': 'wf_set', 'x': x, 'attr': 'frequencies', 'v': g.ch([f[:2], f[:3], f[1:3]])})
        if g.p(.5):
            g.wf_set()
        g.add({'op': 'wf_gen', 'x': x})
    weighted(g, [(6, ex), (2, g.setter), (2, g.sel_all), (1, lambda: g.sel_one(0)), (1.5, ab), (.8, wf), (2.2, g.ext_op),
                 (2, g.util), (.8, g.amu_exec), (.3, g.touch)], rng.randint(5, 12))
    if g.p(.4):
        g.place_faults(.2)
    ex()
    return {'ops': g.ops, 'faults': g.faults, 'checks': ['split']}


ENVS = [('cwd', ['root', 'other']), ('tz', ['XYZ-14', 'ABC+11', 'IST-5:30']), ('locale', ['C', 'C.UTF-8']), ('umask', [0o77, 0]),
        ('environ', [{'HOME': '/nonexistent', 'PATH': ''}, {'LANG': 'tr_TR.UTF-8', 'COLUMNS': '20'}, {'USER': None, 'TMPDIR': '/nonexistent'}]),
        ('npprint', [{'precision': 2, 'suppress': True}, {'threshold': 3, 'edgeitems': 1}, {'legacy': '1.13'}]),
        ('pandas', [{'mode.copy_on_write': True}, {'mode.chained_assignment': 'raise'}, {'mode.chained_assignment': None},
                    {'display.precision': 2, 'display.max_rows': 3}, {'future.no_silent_downcasting': True}]),
        ('seed', [0, 7]), ('seterr', ['warn', 'ignore']), ('warnings', ['always', 'default', 'ignore']),
        ('rc', [{'font.size': 8, 'lines.linewidth': 3}, {'axes.grid': True}, {'font.size': 8.5, 'axes.unicode_minus': False}, {'interactive': True}]),
        ('decimal', [3, 28]), ('gc', [50, 0]), ('switch', [1e-6, .1]), ('stdout', ['none', 'ascii', 'quiet']),
        ('logging', [10, 40]), ('timeout', [30.0, None]), ('argv', [['x'], ['prog', '--help', '-v']]), ('path', ['/nonexistent']), ('signal', [1]),
        ('figure', [1, 3])]


def gen_c16(rng, cfg, i):
    g = Gen(rng, cfg)
    web = g.p(.5)
    w = Web(g, rng)

    def env():
        k, vs = g.ch(ENVS)
        g.add({'op': 'env', 'k': k, 'v': g.ch(vs)})

    def online():
        if g.p(.3):
            o = g.add(era_get(g, ['d0']))
            o.pop('res', None), o.pop('off', None)
            if g.p(.4):
                o['fault'] = {'k': g.ch(['raise', 'enospc', 'ki', 'mem', 'short', 'reject', 'nokey', 'commit']), 'at': round(rng.random(), 3),
                              'step': rng.randint(1, 12)}
                return
            for _ in range(rng.randint(1, 2)):
                g.add({'op': 'era_read', 'x': o['x'], 'lonlat': o['lonlat'], '_fmt': o['fmt']})
        else:
            g.add(w.op(.3, HARD))
    for _ in range(rng.randint(0, 3) if g.p(.85) else 10):
        env()
    g.sel_all()
    if g.p(.4):
        g.ozone()
    weighted(g, [(4, g.exec), (2, env), (1, g.mk), (1, g.sel_all), (.7, lambda: g.sel_one(.1)), (1, g.setter), (1.5, g.absorb),
                 (1.2, g.wf_gen), (1.6, g.wf_plot), (1.5, g.ext_op), (1, g.clim), (2, g.util), (1.2, g.models), (1, g.params),
                 (1, g.amu_exec), (.6, g.perturb), (.8, g.ll), (.3, g.covmat),
                 (.35, lambda: g.add({'op': 'import', 'order': rng.randrange(99)}))] + ([(6, online)] if web else []), rng.randint(6, 14))
    g.exec()
    if g.p(.35):
        for k, o in enumerate(g.ops):
            if o['op'] not in ('env', 'import', 'wy', 'igra', 'stations', 'era_get') and g.p(.25):
                f = g.fault(o)
                if f and f['t'] not in ('ki', 'mem'):
                    g.faults[str(k)] = f
    for k, o in enumerate(g.ops):
        if o['op'] not in ('env', 'import') and str(k) not in g.faults and g.p(.12):
            o['_via'] = g.ch(['thread', 'loop'])
    s = {'ops': g.ops, 'faults': g.faults, 'checks': ['globals', 'fresh', 'exact', 'errors'], 'web': web}
    if web:
        s['truth'] = 'web'
    n = g.r.randrange(4)
    if n < 2:
        s['interp'] = [{'hash': 1 + i % 8, 'tz': 'XYZ-14', 'locale': 'C', 'clock': 1655287200, 'opt': 2, 'cwd': '/'},
                       {'hash': 100 + i % 8, 'tz': 'ABC+11', 'locale': 'POSIX', 'clock': 1592218800, 'opt': 1, 'cwd': '/usr'}][n]
    return s


# ------------------------------------------------------------------------ web archives
from .net import SALT, WY_SITES, REGIONS, IGRA_SITES, igra_soundings  # noqa: E402

HARD = ['dns', 'refused', 'unreach', 'reset_send', 'drop_req', 'reset', 'eof', 'status', 'badstatus', 'badlen', 'badchunk',
        'empty', 'busy', 'gzcut', 'cut', 'tls', 'mitm', 'flip', 'reset', 'eof', 'status', 'eof', 'cut']
STALL = ['cstall', 'stall_req', 'stall', 'stall', 'stall']


class Web:
    def __init__(self, g, rng, rev=False):
        self.g, self.r, self.rev = g, rng, rev
        self.wy = [rng.choice(sorted(WY_SITES)) for _ in range(2)] + [rng.choice(['99999', 16245, self.long(rng, sorted(WY_SITES))])]
        self.wt = [[rng.choice([2019, 2022, 2019, 2022, 1999, 2000]), rng.choice([1, 6, 12, 10]), rng.randint(1, 28), rng.choice([0, 12, 12, 6, 18, 3, 21, 13, 1, 23, 5])] for _ in range(3)]
        self.ig = rng.sample(IGRA_SITES, 2) + [rng.choice(['XXM00000000', self.long(rng, IGRA_SITES)])]

    @staticmethod
    def long(rng, sites):
        """Nearly the identifier of a station."""
        s = rng.choice(sites)
        return s + rng.choice(['0', 'X']) if rng.random() < .5 else s[:-1]

    def transport(self):
        r = self.r
        it = {'style': r.choice(['len', 'len', 'chunked', 'close'])}
        if r.random() < .35:
            it['gzip'] = True
        if r.random() < .6:
            it['seg'] = r.randrange(1, 1 << 30)
            it['gaps'] = r.choice([0, 0, 1, 3])
        if r.random() < .2:
            it['delay'] = r.choice([.2, 3., 20.])
        if r.random() < .4:
            it['keep'] = True
            it['idle_close'] = r.random() < .5
        if it['style'] == 'chunked':
            it['cs'] = r.choice([1, 7, 100, 700, 5000])
        return it

    def fault(self, op, it, kinds):
        r = self.r
        while True:
            k = r.choice(kinds)
            f = {'k': k}
            if k in ('reset', 'eof', 'stall', 'cut', 'flip', 'gzcut'):
                f['at'] = round(r.choice([r.random(), r.random(), r.uniform(.8, 1), r.uniform(0, .1)]), 4)
            if k == 'status':
                f['code'] = r.choice([202, 204, 206, 400, 403, 404, 429, 500, 502, 503, 504])
                f['at'] = round(r.random(), 3)
                f['ctype'] = r.choice(['text/html', 'text/plain', 'application/json'])
                if f['code'] in (413, 429, 503):
                    f['after'] = r.choice([0, 1, 60, 3600, 86400])
            if k == 'flip':
                f['bit'] = r.randrange(8)
                if op != 'igra':
                    continue
            if k in ('tls', 'mitm') and op != 'igra':
                continue
            # a station list that is cut short without any sign of it cannot be recognised
            if op == 'stations' and (k in ('cut', 'empty', 'busy') or (k == 'eof' and it['style'] == 'close')):
                continue
            if k == 'gzcut' and op != 'igra':
                if not f['at']:
                    continue
            if k == 'badchunk':
                it['style'] = 'chunked'
            if k == 'badlen':
                it['style'] = 'len'
                f['extra'] = r.choice([1, 7, 1000])
            if k == 'eof' and it['style'] == 'chunked':
                f['at'] = min(f['at'], .97)
            it['fault'] = f
            return

    def script(self, op, p, kinds):
        r = self.r
        s = []
        for _ in range(r.choice([0, 0, 0, 0, 1, 2])):
            h = self.transport()
            h['redir'] = r.choice(['same', 'mirror'])
            s.append(h)
        it = self.transport()
        s.append(it)
        if r.random() < p:
            self.fault(op, s[r.randrange(len(s))], kinds)
        if s[-1].get('fault'):
            u = r.random()
            if u < .3:
                s.append(self.transport())
            elif u < .6:                    # the trouble lasts: every further attempt meets it
                s[-1]['again'] = True
        return s

    def op(self, p, kinds, opener=0):
        r = self.r
        u = r.random()
        if opener and r.random() < opener:
            o = {'op': 'urlopen', 'url': r.choice(['http://weather.uwyo.edu/upperair/%s.html' % r.choice(REGIONS + ['nowhere']),
                                                   'https://www.ncei.noaa.gov/data/integrated-global-radiosonde-archive/access/'
                                                   'data-por/%s-data.txt.zip' % r.choice(self.ig)])}
            if r.random() < .5:
                o['kw'] = r.choice([{'headers': {'Accept': '*/*'}}, {'allow_redirects': True}, {'params': {}}, {'timeout': 45}])
            o['net'] = self.script('igra' if 'ncei' in o['url'] else 'stations', p, kinds)
            return o
        if u < .45:
            o = {'op': 'wy', 't': r.choice(self.wt), 'site': r.choice(self.wy[:2] * 3 + self.wy)}
        elif u < .6:
            o = {'op': 'stations', 'region': r.choice(REGIONS + [None, 'nowhere'])}
        else:
            site = r.choice(self.ig[:2] * 4 + self.ig)
            d, b = r.random() < .3, r.random() < .3
            if d:
                b = False
            folder = 'derived-por/' if d else 'data-y2d/' if b else 'data-por/'
            ss = igra_soundings(site, folder)
            a = r.choice(ss)['d']
            t = [a[0], a[1], a[2], a[3] if a[3] < 24 else 0]
            v = r.random()
            if v < .4:
                a = r.choice(ss)['d']
                t2 = [a[0], a[1], a[2], 23] if r.random() < .6 else [a[0], a[1], a[2], a[3] if a[3] < 24 else 0]
                t = [min(t, t2), max(t, t2)]
                if self.rev and r.random() < .4:
                    t.reverse()
            elif v < .5:
                t = [t[0], t[1], t[2], 3]
            elif v < .57:
                t = [1999, 1, 1, 0]
            o = {'op': 'igra', 't': t, 'site': site}
            if d:
                o['derived'] = True
            if b:
                o['beg2021'] = True
        o['net'] = self.script(o['op'], p, kinds)
        return o


def gen_c08(rng, cfg):
    g = Gen(rng, cfg)
    w = Web(g, rng)
    for _ in range(rng.randint(3, 8)):
        g.add(w.op(.65, HARD))
    return {'ops': g.ops, 'checks': ['exact'], 'truth': 'web', 'web': True}


def elsewhere(g, p=.25):
    """Some calls come from another thread, one after the other."""
    if g.p(.4):
        for k, o in enumerate(g.ops):
            if str(k) not in g.faults and o['op'] in ('wy', 'igra', 'stations', 'urlopen', 'era_get', 'era_read') and not o.get('fault') and g.p(p):
                o['_via'] = g.ch(['thread', 'thread', 'loop'])


def gen_c09(rng, cfg):
    g = Gen(rng, cfg)
    w = Web(g, rng)
    par = g.p(.5)

    def one(p=.25):
        o = g.add(w.op(p, HARD))
        if g.p(.2):
            g.add({'op': 'scribble', 'k': -1})
        if g.p(.4 if any(x.get('fault') for x in o['net']) else .15):
            g.add(dict(o, net=w.script(o['op'], 0, HARD)))
    for _ in range(rng.randint(2, 7) if not par else rng.randint(0, 3)):
        one()
    if par:
        clients = []
        for _ in range(rng.randint(2, 4)):
            clients.append([w.op(.15, HARD) for _ in range(rng.randint(1, 3))])
        g.add({'op': 'par', 'clients': clients,
               'sched': {'kind': 'rand', 'seed': rng.randrange(1 << 40), 'p': rng.choice([1.0, .3, .1, .03])}})
        one(0)
    elif g.p(.3):
        g.place_faults(.2)
    elsewhere(g)
    return {'ops': g.ops, 'faults': g.faults, 'checks': ['exact', 'errors', 'results', 'inputs'], 'truth': 'web', 'web': True}


def gen_c10(rng, cfg):
    g = Gen(rng, cfg)
    w = Web(g, rng)
    for _ in range(rng.randint(2, 6)):
        g.add(w.op(.6, STALL * 3 + HARD, .15))
    g.add(w.op(0, STALL))
    elsewhere(g)
    return {'ops': g.ops, 'checks': ['bounded', 'exact'], 'truth': 'web', 'web': True}


PLACES = [[15.8158, 38.2663], [-3.7, 40.41], [100.25, -20.75], [0.0, 0.0], [-70.5, -33.4], [179.9, -16.55], [-0.13, 0.21]]


def era_get(g, dirs, collide=False):
    r = g.r
    o = {'op': 'era_get', 'x': g.name('x'), 'dir': r.choice(dirs), 't': [r.choice([2019, 2020]), r.choice([2, 11]), r.choice([3, 22]), r.choice([0, 12, 9, 23])],
         'lonlat': r.choice(PLACES), 'fmt': r.choice(['NETCDF4', 'NETCDF3_64BIT_OFFSET']), 'pieces': r.choice([1, 2, 5, 9])}
    if r.random() < .4:
        o['res'], o['off'] = r.choice([[.25, .4], [.5, .6], [1.0, 1.0], [.25, .3]])
    return o


def gen_c11(rng, cfg):
    g = Gen(rng, cfg)
    dirs = ['d%d' % i for i in range(rng.randint(1, 3))]
    have = {}
    reads = []
    place = {}

    def get(p=.55):
        o = era_get(g, dirs)
        k = (o['dir'], tuple(o['t']))
        # one place per directory and time, except now and then (see known-findings.json)
        if k in place and not g.p(.04):
            o['lonlat'], o['res'], o['off'] = place[k]
            if o['res'] is None:
                del o['res'], o['off']
        place[k] = (o['lonlat'], o.get('res'), o.get('off'))
        if g.p(p):
            k = g.ch(['crash', 'crash', 'raise', 'enospc', 'ki', 'mem', 'short', 'reject', 'nokey', 'commit'])
            o['fault'] = {'k': k, 'at': round(rng.random(), 3), 'step': rng.randint(1, 12)}
        g.add(o)
        have[o['x']] = o
        if g.p(.5):
            read(o)
        return o

    def near(o):
        """Another point of the area of a file, clearly closest to one of its grid points."""
        s, off = o.get('res', .25), o.get('off', .4)
        n = int(2 * off / s + 1e-6) + 1
        i, j = rng.randrange(n), rng.randrange(n)
        if g.p(.5):
            j = i
        return [round(o['lonlat'][0] - off + s * (i + rng.uniform(-.3, .3)), 4),
                round(o['lonlat'][1] + off - s * (j + rng.uniform(-.3, .3)), 4)]

    def read(o=None, p=.2):
        o = o or (have[g.ch(sorted(have))] if have else get())
        x = {'op': 'era_read', 'x': o['x'], 'lonlat': near(o) if g.p(.25) else o['lonlat'], '_fmt': o['fmt']}
        if g.p(p):
            x['fault'] = {'k': 'trunc', 'at': round(g.ch([rng.random(), rng.uniform(.9, 1)]), 4)}
        elif g.p(.15):
            g.faults[str(len(g.ops))] = {'t': 'nc', 'event': g.ch(['open', 'read', 'read', 'close']), 'nth': rng.randint(1, 10),
                                         'exc': g.ch(['EIO', 'NOMEM', 'EMFILE', 'INT'])}
        g.add(x)
        return x
    for _ in range(rng.randint(2, 7)):
        g.ch([get, get, read])()
    if g.p(.35):
        clients = []
        # clients ask for the place last asked for at each directory and time
        base = [o for _, o in sorted(have.items())
                if place[(o['dir'], tuple(o['t']))] == (o['lonlat'], o.get('res'), o.get('off'))]
        for c in range(rng.randint(2, 3)):
            h = []
            for j in range(rng.randint(1, 2)):
                if base and g.p(.5):
                    o = dict(g.ch(base))
                    o.pop('fault', None)
                    o['x'] = g.name('x')
                else:
                    o = era_get(g, dirs)
                    k = (o['dir'], tuple(o['t']))
                    if k in place:
                        o['lonlat'], o['res'], o['off'] = place[k]
                        if o['res'] is None:
                            del o['res'], o['off']
                    place[k] = (o['lonlat'], o.get('res'), o.get('off'))
                h.append(o)
                if g.p(.6):
                    h.append({'op': 'era_read', 'x': o['x'], 'lonlat': o['lonlat'], '_fmt': o['fmt']})
            clients.append(h)
        g.add({'op': 'par', 'clients': clients,
               'sched': {'kind': 'rand', 'seed': rng.randrange(1 << 40), 'p': rng.choice([1.0, .3, .1])}})
    read(get(0), 0)
    elsewhere(g)
    return {'ops': g.ops, 'faults': g.faults, 'checks': ['exact', 'durable', 'threads', 'inputs'], 'truth': 'web', 'web': True}


GEN = {'C08': gen_c08, 'C09': gen_c09, 'C10': gen_c10, 'C11': gen_c11, 'C01': gen_c01, 'C02': gen_c02, 'C04': gen_c04, 'C05': gen_c05, 'C06': gen_c06, 'C07': gen_c07,
       'C12': gen_c12, 'C13': gen_c13, 'C14': gen_c14, 'C15': gen_c15}


def make_spec(prop, seed, i, catalogue=None):
    # runs i, i+8, i+16... share a small pool of models, columns and frequencies: they are
    # executed by one worker, whose oracle answers are then reused
    cfg = Config(random.Random('%s/%s/cfg/%s/%s' % (seed, prop, i % 8, i // 320)))
    rng = random.Random('%s/%s/run/%s' % (seed, prop, i))
    SALT[0] = random.Random('%s/%s/salt/%s' % (seed, prop, i)).randrange(16)
    spec = gen_c03(rng, cfg, catalogue) if prop == 'C03' else gen_c16(rng, cfg, i) if prop == 'C16' else GEN[prop](rng, cfg)
    if any(o['op'] == 'scribble' for o in spec['ops']):
        for o in spec['ops']:
            o.pop('raw', None)
    if spec.get('web'):
        spec['salt'] = SALT[0]
    spec['prop'] = prop
    spec['run'] = i
    return spec
