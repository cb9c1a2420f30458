"""Reference model: what the library's answer to each operation of a history may depend on.

The model follows a history by the outcomes observed and, for every operation with an
answer, produces a self-contained program (selection of models, construction of the object
concerned, the operation) whose answer in a fresh process is the expected one.  What the
model does not know after an interrupted operation is '?' until it is set again."""
import json

CL = {'H': 'H2O', 'O': 'O2', 'N': 'N2', 'L': 'Liq', '3': 'O3'}
UNK = '?'
OBSERVE = {'exec', 'absorb', 'wf_gen', 'wf_plot', 'wf_get', 'ext_call', 'ext_get', 'clim', 'models',
           'util', 'perturb', 'params', 'll', 'set_ll', 'mk', 'covmat'}


class Model:
    def __init__(self):
        self.sel = {c: None for c in CL}     # selected model per class (None: never selected)
        self.ll = {c: None for c in ('H', 'O', '3')}   # model whose list is in force
        self.sp = None                       # parameter set in force (dict name)
        self.obj = {}                        # name -> list of operations building it, or UNK
        self.dic = {}                        # name -> list of operations building it
        self.era = {}                        # name -> what was asked for (see truth.py)
        self.attrs = {}                      # kind of retrieval -> metadata of its table
        self.now = {}                        # input array -> what the caller has put into it
        self.n = 0

    def eff(self, o):
        """The operation with the present content of the caller's arrays."""
        if not self.now:
            return o
        r = {}
        for k, v in o.items():
            if k == 'prof' or (isinstance(v, list) and not o.get('how') and (
                    k in ('frq', 'angles') or k == 'v' and (o.get('attr') == 'frequencies' or o.get('n') in ('frq', 'angles')))):
                r[k] = self.now.get(json.dumps([k == 'prof', v]), v)
        return dict(o, **r)

    def _spoil(self, hit):
        """Objects made from something the caller has changed since: it is not said whether
        they see the change."""
        for x, rec in self.obj.items():
            if rec != UNK and any(hit(o) for o in rec):
                self.obj[x] = UNK

    # ---------------------------------------------------------------- following
    def follow(self, o, out, fired):
        """Update the state with the outcome of `o`."""
        k = o['op']
        ok = out[0] == 'ok'
        if out[0] == 'skip':
            return
        self.n += 1
        if k == 'touch':
            old = self.eff({'prof': o['prof']})['prof']
            self._spoil(lambda r: r.get('prof') == old)
            self.now[json.dumps([True, o['prof']])] = old + [o['v']]
            return
        if k == 'retune':
            old = self.eff({'frq': o['old']})['frq']
            self._spoil(lambda r: old in (r.get('frq'), r.get('angles'), r.get('v')))
            self.now[json.dumps([False, o['old']])] = o['new']
            return
        o = dict(self.eff(o), _n=self.n)
        bad = fired and not ok
        if k == 'select':
            for c in 'HONL':
                self.sel[c] = o['m'] if ok else UNK
        elif k == 'select1':
            if o['cls'] in self.sel:
                self.sel[o['cls']] = o['m'] if ok else UNK
        elif k == 'set_ll':
            c = o['cls']
            if ok:
                self.ll[c] = self.sel[c]
            elif bad:
                self.ll[c] = UNK
        elif k in ('mk', 'wf_mk', 'ext_mk'):
            if ok:
                self.obj[o['x']] = [o]
                if o.get('absmdl'):
                    for c in 'HONL':
                        self.sel[c] = o['absmdl']
            elif o.get('absmdl'):
                for c in 'HONL':
                    self.sel[c] = UNK
        elif k in ('sat', 'emis', 'attr', 'amu', 'clouds', 'wf_set', 'ext_height'):
            if ok and self.obj.get(o['x'], UNK) != UNK:
                self.obj[o['x']] = self.obj[o['x']] + [o]
            elif bad:
                self.obj[o['x']] = UNK
        elif k == 'drop':
            self.obj.pop(o['x'], None)
        elif k == 'copy':
            r = self.obj.get(o['of'], UNK)
            if ok:
                self.obj[o['x']] = r if r == UNK else [dict(a, x=o['x']) for a in r]
        elif k == 'exec':
            if ok:
                self.ll['H'], self.ll['O'] = self.sel['H'], self.sel['O']
            else:
                self.ll['H'] = self.ll['O'] = UNK
        elif k == 'params':
            c = {'w': 'H', 'o': 'O', '3': '3'}[o['kind']]
            if ok:
                self.sel[c] = self.ll[c] = o['m']
                self.dic[o['d']] = [o]
            elif bad:
                self.sel[c] = self.ll[c] = UNK
            else:                            # selected, then rejected
                self.sel[c] = UNK
                self.ll[c] = UNK
        elif k == 'merge':
            if ok and all(s in self.dic for s in o['src']):
                self.dic[o['d']] = _join([self.dic[s] for s in o['src']]) + [o]
        elif k == 'edit':
            if ok and o['src'] in self.dic:
                self.dic[o['d']] = self.dic[o['src']] + [o]
        elif k == 'tweak':
            if ok and o['d'] in self.dic:
                self.dic[o['d']] = self.dic[o['d']] + [o]
            self._spoil(lambda r: o['d'] in (r.get('amu'), r.get('d')))
            if self.sp == o['d']:
                self.sp = UNK
        elif k == 'setp':
            self.sp = o['d'] if ok and o['d'] in self.dic else UNK
        elif k == 'perturb':
            if ok and self.sp not in (None, UNK):
                self.dic[o['d']] = _join([self.dic[self.sp]]) + [{'op': 'setp', 'd': self.sp, '_n': self.n}, o]
        elif k == 'wf_gen':
            # a fault that arrives while the selection is being put back may leave it open
            if bad and o.get('_async'):
                for c in 'HONL':
                    self.sel[c] = UNK
                self.ll['H'] = self.ll['O'] = UNK

    # ---------------------------------------------------------------- programs
    def program(self, o):
        """Operations to run in a fresh process; the last one's outcome is the expected
        outcome of `o` in the present state. None when it is not determined."""
        k = o['op']
        pre = []
        o = self.eff(o)
        if k not in OBSERVE:
            return None
        if k in ('exec', 'wf_gen', 'wf_plot', 'wf_get', 'ext_call', 'ext_get'):
            rec = self.obj.get(o['x'])
            if rec in (None, UNK):
                return None
            pre = self._recipe(rec)
            if pre is None:
                return None
        if k == 'exec':
            mk = rec[0]
            need = 'HONL' + ('3' if mk.get('o3') else '')
            if UNK in [self.sel[c] for c in need]:
                return None
            if mk.get('o3') and self.sel['3'] is not None and self.ll['3'] != self.sel['3']:
                return None
            s = self._sel(need, ll='3' if mk.get('o3') and self.sel['3'] is not None else '')
            return _canon(pre + s + [o])
        if k == 'absorb':
            kind = o['kind']
            need = {'h2o': 'H', 'o2': 'O', 'o3': '3', 'n2': 'N', 'liq': 'L', 'cloudy': 'L',
                    'clear': 'HON' + ('3' if o.get('o3') else '')}[kind]
            if UNK in [self.sel[c] for c in need]:
                return None
            lists = [c for c in need if c in self.ll]
            if any(self.ll[c] != self.sel[c] for c in lists):
                return None
            if o.get('amu'):
                if o['amu'] not in self.dic:
                    return None
                pre = self.dic[o['amu']]
            return _canon(pre + self._sel(need, ll=''.join(lists)) + [o])
        if k == 'perturb':
            if self.sp in (None, UNK):
                return None if self.sp == UNK else _canon([o])
            return _canon(self.dic[self.sp] + [{'op': 'setp', 'd': self.sp}, o])
        if k in ('params', 'clim', 'models', 'util', 'covmat'):
            return _canon([o])
        if k == 'll':
            c = o['cls']
            if self.ll[c] in (None, UNK) or self.ll[c] != self.sel[c]:
                return None
            return _canon(self._sel(c, ll=c) + [o])
        if k == 'set_ll':
            if self.sel[o['cls']] == UNK:
                return None
            return _canon(self._sel(o['cls']) + [o])
        if k == 'mk':
            r = self._recipe([o])
            return None if r is None else _canon(r)
        return _canon(pre + [o])

    def _recipe(self, rec):
        rec = settings(rec)
        pre = []
        for o in rec:
            d = o.get('amu') if o['op'] == 'mk' else o.get('d') if o['op'] == 'amu' else None
            if d:
                if d not in self.dic:
                    return None
                pre.append(self.dic[d])
        out = []
        for o in rec:
            if o['op'] == 'mk' and o.get('absmdl'):
                o = dict(o, absmdl='')
            out.append(o)
        return _join(pre) + out

    def _sel(self, need, ll=''):
        out = []
        for c in need:
            if self.sel[c] is not None:
                out.append({'op': 'select1', 'cls': c, 'm': self.sel[c]})
        for c in ll:
            if self.sel[c] is not None:
                out.append({'op': 'set_ll', 'cls': c})
        return out


def settings(rec):
    """What builds a new object with the settings that `rec` left: of every setting the last
    value, given to the constructor where it takes it."""
    mk, last = dict(rec[0]), {}
    cloudy = mk.get('cloudy')
    for o in rec[1:]:
        if o['op'] == 'clouds' and not cloudy:
            return rec                       # depends on when it was called
        if o['op'] == 'attr' and o['n'] == 'cloudy':
            cloudy = o['v']
        k = (o['op'], o.get('n'), o.get('attr'))
        last.pop(k, None)
        last[k] = o
    if mk['op'] == 'mk':
        for k, n in ((('sat', None, None), 'sat'), (('attr', 'ray_tracing', None), 'rt'), (('attr', 'cloudy', None), 'cloudy')):
            if k in last:
                mk[n] = last.pop(k)['v']
        for n in ('frq', 'angles'):
            if ('attr', n, None) in last:
                mk[n] = last.pop(('attr', n, None))['v']
                if n == 'frq':
                    mk.pop('how', None)
        if ('amu', None, None) in last:
            mk['amu'] = last.pop(('amu', None, None))['d']
        if not cloudy:
            last.pop(('clouds', None, None), None)
    return [mk] + list(last.values())


def _join(lists):
    out, seen = [], set()
    for l in lists:
        for o in l:
            key = json.dumps(o, sort_keys=True)
            if o['op'] == 'setp' or key not in seen:
                seen.add(key)
                out.append(o)
    out.sort(key=lambda o: o.get('_n', 0))
    return out


def _canon(ops):
    """Rename objects in order of appearance, so that equal programs look equal."""
    m = {}

    def nm(s):
        if s not in m:
            m[s] = '%s%d' % (s[0], len(m))
        return m[s]
    out = []
    for o in ops:
        o = {k: v for k, v in o.items() if not k.startswith('_') and k != 'tmp'}
        for k in ('x', 'd', 'src', 'amu'):
            if o.get(k):
                o[k] = [nm(s) for s in o[k]] if isinstance(o[k], list) else nm(o[k])
        out.append(o)
    return out
