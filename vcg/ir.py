"""Load irdump JSON; small typed IR view."""
import json, re

class Func:
    __slots__ = ('name', 'dem', 'args', 'rt', 'blocks', 'loops', 'loop_of_header', 'phis', 'short', 'linked')
    def __init__(self, d):
        self.name = d['n']; self.dem = d['dem']; self.args = d['args']; self.rt = d['rt']
        self.blocks = d.get('blocks'); self.linked = False
        self.loops = d.get('loops', [])
        self.loop_of_header = {l['h']: (set(l['b']), l) for l in self.loops}

class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.triple = d['triple']
        self.funcs = {f['n']: Func(f) for f in d['functions']}
        self.globals = {g['n']: g for g in d['globals']}
        self.types = {t['n']: t for t in d.get('types', [])}
        self.nfields = {}
    def find(self, rx):
        r = re.compile(rx)
        return [f for f in self.funcs.values() if r.search(f.dem)]
    def find1(self, rx, defined=True):
        l = [f for f in self.find(rx) if (f.blocks is not None or not defined)]
        if len(l) != 1:
            raise KeyError('%d matches for %s: %s' % (len(l), rx, [f.dem for f in l][:5]))
        return l[0]

def tsize(t):
    k = t[0]
    if k == 'i': return (t[1] + 7) // 8
    if k == 'p': return 8
    if k == 'f': return {32: 4, 64: 8, 80: 16}[t[1]]
    if k == 'v': return t[1] * tsize(t[2])
    if k == 'a': return t[4]
    if k == 's': return t[3]
    return 0
