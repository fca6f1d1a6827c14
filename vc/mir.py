"""Loading of the MIR dump: types, constants, bodies."""
import json, struct
from .terms import *

class Unsupported(Exception):
    pass

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types = {int(k): v for k, v in d['types'].items()}
        self.allocs = {int(k): v for k, v in d['allocs'].items()}
        self.bodies = d['bodies']
        self.byname = {}
        for r in d['roots']:
            self.byname[r['name']] = r['key']
        self.roots = {r['name']: r for r in d['roots']}
        self.statics = {s['name']: s for s in d['statics']}
        self._scc = {}

    def ty(self, i): return self.types[i]
    def tyname(self, i):
        t = self.types[i]
        return t.get('name') or t['k']

    # ---- constants -> values (deferred import of value classes)
    def static_float(self, name):
        s = self.statics[name]
        return struct.unpack('<d', bytes(s['init']['bytes']))[0]

def int_of(bs, signed=False):
    return int.from_bytes(bytes(0 if b is None else b for b in bs), 'little', signed=signed)
