"""Collects obligations, violations and undecided items of one property check."""
import json
import os
import time


class Report:
    def __init__(self, prop, tier, root):
        self.prop = prop
        self.tier = tier
        self.root = root
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.violations = []     # (key, text)
        self.undecided = []
        self.fns = set()
        self.calls = set()
        self.paths = 0
        self.entries = []
        self.samples = []
        self.rules = []
        self.notes = []
        self.heads = 0

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def bad(self, key, text):
        self.obligations += 1
        if key not in [k for k, _ in self.violations]:
            self.violations.append((key, text))

    def unsure(self, text):
        self.obligations += 1
        self.undecided.append(text)

    def used(self, prog, ev, label, npaths):
        for n in ev.seen_fns:
            self.fns.add(prog.insts[n]['path'])
        for c in ev.seen_calls:
            self.calls.add(c)
        self.paths += npaths
        self.heads += ev.nheads
        if label is not None:
            self.entries.append('%s: %d paths' % (label, npaths))

    def note(self, s):
        self.notes.append(s)

    def rule(self, s):
        if s not in self.rules:
            self.rules.append(s)

    def evidence(self, seed, extra=None):
        crate = sorted(f for f in self.fns if 'quadtree::' in f)
        d = {
            'property': self.prop,
            'tier': self.tier,
            'seed': seed,
            'level': 'proof',
            'wall_s': round(time.time() - self.t0, 3),
            'coverage': {
                'obligations': self.obligations,
                'discharged': self.discharged,
                'undecided': len(self.undecided),
                'violations': len(self.violations),
                'checker_cmd': 'python3 engine/check.py %s %s' % (self.prop, self.tier),
                'trusted_base': ['rustc MIR construction and monomorphisation', 'models of std containers, iterators and float '
                                'primitives in engine/models.py', 'real-number reading of float formulas where stated', 
                                'library leaves of the geo crate named in DESIGN.md'],
                'rules': self.rules,
                'entries': self.entries[:200],
                'functions_analysed': len(self.fns),
                'crate_functions': crate,
                'call_sites': len(self.calls),
                'paths': self.paths,
                'loop_states': self.heads,
                'samples': self.samples[:12],
                'undecided_items': self.undecided[:40],
                'notes': self.notes[:40],
            },
        }
        if extra:
            d['coverage'].update(extra)
        return d
