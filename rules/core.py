"""Reporting: obligations, violations, known findings, evidence."""
import json, os, sys, time, traceback
from facts import VERIF

KNOWN = os.path.join(VERIF, 'known-findings.json')


class Report:
    def __init__(self, prop, level, tier='quick'):
        self.prop = prop
        self.level = level
        self.tier = tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.obls = 0            # obligations generated
        self.ok = 0              # obligations discharged
        self.samples = []
        self.viol = {}           # key -> (message, where)
        self.counts = {}
        self.assumptions = []
        self.rules = []
        self.funcs = set()

    def rule(self, text):
        self.rules.append(text)

    def count(self, name, n=1):
        if os.environ.get('VDEBUG') and name in ('undecided', 'gave_up'):
            f = sys._getframe(1)
            if f.f_code.co_name in ('<lambda>', 'und'):
                f = f.f_back
            fn = f.f_locals.get('fn')
            print('  [%s] %s:%d %s %s' % (name, f.f_code.co_name, f.f_lineno, fn.label() if fn is not None else '', f.f_locals.get('what', '')))
        self.counts[name] = self.counts.get(name, 0) + n

    def analysed(self, fn):
        self.funcs.add(fn.label() if hasattr(fn, 'label') else str(fn))

    def require(self, key, ok, msg='', at='', sample=None):
        """One obligation; on failure a violation identified by `key` (no line numbers in it)."""
        self.obls += 1
        if ok:
            self.ok += 1
            if sample or (len(self.samples) < 40 and msg is not None):
                if len(self.samples) < 60:
                    self.samples.append(sample or key)
        else:
            self.violation(key, msg, at)
        return ok

    def violation(self, key, msg, at=''):
        if key not in self.viol:
            self.viol[key] = (msg, at)

    def group(self, f, *args):
        """Runs one group of rules. A fault of the analyser itself decides nothing: it is counted and shown, never an alarm."""
        try:
            return f(*args)
        except Exception as e:
            if os.environ.get('VDEBUG'):
                traceback.print_exc()
            print('  undecided: the analyser failed in %s (%s: %s)' % (getattr(f, '__name__', f), type(e).__name__, str(e)[:200]))
            self.counts['analyser_faults'] = self.counts.get('analyser_faults', 0) + 1

    def floor(self, name, minimum):
        """Fail closed: the number of instances counted by hand on the confirmed tree."""
        n = self.counts.get(name, 0)
        self.require('floor:' + name, n >= minimum,
                     'only %d instances of %s were found, at least %d are required: the rule has lost its anchors' % (n, name, minimum))

    def finish(self):
        known = {}
        if os.path.exists(KNOWN):
            for e in json.load(open(KNOWN))['findings']:
                if e['property'] == self.prop:
                    known[e['key']] = e
        new, old = {}, {}
        for k, v in self.viol.items():
            (old if k in known else new)[k] = v
        ev = os.environ.get('TOPPO_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        replay = os.path.join(ev, self.prop + '.replay.txt')
        cov = {
            'obligations': self.obls,
            'discharged': self.ok,
            'functions_analysed': len(self.funcs),
            'instances': self.counts,
            'rules': self.rules,
            'samples': self.samples[:40],
            'functions': sorted(self.funcs)[:400],
            'checker_cmd': './check.sh ' + self.prop,
            'trusted_base': ['rustc front end and MIR construction (nightly)', '/verif/driver/main.rs', '/verif/rules/*.py and the library contracts they state'],
            'explanation': 'Static analysis of the type-checked MIR of all library crates of /repo\'s current tree; an obligation is one rule instance (function, call site, store or path).',
        }
        if old:
            cov['known_findings'] = sorted(old)
        json.dump({
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'coverage': cov, 'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2), 'violations': len(new),
        }, open(os.path.join(ev, self.prop + '.json'), 'w'), indent=1)
        for k in sorted(old):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, k, known[k].get('what', old[k][0])))
        if new:
            with open(replay, 'w') as f:
                for k, (m, at) in sorted(new.items()):
                    f.write('%s\n  at %s\n  %s\n' % (k, at or '-', m))
            for k, (m, at) in sorted(new.items())[:20]:
                print('  %s [%s]: %s' % (k, at or '-', m))
            print('VIOLATION property=%s replay=%s' % (self.prop, replay))
            return 1
        if os.path.exists(replay):
            os.remove(replay)
        print('%s: held; %d/%d obligations, %d functions, %d undecided' % (self.prop, self.ok, self.obls, len(self.funcs), sum(self.counts.get(k, 0) for k in ('undecided', 'gave_up', 'analyser_faults'))))
        return 0
