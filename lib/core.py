# -*- coding: utf-8 -*-
"""Violation type, per-run statistics and generator helpers shared by the checks."""
import hashlib
import json


class Violation(Exception):
    """the code under test broke the property"""


def require(cond, msg, *args):
    if not cond:
        try:
            text = msg.format(*args) if args else msg
        except (TypeError, ValueError):
            text = f'{msg} {args}'
        raise Violation(text)


class Stats:
    """counts what the generator really produced"""

    def __init__(self):
        self.evaluations = 0
        self.nontrivial_keys = set()
        self.labels = {}
        self.samples = []
        self.counting = True

    def label(self, name, n=1):
        if self.counting:
            self.labels[name] = self.labels.get(name, 0) + n

    def case(self, test, case, nontrivial):
        if not self.counting:
            return
        self.evaluations += 1
        if nontrivial:
            text = json.dumps([test, case], sort_keys=True, default=str)
            key = hashlib.sha1(text.encode()).digest()[:10]
            if key not in self.nontrivial_keys:
                self.nontrivial_keys.add(key)
                n = sum(1 for s in self.samples if s['test'] == test)
                if n < 2:
                    self.samples.append({'test': test, 'case': text[:1500]})


def first_diff(a, b, path=''):
    """first difference of two nested dict structures, or None"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return f'{path}/{k}: unexpected {b[k]!r}'
            if k not in b:
                return f'{path}/{k}: missing, expected {a[k]!r}'
            d = first_diff(a[k], b[k], f'{path}/{k}')
            if d:
                return d
        return None
    if a != b:
        return f'{path}: expected {a!r}, got {b!r}'
    return None
