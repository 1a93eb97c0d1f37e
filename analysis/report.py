"""Obligations, verdicts, evidence."""
import json, os, time
from evalt import show_val


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obs = []
        self.t0 = time.time()
        self.notes = []
        self.missing = []

    def ob(self, name, status, where='', detail='', witness=None, rule=''):
        """status: proved | refuted | undecided"""
        self.obs.append({'obligation': name, 'status': status, 'where': where, 'detail': detail,
                         'witness': show_val(witness) if hasattr(witness, 'val') else str(witness) if witness is not None else None, 'rule': rule})
        return status

    def note(self, s):
        self.notes.append(s)

    def bad(self):
        return [o for o in self.obs if o['status'] == 'refuted']
