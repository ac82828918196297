"""Shared plumbing of the checks: findings, known findings, evidence."""
import json
import os
import sys
import time
import traceback

from . import load as L
from .load import AnalysisError, VERIF

KNOWN = os.path.join(VERIF, "known_findings.json")


class Finding:
    __slots__ = ("key", "where", "msg", "path")

    def __init__(self, key, where, msg, path=()):
        self.key = key          # identifies the construct, never a line number
        self.where = where      # file:line
        self.msg = msg
        self.path = list(path)

    def as_dict(self):
        return {"key": self.key, "where": self.where, "message": self.msg,
                "path": self.path}


class Result:
    """What one rule looked at and what it found."""

    def __init__(self):
        self.findings = []
        self.obligations = 0
        self.discharged = 0
        self.coverage = {}
        self.functions = set()
        self.rules = []
        self.samples = []

    def add(self, key, where, msg, path=()):
        for f in self.findings:
            if f.key == key and f.where == where:
                return
        self.findings.append(Finding(key, where, msg, path))

    def check(self, ok, key, where, msg, path=()):
        """One obligation."""
        self.obligations += 1
        if ok:
            self.discharged += 1
            if len(self.samples) < 12:
                self.samples.append("%s @ %s" % (key, where))
        else:
            self.add(key, where, msg, path)
        return ok

    def merge(self, o):
        self.findings += o.findings
        self.obligations += o.obligations
        self.discharged += o.discharged
        self.functions |= o.functions
        self.rules += o.rules
        self.samples += o.samples[:6]
        for k, v in o.coverage.items():
            if k in self.coverage and isinstance(v, (int, float)):
                self.coverage[k] += v
            else:
                self.coverage[k] = v


def known_findings():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return json.load(f)["findings"]


def require(cond, msg):
    if not cond:
        raise AnalysisError(msg)
