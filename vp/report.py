"""Collects what a check analysed and what it found; writes the evidence file and the verdict lines."""
import json, os, time, collections

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.rules = collections.OrderedDict()
        self.viol = collections.OrderedDict()
        self.functions = set()
        self.extra = collections.OrderedDict()
        self.samples = []
        self.t0 = time.time()

    def rule(self, name, text=None):
        r = self.rules.setdefault(name, {"rule": text or name, "obligations": 0, "discharged": 0, "sites": []})
        if text:
            r["rule"] = text
        return r

    def ok(self, rule, site=None):
        r = self.rule(rule)
        r["obligations"] += 1
        r["discharged"] += 1
        if site is not None:
            r["sites"].append(str(site))

    def bad(self, rule, key, where, msg):
        """key: stable identification of the violating construct (no line numbers)"""
        r = self.rule(rule)
        r["obligations"] += 1
        r["sites"].append("VIOLATED " + key)
        k = "%s|%s" % (rule, key)
        self.viol.setdefault(k, {"rule": rule, "key": k, "where": where, "message": msg})

    def floor(self, rule, what, count, minimum):
        """a rule that matches fewer constructs than were confirmed by hand is not believed"""
        if count < minimum:
            self.bad(rule, "anchor-missing:" + what, "-", "only %d of at least %d expected instances of '%s' found: the analysed construct is gone or no longer recognised" % (count, minimum, what))
        else:
            self.ok(rule, "%s: %d instances (at least %d expected)" % (what, count, minimum))

    def fns(self, it):
        self.functions.update(it)

    def obligations(self):
        return sum(r["obligations"] for r in self.rules.values()), sum(r["discharged"] for r in self.rules.values())


def loc(body, line=None):
    return "%s:%s (%s)" % (body.file, line if line else body.line, body.name)
