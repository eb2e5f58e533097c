"""Obligations, findings and evidence of one check."""


class Ob:
    """One obligation: a construct, the rule applied to it and what the analysis decided."""

    def __init__(self, rule, where, verdict, detail="", loc=""):
        self.rule, self.where, self.verdict, self.detail, self.loc = rule, where, verdict, detail, loc

    def key(self):
        return "%s|%s" % (self.rule, self.where)

    def as_dict(self):
        return {"rule": self.rule, "construct": self.where, "verdict": self.verdict, "detail": self.detail[:2000],
                "location": self.loc}


class Report:
    def __init__(self):
        self.obs = []
        self.stats = {}

    def add(self, rule, where, verdict, detail="", loc=""):
        self.obs.append(Ob(rule, where, verdict, str(detail), loc))

    def holds(self, rule, where, detail="", loc=""):
        self.add(rule, where, "holds", detail, loc)

    def bad(self, rule, where, detail="", loc=""):
        self.add(rule, where, "violated", detail, loc)

    def dunno(self, rule, where, detail="", loc=""):
        self.add(rule, where, "undecided", detail, loc)

    def decide(self, rule, where, v, detail="", loc=""):
        self.add(rule, where, {True: "holds", False: "violated", None: "undecided"}[v], detail, loc)

    def count(self, **k):
        for n, v in k.items():
            self.stats[n] = self.stats.get(n, 0) + v

    def engine(self, I):
        self.count(functions_analysed=len(I.funcs_seen), calls_analysed=I.calls_seen, loops_summarised=I.loops_seen,
                   paths_truncated=I.truncated, model_gaps=len(I.model_gaps))
        s = self.stats.setdefault("functions", [])
        for f in I.funcs_seen:
            if f.qual not in s:
                s.append(f.qual)

    def merge(self, o):
        self.obs += o.obs
        for k, v in o.stats.items():
            if isinstance(v, list):
                mine = self.stats.setdefault(k, [])
                for x in v:
                    if x not in mine:
                        mine.append(x)
            else:
                self.stats[k] = self.stats.get(k, 0) + v
