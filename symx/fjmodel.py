"""Stand-ins for FastJet (the jets it finds are given by the check, what it is asked is recorded) and for tabulate
(the tables it is given are recorded).

Used with the symbolic arrays (npm = the numpy model) and, when a counterexample or witness is replayed,
with numpy and awkward proper.
"""
import types

NAMES = ("px", "py", "pz", "E")
P_OF = {0: 1.0, 1: 0.0, 2: -1.0}


class Found:
    """what the check sets up: jets [(px, py, pz, E, [constituents])] in FastJet's own order"""
    def __init__(self, jets):
        self.jets, self.inputs, self.defs = jets, [], []


class JetDefinition:
    def __init__(self, algorithm, R=None, *extra):
        if R is None:
            raise ValueError("a radius is needed")
        self.algorithm, self.R, self.extra = algorithm, R, extra
        self.p = P_OF[algorithm] if algorithm in P_OF else extra[0]


def make(current, fields, records, lists, missing):
    """the module; current(): Found, fields(x): {name: values}, records(rows) and lists(rows): awkward arrays"""
    class ClusterSequence:
        def __init__(self, data, jetdef):
            self.found = current()
            if self.found is None:
                missing("fastjet.ClusterSequence")
            f = fields(data)
            self.found.inputs.append(f)
            self.found.defs.append((jetdef.p, jetdef.R))

        def inclusive_jets(self, min_pt=0):
            return records([j[:4] for j in self.above(min_pt)])

        def constituent_index(self, min_pt=0):
            return lists([list(j[4]) for j in self.above(min_pt)])

        def above(self, cut):
            if isinstance(cut, (int, float)) and cut <= 0:
                return self.found.jets
            return [j for j in self.found.jets if bool(j[0] * j[0] + j[1] * j[1] >= cut * cut)]

        def __getattr__(self, n):
            missing("fastjet.ClusterSequence." + n)

    m = types.ModuleType("fastjet")
    m.__dict__.update(kt_algorithm=0, cambridge_algorithm=1, antikt_algorithm=2, genkt_algorithm=3, cambridge_aachen_algorithm=1,
                      JetDefinition=JetDefinition, ClusterSequence=ClusterSequence, __getattr__=missing)
    return m


def record_table(tables, tabular_data, headers=(), tablefmt="simple", missingval="", **k):
    rows = tabular_data
    if isinstance(rows, dict):
        if headers == "keys":
            headers = list(rows)
        rows = list(zip(*rows.values()))
    tables.append(dict(rows=[list(r) for r in rows], headers=list(headers), fmt=tablefmt, missing=missingval, more=k))
    return "<table %d>" % (len(tables) - 1)
