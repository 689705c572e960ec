from skmine.itemsets.lcm import LCM

from . import lcm_common as m

ID = "C01"
QUICK, THOROUGH = 8000, 120000
RULE = ("a run counts if it mined a database with a transaction of two or more items under at least one simulated "
        "worker schedule; distinct by digest of schedule, faults and outcomes")
plan, SHRINK, SCHED_MEASURE, REAL, STUB, ASSUMES = m.plan, m.SHRINK, m.SCHED_MEASURE, m.REAL, m.STUB, m.ASSUMES


def execute(p, ctx):
    m.execute(LCM, False, p, ctx)
