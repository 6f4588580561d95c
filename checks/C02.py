import importlib.util, os
from conc import ConcPart, SpecPart
s = importlib.util.spec_from_file_location("c01", os.path.join(os.path.dirname(__file__), "C01.py"))
c01 = importlib.util.module_from_spec(s)
s.loader.exec_module(c01)

CFG = """SPECIFICATION Spec
CONSTANTS
 N = {N}
 K = {K}
 Weak = TRUE
 HeadRelease = {a}
 HeadAcquire = {b}
 TailRelease = {c}
 TailAcquire = {d}
 RemoveAcquire = FALSE
INVARIANTS ExactlyOnceInOrder NoRace Bounded Conservative
CHECK_DEADLOCK FALSE
"""


def algo(N, K, a=1, b=1, c=1, d=1):
    t = lambda x: "TRUE" if x else "FALSE"
    return CFG.format(N=N, K=K, a=t(a), b=t(b), c=t(c), d=t(d))


PARTS = [ConcPart("spsc_weak", "spsc_conc.cc", "SpscLin", lambda rng, th: c01.jobs(rng, th, "weak"), hb=True),
         SpecPart("algo_n2", "SpscAlgo", algo(2, 6), algo(2, 12)),
         SpecPart("algo_n3", "SpscAlgo", algo(3, 6), algo(3, 12)),
         SpecPart("algo_head_relaxed", "SpscAlgo", algo(2, 4, b=0), expect="NoRace"),
         SpecPart("algo_tail_relaxed", "SpscAlgo", algo(2, 4, c=0), expect="NoRace")]
