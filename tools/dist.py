"""usage: dist.py PID FACET N : print a sample of generated cases and the fraction of non-trivial ones"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from vp import boot; boot.no_mutations()
from vp.core import facets_of, canon
import hypothesis, collections
from hypothesis import given, settings, HealthCheck, Phase
f = facets_of(sys.argv[1])[sys.argv[2]]
n = int(sys.argv[3])
seen = []
@hypothesis.seed(int(os.environ.get("VERIF_SEED","1")))
@settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=(Phase.generate,))
@given(f.strategy())
def t(case):
    seen.append(canon(case))
t()
print(len(seen), "distinct", len(set(seen)))
for s in seen[::max(1, len(seen) // 40)]:
    print(s[:220])
