"""Setup: check the reference models against brute force, and the explorer against a
space of known size. Exits non-zero when something is wrong."""
import itertools
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import ref


def brute_maximal(adj):
    n = len(adj)
    cl = [s for s in range(1, 1 << n) if ref.is_clique(adj, s)]
    return sorted(s for s in cl if not any(s != t and s & t == s for t in cl))


def brute_cover(adj):
    idx = ref.edge_bits(len(adj))
    todo = ref.to_mask(adj)
    cl = [ref.covered_by(s, idx) for s in brute_maximal(adj)]
    for k in range(len(cl) + 1):
        for c in itertools.combinations(cl, k):
            got = 0
            for e in c:
                got |= e
            if got & todo == todo:
                return k + sum(1 for m in adj if not m)


for n in range(1, 6):
    for mask in range(2 ** (n * (n - 1) // 2)):
        adj = ref.from_mask(n, mask)
        assert ref.to_mask(adj) == mask
        assert sorted(ref.maximal_cliques(adj)) == brute_maximal(adj)
        assert ref.ecc_number(adj) == brute_cover(adj), (n, mask)
        assert ref.independence_number(adj) == max(
            bin(s).count("1") for s in range(1 << n)
            if not any(s >> a & 1 and s >> b & 1 for a, b in ref.edges(adj)))
for adj in ref.classes(6):
    assert ref.ecc_number(adj) == brute_cover(adj)
for n, k in ((6, 156), (7, 1044), (8, 12346), (9, 274668)):
    assert len(set(ref.classes(n))) == k

seen = [tuple(c.taken) for c, _ in core.explore(lambda c: [c.choose(3) for _ in range(4)])]
assert len(seen) == len(set(seen)) == 81
seen = [tuple(c.taken) for c, _ in core.explore(lambda c: [c.choose(3) for _ in range(4)], deviations=1)]
assert len(seen) == len(set(seen)) == 9
parts = [tuple(c.taken) for k in range(3)
         for c, _ in core.explore_part(lambda c: [c.choose(2 + i % 2) for i in range(4)], k, 3, 2)]
assert len(parts) == len(set(parts)) == 36
print("self-test passed")
