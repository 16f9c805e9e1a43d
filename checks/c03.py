"""C03: all_set() <=> a real function accepts the call."""
from checks import c02

LEVEL = c02.LEVEL
RULE = c02.RULE
ASSUMPTIONS = c02.ASSUMPTIONS
shards = c02.shards


def run(shard, report, spec):
    c02.run(shard, report, spec, method='all_set')
