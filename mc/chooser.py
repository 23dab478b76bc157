"""Deviation-bounded enumeration of all resolutions of nondeterministic choices.

A run asks choose(n) whenever the code under test draws something random.  The default answer
is option 0; `explore` executes the run for every assignment that deviates from the default at
no more than k positions (positions are discovered dynamically, like preemption points in
bounded schedule exploration).  Nothing is sampled.
"""


class Chooser:
    def __init__(self, dev):
        self.dev = dev
        self.arity = []

    def choose(self, n):
        i = len(self.arity)
        self.arity.append(n)
        c = self.dev.get(i, 0)
        return c if c < n else n - 1

    def pick(self, options):
        return options[self.choose(len(options))]


def explore(run, k, shard=0, shards=1, maxpos=None):
    """run(chooser) for every deviation set with at most k deviations (among the first maxpos draws); returns number of runs"""
    n = 0
    stack = [({}, -1)]
    while stack:
        dev, last = stack.pop()
        ch = Chooser(dev)
        if dev or shard == 0:
            run(ch)
            n += 1
        else:
            run(ch)
        if len(dev) < k:
            for p in range(last + 1, len(ch.arity) if maxpos is None else min(maxpos, len(ch.arity))):
                if not dev and p % shards != shard:
                    continue
                for c in range(1, ch.arity[p]):
                    d = dict(dev)
                    d[p] = c
                    stack.append((d, p))
    return n
