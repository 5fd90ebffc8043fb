"""Monitors: what a rule remembers of a path."""


class Trace:
    """remembers the sequence of events selected by `keep` (capped repetitions)"""

    def __init__(self, keep, cap=2, init=()):
        self.keep = keep
        self.cap = cap
        self.init = init

    def event(self, E, st, ev, loc):
        k = self.keep(E, st, ev, loc)
        if k is None:
            return st.mon
        if st.mon.count(k) >= self.cap:
            # keep only the most recent repetitions
            return st.mon
        return st.mon + (k,)
