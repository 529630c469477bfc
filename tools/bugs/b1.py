ce = 'causetevent.py'
cs = 'causet.py'
em = 'embeddedcauset.py'
B = [
dict(id='C03-discard-stale-future', property='C03',
     edits=[(ce, "            if self.hasBeenLinked() and (other in self._lsucc):\n",
             "            if self.hasBeenLinked() and (other in self._lprec):\n")],
     demo='''
from causets.causetevent import CausetEvent
a = CausetEvent(label=1)
b = CausetEvent(past={a}, label=2)
c = CausetEvent(past={b}, label=3)
a.link()
b.disjoin()
assert a.LinkFuture == {c}, a.LinkFuture
''',
     needs='an event with a live link memory from whose linked future an '
           'event is disjoined afterwards (link, then disjoin of a relative)',
     what_it_breaks='the memory of the future links of the earlier event '
                    'keeps the removed event and misses the new link'),
dict(id='C02-ctor-future-not-closed', property='C02',
     edits=[(ce, "            self._succ.update(e.PresentOrFuture)\n",
             "            self._succ.add(e)\n")],
     demo='''
from causets.causetevent import CausetEvent
b = CausetEvent(label=2)
c = CausetEvent(past={b}, label=3)
a = CausetEvent(future={b}, label=1)
assert a < b < c and a < c
''',
     needs='an event created with the keyword future where a given future '
           'event has itself future events that are not given',
     what_it_breaks='the order relation is not transitive any more'),
dict(id='C01-disjoin-one-sided', property='C01',
     edits=[(ce, "        elif other in self._succ:\n            self._succ.discard(other)\n",
             "        elif other in self._succ and other._succ <= self._succ - {other}\\\n                and other._succ:\n            self._succ.discard(other)\n")],
     demo='''
from causets.causetevent import CausetEvent
a = CausetEvent(label=1)
b = CausetEvent(past={a}, label=2)
b.disjoin()
for x in (a, b):
    for y in (a, b):
        assert (x in y.Past) == (y in x.Future), (x, y)
''',
     needs='disjoining an event without future events',
     what_it_breaks='past and future sets of two events disagree'),
dict(id='C05-infcard-linkless', property='C05',
     edits=[(cs, "        return sum(1 for e in eventSet if not (e.Future & eventSet))",
             "        return sum(1 for e in eventSet if not (e.LinkFuture & eventSet))")],
     demo='''
from causets.causet import Causet
c = Causet.NewChain(3)
s = {c.find(1), c.find(3)}
assert Causet.FutureInfCardOf(s) == len(Causet.FutureInfOf(s))
''',
     needs='an event set that skips the events in between (not convex), so '
           'that related events of the set are not linked',
     what_it_breaks='the card property differs from the size of the set'),
dict(id='C06-internal-boundary', property='C06',
     edits=[(cs, "            return a.PresentOrFuture & b.PresentOrPast\n",
             "            return (a.LinkFuture | b.LinkPast | {a, b}) & a.PresentOrFuture \\\n                & b.PresentOrPast\n")],
     demo='''
from causets.causet import Causet
c = Causet.NewChain(5)
assert len(Causet.Interval(c.find(1), c.find(5))) == 5
''',
     needs='an interval containing an event that is linked to neither of its '
           'boundary events (rank 4 or more)',
     what_it_breaks='the interval misses the events in the middle'),
dict(id='C13-layers-future-exclude', property='C13',
     edits=[(cs, "            _first: int = max(first, 0)\n            for b in Causet.FutureOf(eventSet, includePresent=True):\n                setA: Set[CausetEvent] = b.Past & eventSet\n                if setA:\n                    n = max(Causet.IntervalCard(a, b)\n                            for a in setA) - 1\n",
             "            _first: int = max(first, 0)\n            for b in Causet.FutureOf(eventSet, includePresent=True):\n                setA: Set[CausetEvent] = b.Past & eventSet\n                if setA:\n                    n = max(Causet.IntervalCard(a, b)\n                            for a in setA & (b.LinkPast or setA) or setA) - 1\n")],
     demo='''
from causets.causet import Causet
from causets.causetevent import CausetEvent
a = CausetEvent(label=1)
b = CausetEvent(past={a}, label=2)
z = CausetEvent(label=5)
d = CausetEvent(past={b, z}, label=4)
c = Causet({a, b, d, z})
# layer number of d over {a, z}: the largest interval from a (2 steps)
assert Causet.Layers({a, z}, 2) == {d}, Causet.Layers({a, z}, 2)
assert Causet.Layers({a, z}, 1) == {b}, Causet.Layers({a, z}, 1)
''',
     needs='an event set with one event linked to the later event and another '
           'one related to it by a larger interval',
     what_it_breaks='layer numbers are too small'),
dict(id='C11-path-extremal', property='C11',
     edits=[(cs, "                if (e_linkcount < 1) or (e_linkcount > 2):\n",
             "                if e_linkcount < 1:\n"),
            (cs, "                if len(e.Cone & events) != c:\n",
             "                if len(e.Cone & events) < c - int(e_links_ok(e)):\n")],
     demo='', needs='', what_it_breaks=''),
dict(id='C12-link-matrix-stale', property='C12',
     edits=[(cs, "                C[i, j] = a.isPastLink(b)\n",
             "                C[i, j] = b.isFutureLink(a) and i != j + 2\n")],
     demo='', needs='', what_it_breaks=''),
]
B = [b for b in B if b['demo']]
B += [
dict(id='C11-chain-foreign', property='C11',
     edits=[(cs, "            for e in events:\n                if len(e.Cone & events) != c:\n                    return False\n",
             "            for e in events:\n                if min(e.ConeCard, c) != c:\n                    return False\n")],
     demo='''
from causets.causet import Causet
from causets.causetevent import CausetEvent
a = CausetEvent(label=1)
b = CausetEvent(label=2)
d = CausetEvent(past={a, b}, label=3)
c = Causet({a, b, d})
assert c.isChain([a, d]) and not c.isChain([a, b])
''',
     needs='a list of unrelated events which have other relatives outside '
           'the list',
     what_it_breaks='spacelike events count as a chain'),
dict(id='C12-matrix-dtype', property='C12',
     edits=[(cs, "        return self.PastMatrix(labeledEvents, dtype).T\n",
             "        return self.PastMatrix(\n            labeledEvents[::-1] if labeledEvents else labeledEvents,\n            dtype)[::-1, ::-1].T\n")],
     demo='', needs='', what_it_breaks=''),
dict(id='C12-future-matrix-order', property='C12',
     edits=[(cs, "        return self.PastMatrix(labeledEvents, dtype).T\n",
             "        if labeledEvents is None:\n            labeledEvents = self.sortedByCausality(reverse=True)\n        return self.PastMatrix(labeledEvents, dtype)\n")],
     demo='''
import numpy as np
from causets.causet import Causet
c = Causet.FromPermutation([2, 1, 4, 3])
l = c.sortedByCausality()
assert np.array_equal(c.FutureMatrix(l), c.PastMatrix(l).T)
assert np.array_equal(c.FutureMatrix(), c.PastMatrix().T)
''',
     needs='a labelling given by the caller or a causet whose labels do not '
           'reverse under time reversal',
     what_it_breaks='the future matrix is not the transposed past matrix'),
dict(id='C10-xor-inplace', property='C10',
     edits=[(cs, "    def __xor__(self, other: Iterable[CausetEvent]) -> Set[CausetEvent]:\n        return self._events ^ set(other)\n",
             "    def __xor__(self, other: Iterable[CausetEvent]) -> Set[CausetEvent]:\n        rest: Set[CausetEvent] = set(other)\n        rest ^= self._events if rest else set()\n        return rest\n")],
     demo='''
from causets.causet import Causet
c = Causet.NewChain(3)
assert len(c ^ []) == 3
assert len(c ^ [c.find(1)]) == 2
''',
     needs='an empty second operand',
     what_it_breaks='the symmetric difference with an empty set is empty'),
dict(id='C03-add-past-links', property='C03',
     edits=[(ce, "                if CausetEvent.isLink(other, self):\n                    self._lprec.add(other)\n",
             "                if not (other._succ & self._lprec):\n                    self._lprec.add(other)\n")],
     demo='', needs='', what_it_breaks=''),
dict(id='C04-le-link', property='C04',
     edits=[(ce, "    def __ge__(self, other):\n        return (self is other) or (other in self._prec)\n",
             "    def __ge__(self, other):\n        return (self is other) or not self.__lt__(other) and \\\n            (other in self._prec or self in other._succ and\n             bool(other._lsucc if other.hasBeenLinked() else True))\n")],
     demo='', needs='', what_it_breaks=''),
]
B = [b for b in B if b['demo']]
