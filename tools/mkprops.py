#!/usr/bin/env python3
"""Writes properties.jsonl (the one place where the property texts are edited)."""
import json, os
P = []
EV, CS, EM, SP, SH, ST, PL, CO, CA = ("causetevent.py", "causet.py", "embeddedcauset.py",
    "sprinkledcauset.py", "shapes.py", "spacetimes.py", "causetplotting.py", "colorschemes.py", "calculations.py")


def p(id, title, statement, over, qtext, why, files, mech, **kw):
    def where(n):
        c = n.split(".")[0]
        t = {"CausetEvent": EV, "Causet": CS, "EmbeddedCauset": EM,
             "SprinkledCauset": SP, "CoordinateShape": SH, "causetplotting": PL,
             "colorschemes": CO}
        return t.get(c, ", ".join(files))
    a = {"files": files,
         "mechanism": [{"name": n, "where": where(n)} for n in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
EV, CS, EM, SP, SH, ST, PL, CO, CA = ("causetevent.py", "causet.py", "embeddedcauset.py",
    "sprinkledcauset.py", "shapes.py", "spacetimes.py", "causetplotting.py", "colorschemes.py", "calculations.py")
p("C01", "Past and future relations mirror each other",
  "Whenever an operation that creates or removes relations has finished (creating an event with given past or future, disjoining an event, merging two causets, importing a matrix or permutation, relating embedded events), an event a is in the past of b exactly when b is in the future of a. No event is in its own past or future.",
  ["inputs", "histories"], "every causet before the operation, every argument of the operation, every iteration order of the sets involved",
  "The tests build a handful of small causets and look at matrices made from the past side only; a one-sided update needs an operation followed by a query from the other side.",
  [EV, CS, EM], ["CausetEvent.__init__", "CausetEvent._addToPast", "CausetEvent._addToFuture", "CausetEvent._discard", "CausetEvent.disjoin", "Causet.merge", "Causet.FromPastMatrix", "EmbeddedCauset.relate"],
  state=[{"name": "CausetEvent._prec", "meaning": "events in the past"}, {"name": "CausetEvent._succ", "meaning": "events in the future"}],
  observe_at=["CausetEvent.Past", "CausetEvent.Future", "Causet.PastMatrix"], hook_needed=None)
p("C02", "Constructed causets are transitively closed partial orders",
  "The relation built by creating an event with given past and future events, by merging two causets, or by importing a past, future or link matrix is transitive: whatever precedes a predecessor of an event also precedes the event. A matrix that contains a causal loop of any length is rejected with a ValueError, a matrix with fewer rows than columns gets empty rows, and one with more rows than columns is rejected.",
  ["inputs"], "every starting causet, every set of past and future events, every 0/1 matrix",
  "The only matrix test imports one 'already transitive' example; loops longer than two, link matrices and events inserted between existing events are not exercised.",
  [EV, CS], ["CausetEvent.__init__", "Causet.merge", "Causet.FromPastMatrix", "Causet.FromFutureMatrix", "Causet.FromPermutation"],
  observe_at=["CausetEvent.Past", "CausetEvent.Future"], hook_needed=None)
p("C03", "Link queries always answer the covering relation",
  "Every link query (link past, link future, link cone, their counts, the pairwise link tests, the link matrix and link counts) answers for the current relations: a is linked to b exactly when a precedes b and no event lies between them. The answer does not depend on whether links were computed before, on an event or on the whole causet, nor on relations that were added or removed in between.",
  ["inputs", "histories"], "every causet, every history of link computations, insertions, removals and merges followed by any link query",
  "The tests query links once on freshly built causets; stale or incrementally patched link memory shows only after particular histories.",
  [EV, CS, EM], ["CausetEvent.isLink", "CausetEvent.link", "CausetEvent.unlink", "CausetEvent._addToPast", "CausetEvent._addToFuture", "CausetEvent._discard", "CausetEvent.disjoin", "Causet.link", "Causet.unlink", "Causet.merge", "EmbeddedCauset.relate"],
  state=[{"name": "CausetEvent._lprec / _lsucc", "meaning": "optional memory of the links"}],
  observe_at=["CausetEvent.LinkPast", "CausetEvent.LinkFuture", "Causet.LinkPastMatrix"], hook_needed=None)
p("C04", "Event comparisons follow the causal order",
  "For any two events, a < b holds exactly when a precedes b and a > b exactly when b precedes a; a <= b and a >= b additionally hold when both are the same event. The tests for causal and for spacelike separation are symmetric, and any two different events are either causally related or spacelike separated, never both; an event is causal and not spacelike to itself.",
  ["inputs"], "every pair of events of every causet", "The tests never call most of the comparison operators; they hold for all pairs or are wrong for some.",
  [EV], ["CausetEvent.__lt__", "CausetEvent.__le__", "CausetEvent.__gt__", "CausetEvent.__ge__", "CausetEvent.isCausalTo", "CausetEvent.isSpacelikeTo"], hook_needed=None)
p("C05", "Every cardinality query equals the size of its set query",
  "For every query that has both a set form and a counting form (past, future, cone, spacelike, link past, link future, link cone, infinities of a causet or of an event set, intervals, perimetral and internal events, the causet itself), the count equals the number of events in the set, for every combination of optional arguments.",
  ["inputs"], "every causet, every event or event set as argument, every option value", "The counting forms are separate code with separate shortcuts and are hardly called by the tests.",
  [EV, CS], ["CausetEvent.*Card", "Causet.IntervalCard", "Causet.PerimetralEventCount", "Causet.InternalEventCount", "Causet.PastInfCardOf", "Causet.FutureInfCardOf", "Causet.PastInfCard", "Causet.FutureInfCard"], hook_needed=None)
p("C06", "Region queries return exactly the events they describe",
  "The past, future and cone of an event set (united or intersected, with or without the present), the spacelike complement, the interval between two events (with or without boundary), perimetral and internal events, the infinities of a causet or event set and the smallest interval cardinality return exactly the events (or the number) their description names in terms of the causal order.",
  ["inputs"], "every causet, every event pair, every event set (also sets that are not closed), every option value",
  "Only past/future infinities and layers of a few small causets are tested; unusual options such as intersection or missing boundary are never used.",
  [EV, CS], ["Causet.PastOf", "Causet.FutureOf", "Causet.ConeOf", "Causet.SpacelikeTo", "Causet.Interval", "Causet.PerimetralEvents", "Causet.InternalEvents", "Causet.PastInf", "Causet.FutureInf", "Causet.PastInfOf", "Causet.FutureInfOf", "Causet.SmallestIntervalCard", "CausetEvent.Cone", "CausetEvent.Spacelike"], hook_needed=None)
p("C07", "Past and future operations are exact time reversals of each other",
  "Every operation that exists in a past and a future version (single events, event sets, infinities, links, layers and ranks forward and reversed, matrices) gives, on the time-reversed causet, the result of its counterpart. In particular no option is handled in one direction only. (Layers and ranks across the present layer are compared for antichains.)",
  ["inputs"], "every causet and argument", "Tests check one direction on symmetric examples, where an asymmetry cannot show.",
  [EV, CS], ["CausetEvent.Past/Future", "Causet.PastOf/FutureOf", "Causet.PastInfOf/FutureInfOf", "Causet.Layers", "Causet.Ranks", "Causet.LayerNumbers", "Causet.RankNumbers", "Causet.PastMatrix/FutureMatrix"], hook_needed=None)
p("C08", "Queries do not modify causets, events or arguments",
  "No query changes the causal relations, labels, coordinates or positions of any event, the set of events of a causet, the parameters of a shape or spacetime, or a container passed as argument. Constructors, embedding, set operations, adding, discarding and merging leave the containers they are given as they are, too. The only permitted side effects of a query are remembering links and a shape volume; plotting a diagram for a given permutation assigns the positions of the drawn events, and the colour conversions work in place by design.",
  ["inputs", "histories"], "every query method and function, every argument, including plotting of shapes and causets",
  "Tests look at results, not at what a call did to its inputs; damage shows only in a later, unrelated query.",
  [EV, CS, EM, SP, SH, ST, PL, CA], ["all query methods of CausetEvent, Causet, EmbeddedCauset, SprinkledCauset, CoordinateShape, Spacetime", "causetplotting.plot"], hook_needed=None)
p("C09", "Instances share no mutable state",
  "Creating or modifying one causet, event, shape, spacetime or plot never changes another one or the defaults used by later calls: containers given to constructors, embeddings, setters and set operations are not shared with the instance, sets, lists, matrices, parameter dictionaries and plot handles computed by a query, set operation, copy or plot are new in every call, and no mutable default argument, class attribute or module-level default is modified (except by setDefaultColors, whose purpose that is). Accessors that hand out a stored container of the same instance (Past, Future, link sets, Coordinates, Position, Center, Parameter) are not meant.",
  ["inputs", "histories"], "every pair of instances and every sequence of operations on one of them", "Needs two instances and an order of operations that no test has.",
  [EV, CS, EM, SP, SH, ST, PL, CO], ["Causet.__init__", "CausetEvent.__init__", "CausetEvent.copy", "Causet set operators", "Causet.disjoint", "CoordinateShape.__init__", "plot_parameters"], hook_needed=None)
p("C10", "Causet set operations are set algebra on its events",
  "Union, intersection, difference and symmetric difference of a causet with any collection of events, written as operator (causet on either side) or as method, give the set-theoretic result for the operands in the written order. Adding and discarding change membership by exactly the given events, and membership, iteration, counting and search by label always refer to the same events.",
  ["inputs"], "every causet, every collection of events, both operand orders", "No test uses the reflected operators or any of the named set methods.",
  [CS], ["Causet.__sub__", "Causet.__rsub__", "Causet.__or__", "Causet.__ror__", "Causet.__and__", "Causet.__rand__", "Causet.__xor__", "Causet.__rxor__", "Causet.difference", "Causet.intersection", "Causet.symmetric_difference", "Causet.union", "Causet.add", "Causet.discard", "Causet.__contains__", "Causet.findAll", "Causet.findAny", "Causet.find"], hook_needed=None)
p("C11", "Chain, antichain and path predicates classify exactly",
  "An event set is reported as chain exactly if its events are pairwise causally related, as antichain exactly if they are pairwise spacelike separated, and as path exactly if it is a non-empty chain in which consecutive events are linked. The predicates on a whole causet agree with the predicates on its set of events.",
  ["inputs"], "every causet and every subset of its events", "Tests call the predicates on two generated causets only; subsets that nearly satisfy the predicate are not tried.",
  [CS], ["Causet.isChain", "Causet.isAntichain", "Causet.isPath"], hook_needed=None)
p("C12", "Matrix entries state exactly the relation of the indexed events",
  "In the past matrix, entry (i, j) is set exactly if event j precedes event i, in the future matrix exactly if event i precedes event j, and in the link matrices exactly for linked pairs, for whatever list of events is used as labelling. The future versions are the transposes of the past versions, importing from a future matrix equals importing the transpose as past matrix, the stored text file is the past matrix, and importing a stored text file hands on the stored matrix (for any number of events).",
  ["inputs"], "every causet and every labelling", "One import/export round trip of one symmetric-looking example is tested.",
  [CS], ["Causet.PastMatrix", "Causet.FutureMatrix", "Causet.LinkPastMatrix", "Causet.LinkFutureMatrix", "Causet.FromFutureMatrix", "Causet.saveAsCSV", "Causet.FromTextFile"], hook_needed=None)
p("C13", "Layers and ranks agree with their numberings",
  "The layer (or rank) number of an event relative to an event set is the largest interval cardinality minus one (or the largest rank) to an event of the set, 0 for events of the set without such partner, negative towards the past. The layer (or rank) sets contain exactly the events whose number lies in the requested range, and the numbering of a list agrees with it position by position.",
  ["inputs"], "every causet, every event set or list, every first/last layer number, both directions", "Tests use one causet with single layers; ranges, negative numbers and reversed numbering are barely touched.",
  [CS], ["Causet.Layers", "Causet.LayerNumbers", "Causet.Ranks", "Causet.RankNumbers"], hook_needed=None)
p("C14", "Causality tests are exclusive, antisymmetric and time-ordered",
  "For every spacetime, the causality test of two points x and y answers (x before y, x after y), never both; swapping two different-time points swaps the answer; and for the flat and (anti-)de Sitter spacetimes a point that is reported as earlier has the smaller time coordinate of the formula used.",
  ["inputs", "configurations"], "every pair of coordinate points, every spacetime, dimension, period and metric", "Two radii and a few coordinates are tested; swapped arguments, ties and unusual dimensions are not.",
  [ST], ["Spacetime.Causality", "FlatSpacetime.Causality", "deSitterSpacetime.Causality", "AntideSitterSpacetime.Causality", "BlackHoleSpacetime.Causality"], hook_needed=None)
p("C15", "Causality is decided by the metric of the spacetime",
  "Up to the fixed rounding tolerance, two points are causally related exactly if the squared time separation is at least the squared spatial separation in flat spacetime, with spatial differences taken around the period in each periodic direction, or if the embedding-space separation is causal in de Sitter (within the horizon) and anti-de Sitter spacetime. The answer for flat spacetime does not depend on which dimension-specific implementation is used, and the black hole test compares radial light rays of the chosen metric.",
  ["inputs", "configurations"], "every pair of points, every dimension >= 1, period, curvature radius and metric", "A continuum of points and parameters; tests have only a few samples.",
  [ST], ["FlatSpacetime.Causality", "deSitterSpacetime.Causality", "AntideSitterSpacetime.Causality", "BlackHoleSpacetime._light_EF", "BlackHoleSpacetime._light_S"], hook_needed=None)
p("C16", "Every supported shape is handled wherever shapes are used",
  "Each supported shape name (including the alternative name diamond) has documented parameters with documented defaults, is accepted by the constructor, and gets its own volume, limits, extent, plot and sprinkling using only parameters that this shape defines. Unknown names, non-positive sizes, hollow fractions outside [0, 1), wrong center or edge dimensions and dimensions below 1 raise a ValueError.",
  ["inputs", "configurations"], "every shape name x parameter set x consumer", "Tests construct a few shapes; a consumer that forgets a shape, or reads a parameter the shape does not have, fails only for that combination.",
  [SH, SP], ["CoordinateShape.__init__", "CoordinateShape.Volume", "CoordinateShape.MaxEdgeHalf", "CoordinateShape.Limits", "CoordinateShape.plot", "SprinkledCauset._sprinkle_coords"], hook_needed=None)
p("C17", "Shape volume, limits and extent follow the geometry",
  "The volume of a shape is that of the n-dimensional ball, bicone, cylinder, cube or cuboid minus its hollow interior; the limits along every coordinate dimension are the center minus and plus half of the extent in that dimension; the largest half edge is the maximum of half the extents over the given two or three different dimensions (at least one of them a space dimension). The plotted outline of the shape spans these limits.",
  ["inputs", "configurations"], "every shape, dimension, center and parameter value", "Volumes of a few shapes with one parameter set each are compared with numbers.",
  [SH], ["CoordinateShape.Volume", "CoordinateShape.Limits", "CoordinateShape.MaxEdgeHalf"], hook_needed=None)
p("C18", "Sprinkled coordinates are complete and lie inside the shape",
  "For every supported shape and dimension, sprinkling n points yields n coordinate rows in which every component is assigned, and every point lies inside the shape: within its radius (or edges and duration) around its center and outside its hollow interior, up to rounding (a hollow cylinder needs at least two dimensions). All randomness is drawn from the given generator.",
  ["inputs", "configurations"], "every shape, dimension, center, hollow fraction, count and generator state", "Random output cannot be settled by samples; unassigned components look like random numbers.",
  [SP], ["SprinkledCauset._sprinkle_coords", "SprinkledCauset.sprinkle", "SprinkledCauset.intensify"], hook_needed=None)
p("C19", "Density, length scale and intensity stay consistent",
  "The density of an embedded causet is its number of events per shape volume, that of a sprinkled causet its intensity per shape volume, and the length scale is the inverse d-th root of the density (0 for an embedded causet without events; not specified for a sprinkled causet of intensity 0). Adding or creating events raises the intensity by the number of new events and discarding scales it with the remaining fraction; negative counts or intensities are rejected without changing anything.",
  ["inputs", "histories"], "every sequence of sprinkling, creating, adding and discarding", "The tests never read density, length scale or intensity after more than one operation.",
  [EM, SP], ["EmbeddedCauset.Density", "EmbeddedCauset.LengthScale", "SprinkledCauset.Density", "SprinkledCauset.LengthScale", "SprinkledCauset.sprinkle", "SprinkledCauset.intensify", "SprinkledCauset.create", "SprinkledCauset.add", "SprinkledCauset.discard"],
  state=[{"name": "SprinkledCauset._intensity", "meaning": "expected number of events"}], hook_needed=None)
p("C20", "Embedding of events and causets is validated and tracked",
  "An event is embedded exactly if it was given coordinates and not disembedded since; embedding it again is rejected unless requested, reading coordinates of an event that is not embedded raises, and a position given to the constructor or set later must have two components. Relabelling numbers the events in the order of the chosen coordinate, ascending or descending. An embedded causet accepts the documented spacetime names with the documented meaning, uses the default shape of its spacetime, rejects unknown names, unknown metrics, dimensions and radii out of range and any combination of arguments with incompatible dimensions with a ValueError, and relates its events by the causality of its spacetime.",
  ["inputs", "histories", "configurations"], "every order of embed/disembed/read calls, every combination of spacetime, shape, coordinates and dimension arguments", "Tests construct default embeddings only.",
  [EV, EM], ["CausetEvent.__init__", "CausetEvent.embed", "CausetEvent.disembed", "CausetEvent.Coordinates", "CausetEvent.CoordinatesDim", "CausetEvent.isEmbedded", "CausetEvent.Position", "EmbeddedCauset.__init__", "EmbeddedCauset.create", "EmbeddedCauset.relate"], hook_needed=None)
p("C21", "Colour schemes are complete and valid",
  "Every colour scheme defines a valid colour for every colour key that the plotting defaults refer to, and all keys every scheme should share; looking up a scheme colour returns the entry of the selected scheme, leaves other colour strings unchanged, and an unknown scheme name raises a ValueError.",
  ["inputs", "configurations"], "every scheme x colour key", "Only the default scheme is plotted in the tests, with the default colour keys.",
  [CO, PL], ["colorschemes.ColorSchemes", "colorschemes.getColor", "colorschemes.pickColorScheme", "colorschemes.convertColorsInDict", "causetplotting.default_colors"], hook_needed=None)
p("C22", "Plot options behave as documented for every combination",
  "Every documented plot option has the documented default, user-given options override the defaults, switching an element off removes exactly that element, and no documented combination of options fails on a missing option or unset variable. The returned handles contain an entry for exactly the elements that are switched on, and past cones use the past time slice, future cones the future one.",
  ["configurations"], "every combination of plot options, 2D and 3D, static and dynamic", "The combinations are far more than the handful of plots in the tests.",
  [PL], ["causetplotting.plot_parameters", "causetplotting.Plotter", "causetplotting.dynamic_parameter", "causetplotting.plot"], hook_needed=None)
p("C23", "Harmonic numbers and Newton iteration meet their definitions",
  "The exact harmonic numbers are the partial sums of 1/k (0 for n = 0) in all variants, and the floating point variants use the same asymptotic expansion from the given threshold on. Newton's method returns either the default or an iterate that lies in the documented interval and differs from its predecessor by less than the precision.",
  ["inputs"], "every n, threshold, function, start and bounds", "A few n are compared with constants, Newton's method only through plots.",
  [CA], ["HarmonicNumber", "HarmonicNumbers", "HarmonicNumberFraction", "HarmonicNumberFractions", "NewtonsMethod"], hook_needed=None)
p("C24", "Generated causets have the advertised structure",
  "A chain of n events is totally ordered and an antichain of n events unrelated; a permutation gives the intersection order of positions and values; a fence relates each event of a level to two neighbours (one at an open end) of the level below; a simplex has one event for each of its faces (with or without the central one), ordered by inclusion; labels follow the given format, and permutations embedded in a diamond lie inside it. Sizes out of range give an empty causet.",
  ["inputs"], "every n, permutation, length, height and label format", "Tests generate one or two instances of each.",
  [CS], ["Causet.FromPermutation", "Causet.NewChain", "Causet.NewAntichain", "Causet.NewFence", "Causet.NewCrown", "Causet.NewSimplex", "EmbeddedCauset.FromPermutation"], hook_needed=None)
p("C25", "Distance matrices are symmetric with zero diagonal",
  "The distance matrix of an antichain is a symmetric integer matrix with zero diagonal and entries of at least -1 for every counting method; without recursion an entry is the number of antichain events in the smallest interval over both events that begins and ends next to the antichain, minus one (at most 1 for ziczacs); an unsupported counting method is rejected with a ValueError.",
  ["inputs"], "every causet, antichain and option", "One matrix of one causet is compared with a constant.",
  [CS], ["Causet.DistanceMatrix"], hook_needed=None)
p("C26", "The distances along an antichain are the shortest ziczac numbers",
  "The ziczac distance of two antichain events is the least number of steps between antichain events that share a past or future neighbour in the thinnest slice around the antichain that connects them, -1 if none does. Iterating over antipaths yields every shortest list of antichain events from one event to the other exactly once (the event itself if both are the same), and nothing for events that are not connected or not on the antichain.",
  ["inputs"], "every causet, antichain and pair of its events", "One causet is tested.", [CS], ["Causet.DistanceMatrix", "Causet.Antipaths"], hook_needed=None)
p("C27", "Path enumeration is complete, minimal and maximal as requested",
  "Iterating over paths from a to b yields each list of consecutively linked events exactly once (the event itself if both are the same, nothing if a does not precede b); with a length restriction exactly those with the minimal, maximal or given number or range of numbers of events; a length of another type raises a ValueError. The rank of an event is the least number of links needed, infinity if there is no path.",
  ["inputs"], "every causet, event pair and length specification", "A few paths of one causet are tested.", [CS, EV], ["Causet.Paths", "CausetEvent.Rank"], hook_needed=None)
p("C28", "Sprinkling is uniform and Poisson distributed",
  "Sprinkled points are distributed uniformly with respect to the coordinate volume of the shape and the number of points is Poisson distributed with the given intensity.",
  ["inputs"], "every shape and generator", "Statistical; tests do not attempt it.", [SP], ["SprinkledCauset._sprinkle_coords", "SprinkledCauset.intensify"], hook_needed=None)
p("C29", "Causality is a transitive relation on embedded points",
  "If a point precedes a second one and that precedes a third, then the first precedes the third, for every spacetime.",
  ["inputs"], "every triple of points", "A continuum of triples.", [ST], ["Spacetime.Causality"], hook_needed=None)
p("C30", "Sorting and disjoining produce valid decompositions",
  "Sorting by causality lists every event of the set exactly once with no event before one of its predecessors (behind, if reversed), sorting by labels lists them in the order of the labels; the disjoint decomposition splits the set into causally connected, mutually unrelated parts; the layering of a causet puts every event into the layer given by its longest chain from the past (to the future) infinity; the central antichain is a maximal antichain.",
  ["inputs"], "every causet and event set", "Two examples are tested.", [CS], ["Causet.sortedByCausality", "Causet.sortedByLabels", "Causet.disjoint", "Causet.isDisjoint", "Causet.layered", "Causet.CentralAntichain"], hook_needed=None)
p("C31", "Causal cone plots follow the light cones",
  "A plotted past or future cone is the light cone of its origin up to the time slice, seen in the plotted axes: every drawn vertex is on a light ray of the origin (or on the singularity or the time slice), the tip and all sides are drawn, once for every periodic image; nothing is drawn if the time slice is on the other side of the origin or the opacity is not positive; the given plotting parameters and the opacity are passed on and left unchanged.",
  ["inputs", "configurations"], "every origin, time slice, spacetime and plot dimension", "Plots are only drawn, not compared.", [ST], ["Spacetime.ConePlotter", "FlatSpacetime.ConePlotter", "deSitterSpacetime._XY_slice", "BlackHoleSpacetime._XT_slice"], hook_needed=None)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
