
MC = "explicit-state model checking: exhaustive enumeration of decision trees / code sequences within bounds, each executed on the implementation and compared with a reference interpreter"
prop("C28", "Decision trees give every point the category its diagnostics lead to",
     """Each point gets the leaf code reached by walking the tree from its first node: a node's conditions compare the diagnostic (probability at the threshold named, matched in any
     convertible units and scaled to the target period where it has a period) with the level; AND needs all, OR any of them; expressions of several diagnostics are evaluated with the usual
     precedence, from left to right. A point is masked exactly where a diagnostic needed on its path is masked, also where both outcomes of a node coincide. Missing diagnostics are refused by name
     unless the node says which way to go; the tree is then followed that way, and a later call with all diagnostics uses the full tree. Codes with a night version are replaced at points where it is night.
     The result has the name, codes, meanings, title, models and run records of its inputs, their validity time and the latest reference time, and the period of period diagnostics.
     Diagnostics of different times or periods are refused. check_tree accepts valid trees, listing their inputs, and reports each kind of fault. Neither cubes nor tree are changed.""",
     ["inputs", "programs", "configurations", "histories"],
     "every tree of up to 3 nodes and 3 leaves (864), conditions and 5-term expressions, optional nodes x missing diagnostics, on all 64 combinations of below, at, above a level and masked (4540 cases)",
     "Tests use one fixed weather symbol tree on hand written probabilities.",
     ["improver/categorical/decision_tree.py", "improver/categorical/utilities.py"],
     [{"name": "ApplyDecisionTree, check_tree, update_daynight", "where": "improver/categorical"}],
     MC, "Thresholds within 1% of each other, and expressions equal to the level up to rounding, are not claimed. Day and night are DayNightMask's.")
prop("C29", "The modal category of a period is its most frequent significant category",
     """The modal code at each point is the code occurring most often among the inputs, night codes counting as their day codes, the largest code winning ties. If it makes up less than 30% of the inputs, codes of a group
     count together as the lowest member of that group present, and the most frequent of these is taken. Masked inputs do not count and points are masked only where every input is masked. This holds
     for any order and layout of the inputs: grids of any size, sites, time as leading or trailing dimension, one cube or several, a single time. Time is the end of the whole period with bounds around it; reference and blend time are the latest;
     the forecast period and its bounds match. The cell method records the mode and input period; models and run records list every contributor once. Different periods or periods missing are refused. Inputs are not changed and
     the plugin can be used again.""",
     ["inputs", "configurations", "histories"],
     "every sequence of up to 5 codes of 7, masks up to length 3, selected lengths 7 and 10 (29k sequences); layouts x orders; reference times x models x records",
     "Tests use about ten fixed sequences on a square grid.",
     ["improver/categorical/modal_code.py"],
     [{"name": "ModalCategory", "where": "improver/categorical"}],
     MC, "Merging and collapsing are the iris stand-in's.")
