REAL = "Bounded, exhaustive within the bounds stated in the evidence file; real arithmetic (rounding ignored, 1e-9..1e-4 tolerances) unless a case says every double. Trusted: clang front end, the instrumentation pass and runtime, z3; counterexamples and path witnesses are re-executed on an independent g++ build."

prop("C01", "T-norms compute their documented conjunction",
     "Every built-in conjunction operator (minimum, algebraic, bounded, drastic, Einstein, Hamacher, nilpotent products) and a function-defined one returns its documented formula for all degrees a, b in [0,1]. It is commutative, associative, monotone in both arguments, has 1 as neutral and 0 as absorbing element, and its result lies between 0 and the smaller degree. Selecting an operator by name in the factory, or cloning it, gives the same operation.",
     ["inputs"], "all pairs/triples of degrees in [0,1] and all operators the factory offers",
     "The tests compute a handful of norm values; the algebraic laws quantify over every pair or triple of degrees.",
     ["src/norm/t", "fuzzylite/norm/t", "src/factory/TNormFactory.cpp"],
     [("compute() of each TNorm", "src/norm/t/*.cpp"), ("TNormFactory registration", "src/factory/TNormFactory.cpp")], REAL)
prop("C02", "S-norms compute their documented disjunction",
     "Every built-in disjunction/aggregation operator (maximum, algebraic, bounded, drastic, Einstein, Hamacher, nilpotent, normalized, unbounded sums) and a function-defined one returns its documented formula for all degrees a, b in [0,1]. It is commutative, associative, monotone, has 0 as neutral element, is at least the larger degree and (except the unbounded sum) at most 1, and each is the De Morgan dual of the conjunction operator of the same family. Selecting an operator by name in the factory, or cloning it, gives the same operation.",
     ["inputs"], "all pairs/triples of degrees in [0,1] and all operators the factory offers",
     "The tests compute a handful of norm values; the algebraic laws and duality quantify over every pair or triple of degrees.",
     ["src/norm/s", "fuzzylite/norm/s", "src/factory/SNormFactory.cpp"],
     [("compute() of each SNorm", "src/norm/s/*.cpp"), ("SNormFactory registration", "src/factory/SNormFactory.cpp")], REAL)
prop("C03", "Hedges transform degrees as documented",
     "Each built-in hedge (any, extremely, not, seldom, somewhat, very) and a function-defined hedge applies its documented transformation to every degree in [0,1] and the result stays in [0,1]. 'not' reverses the order and is an involution; the others preserve the order, 'very' never increases and 'somewhat' never decreases a degree and they invert each other, as do 'extremely' and 'seldom'. Crisp truth values stay crisp.",
     ["inputs"], "all degrees (and pairs of degrees) in [0,1], every hedge of the factory",
     "Tests evaluate a few hedges at a few points; order, range and inverse laws quantify over all degrees.",
     ["src/hedge", "src/factory/HedgeFactory.cpp"],
     [("hedge() of each Hedge", "src/hedge/*.cpp")], REAL)
prop("C04", "Piecewise membership functions follow their definition",
     "For every crisp value and every documented-valid parameter set, the triangle, trapezoid, ramp, rectangle, binary, concave, s-shape, z-shape and pi-shape terms return height times their documented piecewise formula. Triangles and trapezoids with an infinite outer vertex stay at the height on that open side. Memberships lie in [0,height], rise only on rising sides and fall only on falling sides.",
     ["inputs"], "all crisp values, all valid parameters in a bounded range, all heights",
     "Tests sample fixed parameters at a dozen points; the definition is a statement about every x and every parameter set.",
     ["src/term/Triangle.cpp", "src/term/Trapezoid.cpp", "src/term/Ramp.cpp", "src/term/Rectangle.cpp", "src/term/Binary.cpp", "src/term/Concave.cpp", "src/term/SShape.cpp", "src/term/ZShape.cpp", "src/term/PiShape.cpp"],
     [("Term::membership overrides", "src/term/*.cpp")], REAL)
prop("C05", "Smooth membership functions follow their definition",
     "For every crisp value and every valid parameter set, the sigmoid, sigmoid difference, sigmoid product, bell, cosine, gaussian, gaussian product and spike terms return height times their documented formula. They reach the height at the centre (half of it at a sigmoid's inflection and one bell width away), are symmetric around the centre where documented, never leave [0,height], rise towards and fall away from their centre, and a cosine is zero outside its support.",
     ["inputs"], "all crisp values, all valid parameters in a bounded range, all heights",
     "Tests sample fixed parameters at a dozen points; formula, symmetry and range are statements about every x and every parameter set.",
     ["src/term/Sigmoid.cpp", "src/term/SigmoidDifference.cpp", "src/term/SigmoidProduct.cpp", "src/term/Bell.cpp", "src/term/Cosine.cpp", "src/term/Gaussian.cpp", "src/term/GaussianProduct.cpp", "src/term/Spike.cpp"],
     [("Term::membership overrides", "src/term/*.cpp")], REAL + " exp, pow, log and cos are known to the solver through axioms (inverse, monotonicity, sign, special values), so an error below those axioms' precision is not seen.")
prop("C06", "Membership is total: NaN, infinities, heights, every double",
     "The membership of any shape term is NaN for NaN and is a number in [0,height] for every other double, denormals and infinities included; at the infinities it equals the term's limit. The height scales the membership of the unit-height term linearly, and a clone returns the same memberships independently of its original.",
     ["inputs"], "every IEEE double as crisp value; NaN and both infinities; all heights",
     "Tests check NaN and infinity for fixed parameters; the range must hold for all 2^64 doubles.",
     ["src/term", "fuzzylite/term/Term.h"],
     [("membership() of each term", "src/term/*.cpp"), ("height handling", "src/term/Term.cpp")], REAL)
prop("C07", "Tsukamoto values invert monotonic terms",
     "For every monotonic term (ramp, concave, sigmoid, s-shape, z-shape) and every activation degree strictly between 0 and its height, the Tsukamoto value is the crisp value whose membership is that degree, and it moves monotonically with the degree in the term's direction. Exact values are returned at the landmarks (ends, middle, inflection). Terms that are not monotonic declare so and refuse with an error.",
     ["inputs"], "all degrees in (0,height), all valid parameters in both directions, all heights",
     "Tests compare a sampled grid for fixed parameters; inversion is a statement about every degree and parameter set.",
     ["src/term/Ramp.cpp", "src/term/Concave.cpp", "src/term/Sigmoid.cpp", "src/term/SShape.cpp", "src/term/ZShape.cpp", "src/term/Term.cpp"],
     [("tsukamoto() and isMonotonic()", "src/term/*.cpp")], REAL)
prop("C08", "Discrete terms interpolate their points",
     "A discrete term with points sorted by x returns height times the linear interpolation between the two neighbouring points, the first/last y outside them and at the infinities, NaN for NaN, and an error if it has no points. Converting between point pairs, flat value lists and x/y lists loses nothing, sorting only permutes the points into ascending x order, and discretizing another term samples it at equally spaced values including both ends.",
     ["inputs"], "all crisp values and all lists of up to 5 (thorough 8) points",
     "Tests use fixed point lists; search and interpolation must be right for every list and value.",
     ["src/term/Discrete.cpp"],
     [("membership, sort, discretize, toPairs/toVector", "src/term/Discrete.cpp")], REAL)
prop("C09", "Activated and aggregated terms combine degrees as configured",
     "The membership of an activated term is the implication operator applied to the term's membership and the activation degree; the membership of an aggregated output is the aggregation operator folded over all its activated terms, 0 when nothing is activated. The activation degree of a term is the aggregation (plain sum without operator) of all its activations; grouping keeps one activation per distinct term in order; the highest activated term is the first with the largest positive degree. Copies behave the same and are independent, and a missing term, implication or aggregation is an error.",
     ["inputs", "configurations"], "all degrees and memberships, up to 3-4 activations, all combinations of common implication and aggregation operators",
     "Tests fold a few fixed activations.",
     ["src/term/Activated.cpp", "src/term/Aggregated.cpp"],
     [("Activated::membership", "src/term/Activated.cpp"), ("Aggregated::membership/activationDegree/grouped/highestActivatedTerm", "src/term/Aggregated.cpp")], REAL)
prop("C10", "Takagi-Sugeno consequents evaluate exactly",
     "A constant term returns its value wherever it is evaluated. A linear term returns the sum of each coefficient times the current value of the corresponding input variable plus the remaining constant coefficient, whatever the evaluation point, with missing coefficients ignored; without an engine it is an error, and a NaN input gives NaN. Clones are independent of their original.",
     ["inputs", "configurations"], "all coefficients, 0-3 input variables with any values, 0-5 coefficients",
     "Tests use one fixed engine and coefficient list.",
     ["src/term/Constant.cpp", "src/term/Linear.cpp"],
     [("membership()", "src/term/Linear.cpp"), ("membership()", "src/term/Constant.cpp")], REAL)
prop("C11", "Antecedents evaluate with the documented precedence",
     "The activation degree of a rule's antecedent is the conjunction and disjunction operators applied to its propositions with 'and' binding tighter than 'or', equal operators associating to the left and parentheses overriding both. Each proposition is the membership of its variable's current value in the named term (for an output variable, the activation degree of that term in its fuzzy output), passed through its hedges from the term outwards; the hedge 'any' gives 1 and a proposition on a disabled variable gives 0. Evaluating is repeatable, and it is an error exactly when an operator the antecedent uses is missing or the rule is not loaded.",
     ["inputs", "programs"], "all antecedents of up to 4 propositions with parentheses, hedges and disabled variables, all membership degrees",
     "Tests evaluate a few fixed rules; precedence, hedging and enabling combine over every expression shape and degree.",
     ["src/rule/Antecedent.cpp", "src/rule/Rule.cpp", "src/term/Function.cpp"],
     [("Antecedent::load and activationDegree", "src/rule/Antecedent.cpp"), ("infix to postfix conversion", "src/term/Function.cpp")], REAL)
prop("C12", "Rules fire with their weighted degree on enabled variables only",
     "A rule's activation degree is its weight times the degree of its antecedent, and it fires exactly when the rule is enabled and that degree is positive. Firing adds to each conclusion's enabled output variable, in the order written, the named term activated with the rule's implication operator and the rule's degree passed through that conclusion's own hedges; rules that do not fire and variables not concluded on are left alone. An unloaded rule cannot be used, and deactivating resets degree and triggered state.",
     ["inputs", "programs"], "rules with up to 3 conclusions, all weights and antecedent degrees, every on/off state of rule and variables",
     "Tests fire fixed rules with fixed weights; conclusions, hedges, weights and states combine freely.",
     ["src/rule/Rule.cpp", "src/rule/Consequent.cpp"],
     [("Rule::activateWith/trigger/deactivate", "src/rule/Rule.cpp"), ("Consequent::load/modify", "src/rule/Consequent.cpp")], REAL + " One genuine defect is listed in known-findings.txt (hedges leak into later conclusions).")
prop("C13", "The rule language accepts well-formed rules and refuses all others",
     "A rule text loads exactly when it is well formed (if, antecedent over known variables, hedges and terms with balanced parentheses, then, conclusions on output variables joined by and, optionally with and a number), and then carries the conclusions, hedges and weight as written. Any other text is refused with an error and leaves the rule unloaded. Loading a rule block loads all its good rules and reports an error exactly when one of them is bad; loading again gives the same.",
     ["programs"], "6 rule templates and every single-token edit, every prefix, any word of 1-3 printable characters at any position",
     "Tests check a dozen malformed rules; the parser must refuse every malformed text.",
     ["src/rule/Rule.cpp", "src/rule/Antecedent.cpp", "src/rule/Consequent.cpp", "src/rule/RuleBlock.cpp", "src/term/Function.cpp"],
     [("Rule::load/parse", "src/rule/Rule.cpp"), ("Antecedent::load", "src/rule/Antecedent.cpp"), ("Consequent::load", "src/rule/Consequent.cpp"), ("RuleBlock::loadRules", "src/rule/RuleBlock.cpp")], REAL + " One genuine defect is listed in known-findings.txt (connectives and parentheses inside propositions).")
prop("C14", "General, First and Last activate the documented rules",
     "General activation fires, in order, every enabled loaded rule with a positive degree. First (Last) activation fires, scanning from the first (last) rule, the configured number of loaded rules whose degree is positive and at least the threshold, by default one rule and threshold 0. A disabled rule keeps its place in that selection but does not fire; every rule ends the run with its own degree (0 if not loaded) and untriggered unless it fired.",
     ["inputs", "configurations"], "1-4 rules in every enabled/disabled/unloaded state, all degrees, weights and thresholds, counts 0-4",
     "Tests use fixed engines; which rules fire depends on every combination of degrees and states.",
     ["src/activation/General.cpp", "src/activation/First.cpp", "src/activation/Last.cpp", "src/rule/RuleBlock.cpp"],
     [("activate()", "src/activation/General.cpp, First.cpp, Last.cpp")], REAL)
prop("C15", "Highest and Lowest activate the rules of extreme degree",
     "Highest (Lowest) activation fires as many of the loaded rules with a positive degree as its count allows, by default one, choosing those of greatest (smallest) degree and firing them in descending (ascending) order of degree; a disabled rule keeps its place in that selection but does not fire. All other rules do not fire and end the run untriggered. Rules of equal degree may be chosen in any order.",
     ["inputs", "configurations"], "1-5 rules in every enabled/disabled/unloaded state, all degrees and weights, counts 0..n+1",
     "Tests use fixed engines; the selection must be right for every ordering of degrees.",
     ["src/activation/Highest.cpp", "src/activation/Lowest.cpp"],
     [("activate()", "src/activation/Highest.cpp, Lowest.cpp")], REAL)
prop("C16", "Proportional and Threshold activate as documented",
     "Proportional activation gives every loaded rule its share of the sum of the degrees of all loaded rules, so the shares keep their proportions and add up to one, and fires the enabled ones of positive degree with it. Threshold activation fires every enabled loaded rule whose degree is positive and satisfies the configured comparison (<, <=, =, !=, >=, >) with the threshold, keeping its degree. All other rules end the run untriggered, and the comparison and threshold are kept by configuring and cloning.",
     ["inputs", "configurations"], "1-4 rules in every enabled/disabled/unloaded state, all degrees, weights and thresholds, six comparisons",
     "Tests use fixed engines; normalization and comparison must be right for all degrees.",
     ["src/activation/Proportional.cpp", "src/activation/Threshold.cpp"],
     [("activate()", "src/activation/Proportional.cpp, Threshold.cpp"), ("Threshold::parseComparator", "src/activation/Threshold.cpp")], REAL)
prop("C17", "Integral defuzzifiers compute their documented value",
     "Over the midpoints of the equal subdivisions of a finite range, the centroid is the membership-weighted mean, the bisector the mean of the samples that split the area most evenly, and the smallest, largest and mean of maximum refer to the samples with the greatest membership. The result lies inside the range, is NaN when the range is not finite or the output is empty, and depends on the number of subdivisions only as configured. A clone or the defuzzifier selected by name gives the same value.",
     ["inputs", "configurations"], "all membership values at up to 7-9 samples, all finite ranges, activated terms with all degrees",
     "Tests compare a few shapes; the values must be right for every membership profile.",
     ["src/defuzzifier/Centroid.cpp", "src/defuzzifier/Bisector.cpp", "src/defuzzifier/SmallestOfMaximum.cpp", "src/defuzzifier/LargestOfMaximum.cpp", "src/defuzzifier/MeanOfMaximum.cpp", "src/defuzzifier/IntegralDefuzzifier.cpp"],
     [("defuzzify()", "src/defuzzifier/*.cpp")], REAL)
prop("C18", "Weighted defuzzifiers combine activations with inferred types",
     "The weighted sum is the sum over the distinct activated terms of aggregated degree times value, and the weighted average divides it by the sum of those degrees (NaN for an empty output or without weight); a term's value is the value itself for constant, linear and function terms, the inverse for monotonic terms in Tsukamoto mode, and the membership of the degree otherwise. In automatic mode the kind is inferred from the activated terms, and mixed or unsupported outputs are refused with an error. Clones give the same value, and anything that is not an aggregated output is refused.",
     ["inputs", "configurations"], "up to 4 activations over 3 terms, all degrees and values, four aggregations, every kind of term and forced type",
     "Tests defuzzify a few fixed outputs.",
     ["src/defuzzifier/WeightedAverage.cpp", "src/defuzzifier/WeightedSum.cpp", "src/defuzzifier/WeightedDefuzzifier.cpp"],
     [("defuzzify()", "src/defuzzifier/WeightedAverage.cpp, WeightedSum.cpp"), ("inferType", "src/defuzzifier/WeightedDefuzzifier.cpp")], REAL)
prop("C19", "Output variables keep, default and clip their value as documented",
     "When an enabled output variable is defuzzified, its value becomes the result if that is a number (infinities included), otherwise the previous value if locking is on and it is a number, otherwise the default value; it is clipped to the range exactly if the range is locked, and the value before the run becomes the previous value. A disabled variable, a missing or failing defuzzifier (an error) leave the values alone, and clearing forgets value, previous value and activations. The fuzzy output follows the variable's name, range and aggregation, and copies start in the same state and are independent.",
     ["inputs", "histories"], "every double as result, value, previous value, default and range; histories of 3-4 runs",
     "Tests walk a table of finite values and NaN; the state machine must hold for every double and history.",
     ["src/variable/OutputVariable.cpp", "src/variable/Variable.cpp"],
     [("OutputVariable::defuzzify/clear", "src/variable/OutputVariable.cpp"), ("Variable::setValue", "src/variable/Variable.cpp")], REAL + " One genuine defect is listed in known-findings.txt (locked previous value lags by one run).", ["output value after every run"])
prop("C20", "Fuzzification lists, describes and ranks the terms of a variable",
     "Fuzzifying a value lists every term of the variable once, in order, with its membership (NaN if it cannot be computed), and the fuzzy value text gives sign, degree and name of each term; for an output variable it gives every term's aggregated activation. The maximally activated terms are exactly those sharing the largest positive degree, the single highest is the first of them, and with no positive degree there is none (NaN). Sorting a variable's terms permutes them into ascending order of centroid.",
     ["inputs"], "up to 4 terms with any membership, failing terms included",
     "Tests use fixed variables; order and ties must be right for every combination of degrees.",
     ["src/variable/Variable.cpp", "src/variable/InputVariable.cpp", "src/variable/OutputVariable.cpp"],
     [("fuzzify, highestMembership, maxActivations, sort", "src/variable/Variable.cpp"), ("fuzzyOutputValue", "src/variable/OutputVariable.cpp")], REAL)
prop("C21", "A run depends only on the current inputs",
     "Processing an engine gives outputs, activations, rule degrees and triggered states that depend on the current inputs and configuration only, whatever was processed before, including runs with NaN inputs, failed runs and runs with parts disabled. Processing again without changes gives the same outputs, leaves the inputs as they are, and moves each output value to its previous value. Restarting forgets all input and output values and activations.",
     ["inputs", "histories"], "engines of six kinds, any inputs in each of 2-3 runs, NaN, failed and disabled runs before",
     "Tests run each input once on a fresh or benign history.",
     ["src/Engine.cpp", "src/rule/RuleBlock.cpp", "src/activation", "src/variable/OutputVariable.cpp"],
     [("Engine::process/restart", "src/Engine.cpp"), ("RuleBlock::activate", "src/rule/RuleBlock.cpp")], REAL)
prop("C22", "Copies are equivalent to and independent of their originals",
     "A copied (copy constructor, assignment or clone) engine has the same components, starts in the same state and gives the same outputs for the same inputs, before or after runs and with rules, blocks and variables disabled or weighted. Nothing in it refers to the original: its rules, activations and terms use its own variables, terms and operators, and changing, running or destroying either leaves the other as it was. The same holds for copied variables (terms, value, range) and rule blocks (operators, rules with text, weight and enabled state, to be loaded).",
     ["inputs", "configurations", "histories"], "engines of six kinds, any inputs and weights, every on/off state of a rule, block and variable, copies before and after runs",
     "Tests copy a few engines and compare text; equivalence and independence concern all later behaviour.",
     ["src/Engine.cpp", "src/rule/RuleBlock.cpp", "src/variable/Variable.cpp", "src/variable/OutputVariable.cpp", "src/term"],
     [("Engine::copyFrom", "src/Engine.cpp"), ("RuleBlock::copyFrom", "src/rule/RuleBlock.cpp"), ("OutputVariable::copyFrom", "src/variable/OutputVariable.cpp")], REAL)
prop("C23", "The outputs of a run follow from rules, operators and defuzzification",
     "For all inputs, the output of a Mamdani engine is the documented defuzzifier applied to the aggregation of its rules' implied conclusions, where each rule's degree is its weight times the combined memberships; the output of a Takagi-Sugeno or Tsukamoto engine is the weighted average or sum of its rules' conclusions. Rule blocks with different operators keep to their own. Outputs without any activation take the default value.",
     ["inputs", "configurations"], "2 inputs in a bounded range, 3-4 rules, symbolic weight, a dozen operator sets, six defuzzifiers",
     "Benchmarks compare a fixed grid of recorded values of the library itself.",
     ["src/Engine.cpp", "src/rule", "src/activation/General.cpp", "src/defuzzifier", "src/term", "src/norm"],
     [("Engine::process", "src/Engine.cpp"), ("RuleBlock::activate", "src/rule/RuleBlock.cpp")], REAL)
prop("C24", "A ready engine runs; readiness and type are reported exactly",
     "An engine is reported ready exactly when it has inputs, outputs with terms and defuzzifiers, aggregation for integral defuzzifiers, rule blocks with rules, and every conjunction, disjunction and implication operator its rules use; the report names exactly what is missing and a ready engine processes any inputs, NaN and infinities included, without error. The reported type (Mamdani, Larsen, Takagi-Sugeno, Tsukamoto, inverse Tsukamoto, hybrid, unknown) follows from its defuzzifiers, terms and implication. Configuring an engine sets the named operators in every rule block and output variable, each with objects of its own.",
     ["inputs", "configurations"], "2 inputs, 2 outputs, rules of 8 shapes, every operator present or missing; any inputs; every kind of defuzzifier and term",
     "Tests check a few complete and a few broken engines; missing parts combine freely.",
     ["src/Engine.cpp"],
     [("Engine::isReady/type/configure", "src/Engine.cpp")], REAL)
prop("C25", "Formulas evaluate with the documented precedence and functions",
     "A formula over variables and numbers evaluates with the documented precedence (prefix ! and ~, then ^, then * / %, then + -, then and, then or), ^ associating to the right and the other binary operators to the left, parentheses overriding both, and functions applied to their arguments, whatever the spacing. Every documented operator and function computes its mathematical meaning for every double (logical and comparison functions give 1 or 0 within the comparison tolerance). The prefix and postfix notations and the number of operations describe the same tree, and a copied tree evaluates the same.",
     ["inputs", "programs"], "all sequences of 3 binary operators with 9 parenthesis layouts, prefix operators anywhere, all 33 functions nested and in context; all operand values",
     "Tests evaluate a few formulas; precedence must hold for every combination of operators.",
     ["src/term/Function.cpp", "src/factory/FunctionFactory.cpp", "fuzzylite/Operation.h"],
     [("toPostfix and parse", "src/term/Function.cpp"), ("operator and function table", "src/factory/FunctionFactory.cpp")], REAL)
prop("C26", "Function terms see current variables; ill-formed formulas are refused",
     "The membership of a function term at x is its formula's value with x and the current values of its engine's input and output variables, stored variables otherwise, and values given for one evaluation replace stored ones; copies keep their own formula. Loading refuses, with an error, formulas that are empty, have unmatched parentheses, missing or left-over operands, or names that are neither variables, numbers nor functions, and accepts every well-formed one; any other bytes are either refused or give a function that can be evaluated. A function that is not loaded (or was unloaded) cannot be evaluated.",
     ["inputs", "programs"], "all sequences of up to 4-5 of 10 tokens, any name of 1-3 characters, any 1-3 bytes at 4 places of a formula; all variable values",
     "Tests load a few formulas and a few broken ones.",
     ["src/term/Function.cpp"],
     [("load, parse, membership, evaluate", "src/term/Function.cpp")], REAL)
prop("C27", "Numeric operations keep their documented laws",
     "For every double, equality holds exactly for identical values, two NaN, or values closer than the tolerance; less, greater and their or-equal forms are consistent with it, so exactly one of less, equal, greater holds unless one value is NaN; minimum, maximum, bounding and open or closed range tests follow the order. Rounding gives the nearest integer with halves away from zero, scaling maps one range linearly onto another (clipped if bounded), and midpoints are the middles of equal parts. Sum, mean, sample variance and standard deviation equal their definitions (NaN for no values, no variance for one).",
     ["inputs"], "every IEEE double (comparisons, extremes, arithmetic); all reals in bounded ranges (rounding, scaling, midpoints, statistics of up to 4-5 values)",
     "Tests sample a handful of values.",
     ["fuzzylite/Operation.h"],
     [("Operation", "fuzzylite/Operation.h")], REAL)
prop("C28", "Numbers and text convert exactly",
     "A text converts to a number exactly when it is, from end to end (white space before it aside), a decimal number with optional sign, fraction and exponent, or nan, inf or -inf; anything else is refused with an error or gives the alternative and says so, and lists convert token by token. Printing gives as many decimals as asked for (the global setting by default), prints values smaller than the last decimal as zero, and names NaN and infinities. Reading a printed value gives it back within the printed decimals.",
     ["inputs"], "any text of up to 4-5 bytes, lists of up to 3 tokens; any real in [-1e6,1e6] with 0-9 decimals",
     "Tests convert a few values.",
     ["fuzzylite/Operation.h"],
     [("toScalar, toScalars, isNumeric, str", "fuzzylite/Operation.h")], REAL)
prop("C29", "Text operations transform exactly what they name",
     "Replacing all (or only the first) matches of a text substitutes exactly the leftmost non-overlapping matches and keeps everything else, and an empty search text changes nothing. Splitting gives the parts between delimiters in order, optionally without the empty ones, and joining all the parts with the delimiter gives the text back; trimming removes exactly the white space at both ends. A valid name keeps exactly the letters, digits, underscores and dots of a text and is never empty.",
     ["inputs"], "any text of up to 5-6 bytes, any search text or delimiter of 0-2 bytes, replacements including the searched text",
     "Tests split and replace a few texts.",
     ["fuzzylite/Operation.h"],
     [("findReplace, split, join, trim, validName", "fuzzylite/Operation.h")], REAL)
prop("C30", "Parameter texts of terms and activation methods describe them fully",
     "The parameters written by a term or an activation method, in the documented order and with the height only when it is not 1, configure another object of its kind to be equal to it (within the printed decimals). Configuring from any text sets exactly the named parameters: too few values or text that is not numeric is refused with an error, an empty text changes nothing, discrete terms take pairs in order, and linear, constant and function terms take theirs.",
     ["inputs"], "every parameter of the 21 terms and 7 activation methods, any count of values, any malformed token at any place",
     "Tests configure a few terms from a few texts.",
     ["src/term", "src/activation", "fuzzylite/term", "fuzzylite/activation"],
     [("parameters/configure of terms", "src/term"), ("parameters/configure of activation methods", "src/activation")], REAL)
prop("C31", "An exported FLL engine imports back as the same engine",
     "Exporting an engine to FLL and importing the text gives an engine of the same structure and values (names, descriptions, ranges, flags, defaults, operators, activation methods, defuzzifiers, terms and rules in order) within the printed decimals, and the imported engine exports to the same text. This holds for every kind of term, operator and rule, for any separator and indent, and for every component exported on its own.",
     ["inputs", "configurations", "programs"], "every term kind, operator, activation, defuzzifier and rule shape; symbolic parameters, flags, weights and names; two layouts",
     "Tests round-trip the example engines only.",
     ["src/imex/FllExporter.cpp", "src/imex/FllImporter.cpp"],
     [("FllExporter::toString", "src/imex/FllExporter.cpp"), ("FllImporter::process", "src/imex/FllImporter.cpp")], REAL)
prop("C32", "FLL text is imported faithfully or refused with an error",
     "Any text given to the FLL importer is either refused with an error or gives an engine whose export imports back to the same export; unknown keys, unknown operators, terms and values, missing separators and keys out of place are refused, never silently dropped. Comments, white space and empty lines change nothing, names of blocks, descriptions and rules that do not parse (not loaded) are kept as written, and the keys of former versions mean what they meant.",
     ["inputs", "programs"], "any 1-3 bytes at several places of an engine's text, every key displaced, every listed defect",
     "Tests import a few well-formed and a few ill-formed texts.",
     ["src/imex/FllImporter.cpp"],
     [("FllImporter", "src/imex/FllImporter.cpp")], REAL)
prop("C33", "FIS text carries everything the format has and is refused otherwise",
     "Exporting an engine to FIS and importing the text gives the same engine in everything the format carries: variables with ranges and names, terms with class and parameters in the order of the format, operators, defuzzifier, and rules with their antecedents, conclusions, hedges, connectives and weights, the rule blocks being merged in order. Rules that FIS cannot express (mixed connectives) are refused with an error when exporting. Importing any text either gives an engine or an error, comments, quotes and blank space change nothing, and unknown keys, terms, operators and rule indices are refused.",
     ["inputs", "configurations", "programs"], "21 term kinds with symbolic parameters, every operator, rules of all shapes, 61 listed defects, any 1-2 bytes at several places",
     "Tests round-trip the example engines only.",
     ["src/imex/FisExporter.cpp", "src/imex/FisImporter.cpp"],
     [("FisExporter", "src/imex/FisExporter.cpp"), ("FisImporter", "src/imex/FisImporter.cpp")], REAL)
prop("C34", "FCL text carries everything the format has and is refused otherwise",
     "Exporting an engine to FCL and importing the text gives the same engine in everything the format carries: variables with ranges, default values and locks, terms with their parameters, operators and defuzzifiers by their FCL names, and rule blocks with their rules and weights. Importing any text either gives an engine or an error: comments, blank space and whatever follows the function block change nothing, and unknown keys, terms, operators, missing separators and incomplete blocks are refused. Rules that do not parse are kept as written but not loaded.",
     ["inputs", "configurations", "programs"], "21 term kinds with symbolic parameters, every operator, 8 layouts, 57 listed defects, any 1-2 bytes at several places",
     "Tests round-trip the example engines only.",
     ["src/imex/FclExporter.cpp", "src/imex/FclImporter.cpp"],
     [("FclExporter", "src/imex/FclExporter.cpp"), ("FclImporter", "src/imex/FclImporter.cpp")], REAL)
prop("C35", "FLD datasets hold the engine's values at every grid point in order",
     "A dataset exported by number of values has one row for every point of the grid, in order and including both ends of each active variable's range, with as many values per variable as given or the largest root that fits the total given; variables that are not active keep their value. Each row holds the inputs and the outputs the engine computes for them, as the header and the chosen columns and separator say. A dataset read from a text takes its rows in order, skipping comments and blank lines, and refuses rows with too few or ill-formed values.",
     ["inputs", "configurations"], "1-3 inputs, up to 5 values each, all ranges and terms symbolic; read texts of up to 3 rows with symbolic values",
     "Tests export a few fixed grids; which rows exist and in which order must be right for every size.",
     ["src/imex/FldExporter.cpp", "fuzzylite/Operation.h"],
     [("FldExporter::write", "src/imex/FldExporter.cpp"), ("Op::increment", "fuzzylite/Operation.h")], REAL)
prop("C36", "Factories construct exactly what is registered, and everyone uses them",
     "Each factory constructs, for every registered key and no other, a new object of the registered kind in its initial state, and refuses every other key with an error; after any history of registering and deregistering it has exactly the registered keys, and the latest object for each. Importers, rules, formulas and engine configuration take operators, hedges, terms and functions from the factory manager, so objects of one's own work by their name and are refused once unregistered. Functions and operators of formulas compute what their name says, with the documented arity, precedence and associativity.",
     ["histories", "inputs", "configurations"], "6 factories and the function factory, every key and every one-byte edit of it, histories of 3-4 operations, symbolic arguments of functions",
     "Tests construct each default key once.",
     ["src/factory", "fuzzylite/factory"],
     [("ConstructionFactory, CloningFactory", "fuzzylite/factory"), ("FunctionFactory", "src/factory/FunctionFactory.cpp"), ("FactoryManager", "src/factory/FactoryManager.cpp")], REAL)
prop("C37", "Benchmarks run every expected row and count errors as documented",
     "A benchmark runs every expected row of the dataset, in order and from a fresh start, through the engine, and keeps the obtained values. It counts non-finite errors and accuracy errors exactly as documented for any tolerance, adds the squared errors, and its results (in every unit and table format) report those numbers, the times, their mean and deviation. Datasets by number of values are the same grids as those of the FLD exporter, and datasets from text take each row of values in order.",
     ["inputs", "configurations"], "any doubles as expected and obtained values and tolerance, grids of 1-27 values for 1-3 inputs, up to 4 lines of text, 6 kinds of engines",
     "Tests run a few benchmarks on example datasets only; error counts must hold for all values, non-finite ones included.",
     ["src/Benchmark.cpp", "fuzzylite/Benchmark.h"],
     [("prepare, run, errors, results, convert, format", "src/Benchmark.cpp")], REAL)
prop("C38", "Components are kept in order, found by name and owned exactly once",
     "Engines, variables, rule blocks and fuzzy outputs keep their components in ordered lists: after any sequence of adding, inserting, replacing and removing, positions and names find exactly the components a list would have (the first one of a name), and unknown names and positions are refused with an error. Owners delete each component they hold exactly once, and none that was removed. What is set on a component is what is read from it, and values set by name reach the variable of that name.",
     ["histories", "inputs"], "sequences of 2-3 operations on lists of up to 2 elements with symbolic one-byte names at every position, any doubles",
     "Tests add a few components; order, name clashes and ownership depend on the history of operations.",
     ["src/Engine.cpp", "src/variable/Variable.cpp", "src/rule/RuleBlock.cpp", "src/term/Aggregated.cpp", "fuzzylite"],
     [("Engine lists and lookups", "src/Engine.cpp"), ("Variable terms", "src/variable/Variable.cpp"), ("RuleBlock rules", "src/rule/RuleBlock.cpp"), ("Aggregated terms", "src/term/Aggregated.cpp")], REAL)
prop("C39", "Exported C++, Java and R programs carry the whole engine",
     "The C++ and Java programs exported from an engine, when executed, build an engine of the same structure and values within the printed decimals: every term, operator, activation method, defuzzifier, flag, range, default value, text and rule, in order, with names or with kinds and numbers for variables, and with or without the namespace. The exported R script holds the engine's name, description and FLL text, the dataset of the two chosen inputs (others keeping their value), and both plots for every chosen output.",
     ["inputs", "configurations", "programs"], "21 term kinds with symbolic parameters, every operator, both namespaces, any 2 bytes in texts; discrete terms of height 1",
     "Tests look for a few lines of a few exports and never execute them.",
     ["src/imex/CppExporter.cpp", "src/imex/JavaExporter.cpp", "src/imex/RScriptExporter.cpp", "src/imex/Exporter.cpp"],
     [("CppExporter", "src/imex/CppExporter.cpp"), ("JavaExporter", "src/imex/JavaExporter.cpp"), ("RScriptExporter", "src/imex/RScriptExporter.cpp")], REAL)
prop("C40", "Files hold the exported text and give what their text gives",
     "Every exporter that writes to a file leaves in it exactly the text that it exports (the general ones with a last newline), for every engine, dataset and script, in place of whatever the file held before. Importing an engine from a file gives what importing its text gives, whatever the line ends and the last line, and an importer of the user's own gets the whole text. A file that cannot be created or opened is refused with an exception that names it, and nothing else is written.",
     ["inputs", "configurations"], "engines of 6 kinds; 1-9 rows; any 1-2 bytes at the end of a text, any 3 in a text for an own importer; file streams modelled as an in-memory table",
     "Tests never import from nor export engines to files, and cannot try every content, previous content and line end.",
     ["src/imex/Exporter.cpp", "src/imex/Importer.cpp", "src/imex/FldExporter.cpp", "src/imex/RScriptExporter.cpp"],
     [("Exporter::toFile", "src/imex/Exporter.cpp"), ("Importer::fromFile", "src/imex/Importer.cpp"), ("FldExporter::toFile", "src/imex/FldExporter.cpp"), ("RScriptExporter::toFile", "src/imex/RScriptExporter.cpp")], REAL)
prop("C41", "The command line converts, evaluates and refuses as its help says",
     "Options are the pairs given, later ones replacing earlier ones, two plain files are input and output, and options without value and unknown ones (among several) are refused; a file is converted to exactly what the exporter of the output format makes of what the importer of the input format reads, with formats taken from options or extensions, data taken from the rows or grid asked for, and the given number of decimals. The interactive console evaluates the engine on the values typed, keeps the current value for those not typed or not numbers, and restarts, discards, processes and ends exactly on the keys its help tells. Benchmarks give a header and one row of results for every engine listed; whatever cannot be opened, read or recognised gives a failure and never a result.",
     ["inputs", "histories", "configurations"], "0-3 options; sessions of 4 steps and of 3 arbitrary keys, 1-3 inputs; 24 pairs of formats; 1-2 benchmarks",
     "No test covers the console, and sessions are histories of arbitrary keys.",
     ["src/Console.cpp"],
     [("Console::parse", "src/Console.cpp"), ("Console::process", "src/Console.cpp"), ("Console::interactive", "src/Console.cpp"), ("Console::benchmark", "src/Console.cpp"), ("Console::main", "src/Console.cpp")], REAL)
prop("C42", "Global settings do what is documented and nothing else",
     "Logging and debugging only add messages: with any combination of the flags, switched at any time between building, running and restarting, engines compute, activate, sort, export, import and fail exactly as without, and nothing is printed that was not asked for. The comparison tolerance set is the one every comparison, threshold, rectangle and logical function uses, unless another is given; the decimals and the number format change how numbers are printed and no value; the default resolution is that of defuzzifiers made later and of no other. After any history of settings each has the value given last, and the documented default before.",
     ["inputs", "configurations", "histories"], "engines of 6 kinds and 7 activation methods with all inputs, flags changed at 3 points; all pairs of doubles under every tolerance; every history of 3 settings; 0-9 decimals",
     "Tests run with one fixed combination of global settings.",
     ["src/fuzzylite.cpp", "fuzzylite/fuzzylite.h", "fuzzylite/Operation.h", "src/Engine.cpp", "src/defuzzifier/IntegralDefuzzifier.cpp"],
     [("fuzzylite settings", "src/fuzzylite.cpp"), ("FL_LOG, FL_DBG", "fuzzylite/fuzzylite.h"), ("comparisons, str", "fuzzylite/Operation.h"), ("IntegralDefuzzifier::defaultResolution", "src/defuzzifier/IntegralDefuzzifier.cpp")], REAL)
prop("C43", "Errors name what was refused and leave everything usable",
     "What is refused is refused with the library's exception, whose message names what was refused (the unknown name, word, key, formula or rule, and for runs what is missing), keeping its traces in order. After a failure nothing has changed that the failing call did not document: lookups leave the engine alone, a rule that does not parse is not loaded and keeps its text, the other rules of its block are loaded. Once repaired, an engine whose run failed, a rule, a formula or a factory works exactly as one that never failed.",
     ["inputs", "histories"], "any 2 letters or bytes as the unknown word in lookups, factories, rules, formulas and three formats; 12 ways in which a run fails with all inputs before and after the repair",
     "Tests check that some errors are thrown, not what they name nor what is left behind for every word and input.",
     ["src/Exception.cpp", "src/Engine.cpp", "src/rule", "src/term/Function.cpp", "fuzzylite/factory", "src/imex"],
     [("Exception", "src/Exception.cpp"), ("Engine::process", "src/Engine.cpp"), ("Rule::load, RuleBlock::loadRules", "src/rule"), ("Function::load", "src/term/Function.cpp"), ("constructObject", "fuzzylite/factory")], REAL)
prop("C44", "Notations and descriptions match the components they describe",
     "Loaded antecedents, consequents and formulas are described in prefix, infix and postfix notation exactly as their structure, hedges and operators are, and a description of an antecedent or formula that needs no parentheses, or of a consequent, loads again as the same. Every term, variable, rule, defuzzifier, norm and formula element describes itself with its own class, name and parameters, in the form its exporter writes; monotonic terms tell the direction their parameters give, discrete terms and formulas their own points, values and engine. Copies are described alike and their changes stay their own.",
     ["programs", "inputs", "configurations"], "antecedents of 1-4 propositions with 0-2 hedges, conclusions of 1-3, formulas of up to 4 operators, every term kind with any parameters",
     "Tests compare a few notations of fixed rules and formulas.",
     ["src/rule/Antecedent.cpp", "src/rule/Consequent.cpp", "src/rule/Expression.cpp", "src/term"],
     [("Antecedent::toPrefix, toInfix, toPostfix", "src/rule/Antecedent.cpp"), ("Consequent::toString", "src/rule/Consequent.cpp"), ("Proposition, Operator", "src/rule/Expression.cpp"), ("Function::Node, Function::Element", "src/term/Function.cpp")], REAL)
prop("C45", "Exporters, importers and factories follow their settings, copies included",
     "After any history of settings, exporters write with exactly the separator, indent, header, columns, namespace, variable names and colours set last, and importers read with the separator set; texts written with one separator are read the same by an importer with it. Copies and clones of exporters, importers and factories have the same settings and registrations and write, read and construct the same, and changing one changes no other.",
     ["histories", "configurations"], "engines of 6 kinds with symbolic ranges, every history of 3 settings per exporter, separators of any 1-2 bytes, indents of 0-3 blanks, 7 factories with a symbolic key",
     "Tests use default settings nearly everywhere and never compare copies of exporters or factories.",
     ["src/imex", "fuzzylite/factory", "src/factory"],
     [("FllExporter, FllImporter settings", "src/imex/FllExporter.cpp"), ("FldExporter settings", "src/imex/FldExporter.cpp"), ("CppExporter, JavaExporter, RScriptExporter settings", "src/imex"), ("ConstructionFactory, CloningFactory copies", "fuzzylite/factory")], REAL)
prop("C46", "Every object is released exactly once, whatever is refused or fails",
     "Whatever the library makes or is given (engines, variables, terms, rules, operators, formulas, factories' objects) is released exactly once when its owner is released or it is replaced, and never used after that, and what is handed back belongs to the caller. This holds too when a rule, formula, parameter, name, row or text to import is refused at any place, and when a run fails: nothing is left behind. Copies, assignments (to itself too) and clones share nothing with what they were made of.",
     ["inputs", "histories", "programs"], "rules, formulas and FLL, FIS and FCL texts with any one edit (antecedents and consequents with two), histories of 2-3 operations on engines of 6 kinds and on every kind of part",
     "Tests never look at what is left allocated, and leaks and double releases hide in the paths of refused texts.",
     ["src/rule", "src/term/Function.cpp", "src/Engine.cpp", "src/imex", "src/variable", "fuzzylite/factory"],
     [("Antecedent::load, Consequent::load, Rule", "src/rule"), ("Function::parse, Function::Node", "src/term/Function.cpp"), ("Engine::configure, copyFrom, ~Engine", "src/Engine.cpp"), ("importers", "src/imex"), ("CloningFactory", "fuzzylite/factory/CloningFactory.h")], REAL)
