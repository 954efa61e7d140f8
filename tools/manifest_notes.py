NOTE["default"] = ("Decides, for all inputs, that the value graph of the code equals that of a reference written from the osu! "
  "definition; anything the engine cannot decide is reported as a violation. Trusts the Go type checker, x/tools SSA and the "
  "value-graph engine; floating point is treated as real arithmetic (rounding is not part of the property), integers as unbounded.")
NA = {}
PT = "static effect analysis: interprocedural points-to analysis (SSA, inclusion based, field and call-site sensitive) with effect rules"
TECH["C10"] = PT
TECH["C11"] = PT
NOTE["C10"] = ("Every write that a calculation can reach is resolved to the memory it may change; none may be memory that its arguments "
  "lead to. Flow-insensitive, hence sound for all orders and interleavings; calls the analysis cannot resolve are reported. Trusts the "
  "Go type checker, x/tools SSA, the points-to analysis and the table of library effects in analyzer/eff/library.go.")
NOTE["C11"] = ("Every write of every reachable function is resolved to the memory it may change; none outside of initialisation may be reachable "
  "from a package-level variable, and no goroutine, channel, map iteration, address or undeterministic library function may be used. "
  "Trusts the Go type checker, x/tools SSA, the points-to analysis and the table of library effects in analyzer/eff/library.go.")
OB = "static proof of the obligations of every instruction (loop) from its path condition: value graph, linear arithmetic, induction over loops"
TECH["C26"] = OB
TECH["C27"] = OB
NOTE["C26"] = ("For every instruction reachable from the entry points that can fail, the condition to get there is derived from the source and "
  "must imply that it does not fail; what cannot be proved is reported. Leaves out Bezier subdivision and stacking, as the property does. Trusts the Go "
  "type checker, x/tools SSA and the value-graph engine; integers are unbounded, floats real numbers; objects given to rating are not nil.")
NOTE["C27"] = ("For every loop reachable from the entry points, each way to go on must have a ranking quantity; a loop for which none is found is "
  "reported. Leaves out Bezier subdivision, as the property does. Trusts the Go type checker, x/tools SSA and the value-graph engine; floats are real numbers, "
  "so steps lost to rounding are not seen.")

NOTE["C21"] = ("Decides, for every list of up to three objects of any kinds and nearly every combination of four, that the stack indices and offsets that the "
  "code computes equal those of a reference of the osu! algorithm, for all times, positions, difficulty settings, leniencies and (up to three objects) file versions and mod "
  "variants; longer lists are not decided, as no invariant over them is found. That every beatmap is stacked, with what it ends up with, is decided for all files. Anything "
  "undecided is a violation. Trusts the Go type checker, x/tools SSA and the value-graph engine; floats are real numbers.")
