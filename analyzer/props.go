package main

// Property says how one property is decided.
type Property struct {
	Rules   []Rule
	Explain string
	Assume  []string
}

const equivText = "The value graph of the code (every call inlined, branches as conditional terms, loops as recurrences and folds, memory as versioned cells) and that of the reference formula have the same normal form for all inputs."

var equiv = Rule{Name: "equiv", Text: equivText, Run: pairsRule}

var assumeEquiv = []string{
	"Floating point is treated as real arithmetic with named library functions: the property is about the formula, not about its rounding.",
	"Integers do not overflow.",
	"Pointer arguments of distinct parameters may alias only where the code compares or the driver passes them as the same value; input object graphs are unshared unless reached through the same path.",
	"The Go type checker, x/tools SSA construction and the value graph engine in /verif/analyzer are trusted.",
}

const explainEquiv = "Each driver pair in /verif/ref puts the exported entry points next to a reference implementation written from the osu! definition; the analyzer derives both value graphs symbolically from the source and proves them equal, or reports the differing construct."

var properties = map[string]*Property{}

func init() {
	for _, id := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C28", "C29", "C30"} {
		properties[id] = &Property{Rules: []Rule{equiv}, Explain: explainEquiv, Assume: assumeEquiv}
	}
	failures := Rule{"reach", reachText, siteRule(func(r string) bool { return r != "loop" })}
	properties["C26"] = &Property{Rules: append([]Rule{failures}, failureRules...), Explain: explainSites, Assume: assumeSites}
	loops := Rule{"reach", reachText, siteRule(func(r string) bool { return r == "loop" })}
	properties["C27"] = &Property{Rules: []Rule{loops, {"loop", loopText, nil}}, Explain: explainSites, Assume: assumeSites}
	properties["C10"] = &Property{Rules: []Rule{{"input-write", inputWriteText, inputWrites}}, Explain: explainEff, Assume: assumeEff}
	properties["C11"] = &Property{Rules: []Rule{{"shared-write", sharedWriteText, sharedWrites}, {"deterministic", orderText, nil}}, Explain: explainEff, Assume: assumeEff}
}

const explainEff = "The obligations are the reachable functions; each is discharged when none of its writes (calls) is a forbidden one."

var assumeEff = []string{
	"The effects of library functions are those listed in analyzer/eff/library.go; a function not listed is reported.",
	"No code uses unsafe or assembly (both are reported).",
	"The implementations of an interface of the module are the types of the module.",
	"The Go type checker, x/tools SSA construction and the points-to analysis in /verif/analyzer/eff are trusted.",
}

const explainSites = "The drivers in /verif/ref call the exported entry points with arbitrary arguments. The analyzer derives the value graph of everything they reach and, for each instruction that can fail and each loop, the exact condition to get there; the obligation follows from that condition by cases, linear integer arithmetic and induction over the loops around it, or is reported."

const reachText = "The analyzer could follow everything that the driver reaches, and found constructs to decide there."

const loopText = "On every way for the loop to go on there is a quantity that comes closer to its bound by a fixed amount in every iteration, or a line of finite input is used up."

var failureRules = []Rule{
	{"index", "An index is not negative and below the length.", nil},
	{"slice", "The bounds of a slice expression are in order and not above the capacity.", nil},
	{"make", "A length to allocate is not negative and not beyond what memory can have.", nil},
	{"divide", "An integer divisor is not zero.", nil},
	{"shift", "A shift count is not negative.", nil},
	{"assert", "A value has the type it is asserted to have.", nil},
	{"nil", "A pointer, function, interface or map that is used is not nil.", nil},
	{"panic", "An explicit panic is not reached.", nil},
}

var assumeSites = []string{
	"Integers do not overflow; conversions of floats to integers and float steps of loops are exact.",
	"Readers supply finitely many bytes; library functions return, do not panic, and return what their documentation says; package variables of libraries are set.",
	"The functions named opaque in the driver (subdivision of Bezier curves, stacking) are not looked into: the property leaves them out, or another driver does.",
	"Strings and slices that exist have fewer than 2^40 elements.",
	"The Go type checker, x/tools SSA construction and the value graph engine in /verif/analyzer are trusted.",
}
