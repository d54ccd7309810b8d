package h

import (
	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

var parseOpts = []helium.ParseOption{
	helium.ParseRecover, helium.ParseNoEnt, helium.ParseDTDLoad, helium.ParseDTDAttr, helium.ParseDTDValid, helium.ParseNoError, helium.ParseNoWarning,
	helium.ParsePedantic, helium.ParseNoBlanks, helium.ParseXInclude, helium.ParseNoNet, helium.ParseNoDict, helium.ParseNsClean, helium.ParseNoCDATA,
	helium.ParseNoXIncNode, helium.ParseCompact, helium.ParseNoBaseFix, helium.ParseHuge, helium.ParseIgnoreEnc, helium.ParseBigLines,
}

var subsetOpts = []helium.LoadSubsetOption{helium.DetectIDs, helium.CompleteAttrs, helium.SkipIDs}

// P26_parse: every 64-bit starting value, every one of the 20 parse options set (once and twice), every option tested before and after.
func P26_parse() {
	before := helium.ParseOption(sym.U64("start"))
	i := sym.Choice("set", len(parseOpts))
	after := before
	after.Set(parseOpts[i])
	for j, o := range parseOpts {
		if j == i {
			sym.Assert(after.IsSet(o), "an option that was set does not test as set")
			continue
		}
		sym.Assert(after.IsSet(o) == before.IsSet(o), "setting one parse option changed another one")
	}
	again := after
	again.Set(parseOpts[i])
	sym.Assert(again == after, "setting a parse option twice differs from setting it once")
	sym.Reach("done")
}

// P26_parse_seq: from the empty set, every sequence of two (thorough: three) parse options set, every option then tested.
func P26_parse_seq() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	var on [20]bool
	var v helium.ParseOption
	for k := 0; k < n; k++ {
		i := sym.Choice("set"+string(rune('0'+k)), len(parseOpts))
		on[i] = true
		v.Set(parseOpts[i])
	}
	for j, o := range parseOpts {
		sym.Assert(v.IsSet(o) == on[j], "an option tests as set without having been set, or the reverse")
	}
	sym.Reach("done")
}

// P26_subset: every 64-bit starting value, every one of the 3 subset loading options.
func P26_subset() {
	before := helium.LoadSubsetOption(sym.U64("start"))
	i := sym.Choice("set", len(subsetOpts))
	after := before
	after.Set(subsetOpts[i])
	for j, o := range subsetOpts {
		if j == i {
			sym.Assert(after.IsSet(o), "a subset option that was set does not test as set")
			continue
		}
		sym.Assert(after.IsSet(o) == before.IsSet(o), "setting one subset option changed another one")
	}
	again := after
	again.Set(subsetOpts[i])
	sym.Assert(again == after, "setting a subset option twice differs from setting it once")
	sym.Reach("done")
}

// P26_subset_seq: from the empty set, every sequence of two subset options.
func P26_subset_seq() {
	var on [3]bool
	var v helium.LoadSubsetOption
	for k := 0; k < 2; k++ {
		i := sym.Choice("set"+string(rune('0'+k)), len(subsetOpts))
		on[i] = true
		v.Set(subsetOpts[i])
	}
	for j, o := range subsetOpts {
		sym.Assert(v.IsSet(o) == on[j], "a subset option tests as set without having been set, or the reverse")
	}
	sym.Reach("done")
}
