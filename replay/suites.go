package main

import "math/rand"

func weights(base int, over map[kind]int) (r [nKinds]int) {
	for i := range r {
		r[i] = base
	}
	r[kExtAttr], r[kDocType], r[kNamed], r[kNamedVoid], r[kPI], r[kComment] = base/3, base/6, base/2, base/3, base/3, base/3
	for k, w := range over {
		r[k] = w
	}
	return
}

func allVals(over map[valKind]int) map[valKind]int {
	m := map[valKind]int{vNil: 3, vStr: 20, vStringer: 6, vScalar: 12, vBytes: 6, vKey: 12, vFn: 4, vRawFn: 2, vAny: 4, vValue: 4, vConcat: 5, vNode: 4, vNilAny: 1, vCounted: 3}
	for k, w := range over {
		m[k] = w
	}
	return m
}

var elems = []kind{kElement, kVoid, kNamed, kNamedVoid}

func render(p profile, ft features) suite {
	return func(r *rand.Rand, st *stats) *failure { return trial(r, &p, ft, st) }
}

func init() {
	all := weights(12, nil)
	P := func(over map[kind]int, vals map[valKind]int, depth int, top ...kind) profile {
		return profile{kinds: weights(12, over), vals: allVals(vals), top: top, depth: depth, nilPct: 4, words: 4}
	}
	attrs := map[kind]int{kAttr: 25, kBool: 8, kDelim: 40, kExtAttr: 4, kCollection: 20, kConditional: 10, kWhen: 6}
	conds := map[kind]int{kAttr: 20, kBool: 8, kDelim: 25, kExtAttr: 4, kCollection: 20, kConditional: 45, kWhen: 25}
	_ = all
	inWords := func(p profile, pct int) profile { p.words = pct; return p }
	mixed := func(p profile) profile { p.mixed = true; return p }
	errsP := func(p profile, n int) profile { p.errs = n; return p }

	suites["C01"] = []suite{
		render(P(nil, map[valKind]int{vStr: 60, vStringer: 40, vKey: 40, vAny: 15}, 2, kText, kElement, kAttr, kImperative, kComment, kFragment, kDelim), features{}),
		render(inWords(P(nil, map[valKind]int{vStr: 60, vStringer: 40, vKey: 40, vAny: 15}, 2), 80), features{}),
	}
	suites["C02"] = []suite{
		render(P(map[kind]int{kText: 30, kAttr: 30, kFragment: 30, kComment: 30, kPI: 20}, map[valKind]int{vScalar: 60, vConcat: 15, vValue: 12, vNode: 15, vBytes: 15, vAny: 10}, 3,
			kText, kComment, kAttr, kFragment, kPI, kElement), features{altered: true}),
	}
	suites["C03"] = []suite{
		render(P(map[kind]int{kIterate: 20, kIterateKey: 20, kYield: 20}, map[valKind]int{vKey: 60, vFn: 30, vRawFn: 10, vCounted: 30}, 4), features{repeat: 4, counts: true}),
		render(P(nil, map[valKind]int{vKey: 60, vFn: 30, vRawFn: 10, vCounted: 30}, 2, kText, kAttr, kDelim, kElement), features{repeat: 6, counts: true}),
	}
	suites["C04"] = []suite{
		render(P(nil, nil, 5), features{}),
		render(P(attrs, nil, 4, elems...), features{}),
		render(inWords(P(nil, nil, 3), 60), features{}),
		nameSuite,
	}
	suites["C05"] = []suite{
		render(mixed(P(attrs, nil, 4, elems...)), features{}),
		render(P(map[kind]int{kImperative: 60}, nil, 3, kImperative), features{}),
	}
	suites["C06"] = []suite{
		render(P(conds, nil, 5, elems...), features{}),
		render(mixed(P(conds, nil, 5, append(elems, kConditional, kWhen)...)), features{}),
	}
	suites["C07"] = []suite{
		render(P(map[kind]int{kDelim: 90, kConditional: 20, kCollection: 15, kWhen: 10}, map[valKind]int{vKey: 40, vNil: 10, vConcat: 15, vBytes: 15}, 3, append(elems, kDelim, kDelim, kImperative)...), features{}),
	}
	suites["C08"] = []suite{
		render(P(map[kind]int{kIterate: 40, kIterateKey: 40, kYield: 40}, map[valKind]int{vFn: 40, vKey: 60}, 5, kIterate, kIterateKey, kYield, kElement), features{}),
	}
	suites["C09"] = []suite{
		render(P(map[kind]int{kImperative: 60, kAttr: 20, kDelim: 30}, nil, 4, kImperative), features{}),
	}
	suites["C10"] = []suite{
		render(errsP(P(nil, nil, 5), 120), features{faults: true}),
		render(errsP(P(map[kind]int{kImperative: 40, kYield: 25, kIterate: 25, kExt: 30, kConditional: 25, kCollect: 25}, nil, 4), 60), features{faults: true}),
	}
	suites["C11"] = []suite{
		render(mixed(P(conds, map[valKind]int{vKey: 40, vFn: 15}, 5)), features{repeat: 4, concurrent: true, altered: true}),
		render(P(map[kind]int{kImperative: 40, kDelim: 40}, nil, 4), features{repeat: 4, concurrent: true, altered: true}),
	}
	suites["C12"] = []suite{
		render(mixed(P(attrs, map[valKind]int{vConcat: 20, vBytes: 20, vNode: 20, vValue: 10}, 4, append(elems, kCollection, kConditional)...)), features{altered: true}),
		render(P(nil, map[valKind]int{vConcat: 20, vBytes: 20, vNode: 20}, 4), features{altered: true}),
	}
	suites["C13"] = []suite{
		render(mixed(P(conds, nil, 5, elems...)), features{repeat: 8}),
		render(P(nil, nil, 4), features{repeat: 4}),
	}
	nils := func(p profile) profile { p.nilPct = 35; return p }
	suites["C21"] = []suite{
		render(nils(mixed(P(nil, map[valKind]int{vNil: 40, vNilAny: 20, vNode: 15}, 5))), features{faults: true}),
		render(errsP(nils(P(map[kind]int{kImperative: 40, kConditional: 40, kCollection: 30, kCollect: 40}, map[valKind]int{vNil: 40}, 4)), 30), features{}),
	}
}
