package h

import (
	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/mlange-42/bbn/logic"
)

func init() {
	All["LogicCountMany"] = LogicCountMany
	All["LogicGivenMany"] = LogicGivenMany
	All["LogicBitsMany"] = LogicBitsMany
	All["LogicOutcomeMany"] = LogicOutcomeMany
}

func trueCount(row, n int) int {
	c := 0
	for i := 0; i < n; i++ {
		if row>>i&1 == 0 {
			c++
		}
	}
	return c
}

// LogicCountMany: counting operators for many parents, the argument symbolic.
func LogicCountMany() {
	n := 6 + vh.Choose("given", deep(5, 8))
	op := vh.Choose("op", 5)
	if op >= 3 {
		f := logic.CountTrue()
		if op == 4 {
			f = logic.CountFalse()
		}
		table, err := f.Table(n)
		noErr(err, "table")
		vh.Assert(len(table) == (n+1)<<n, "size of the table")
		ok := true
		for row := 0; row < 1<<n; row++ {
			c := trueCount(row, n)
			if op == 4 {
				c = n - c
			}
			for k := 0; k <= n; k++ {
				want := 0.0
				if k == c {
					want = 1
				}
				ok = ok && table[row*(n+1)+k] == want
			}
		}
		vh.Assert(ok, "the outcome is the count")
		vh.Reach("counts")
		return
	}
	value := vh.Int("value", -1<<63, 1<<63-1)
	f := []func(int) logic.Factor{logic.CountIs, logic.CountLess, logic.CountGreater}[op](value)
	table, err := f.Table(n)
	noErr(err, "table")
	vh.Assert(len(table) == 2<<n, "size of the table")
	// the expected value depends on the count only
	want := make([]bool, n+1)
	for c := range want {
		switch op {
		case 0:
			want[c] = c == value
		case 1:
			want[c] = c < value
		default:
			want[c] = c > value
		}
	}
	// rows with the same count must agree; one row per count is compared with the rule
	first := make([]int, n+1)
	for c := range first {
		first[c] = -1
	}
	same := true
	for row := 0; row < 1<<n; row++ {
		c := trueCount(row, n)
		if first[c] < 0 {
			first[c] = row
			vh.EqF(table[2*row], vh.IteF(want[c], 1, 0), "probability of true")
			vh.EqF(table[2*row+1], vh.IteF(want[c], 0, 1), "probability of false")
			continue
		}
		same = same && table[2*row] == table[2*first[c]] && table[2*row+1] == table[2*first[c]+1]
	}
	vh.Assert(same, "rows with the same count agree")
	vh.Reach("compare")
}

// LogicGivenMany: selection among many parents.
func LogicGivenMany() {
	n := 6 + vh.Choose("given", deep(5, 8))
	op := vh.Choose("op", 3)
	at := vh.Choose("index", n)
	idx := at
	f := []func(int) logic.Factor{logic.Given, logic.GivenNot, logic.GivenExcl}[op](idx)
	table, err := f.Table(n)
	noErr(err, "table")
	vh.Assert(len(table) == 2<<n, "size of the table")
	ok := true
	for row := 0; row < 1<<n; row++ {
		want := row>>(n-1-at)&1 == 0
		if op == 1 {
			want = !want
		} else if op == 2 {
			want = want && trueCount(row, n) == 1
		}
		t, u := 0.0, 1.0
		if want {
			t, u = 1, 0
		}
		ok = ok && table[2*row] == t && table[2*row+1] == u
	}
	vh.Assert(ok, "the parent at the index decides")
	vh.Reach("end")
}

// LogicBitsMany: many digits.
func LogicBitsMany() {
	n := 5 + vh.Choose("given", deep(5, 6))
	table, err := logic.Bits().Table(n)
	noErr(err, "table")
	vh.Assert(len(table) == 1<<(2*n), "size of the table")
	ok := true
	ones := 0
	for i, x := range table {
		if x != 0 {
			ok = ok && x == 1 && i&(1<<n-1) == (1<<n-1)-i>>n
			ones++
		}
	}
	vh.Assert(ok && ones == 1<<n, "the outcome is the integer")
	vh.Reach("end")
}

// LogicOutcomeMany: a parent with many outcomes.
func LogicOutcomeMany() {
	n := []int{6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 32, 33, 64, 65, 100, 129}[vh.Choose("length", 18)]
	op := vh.Choose("op", 5)
	at := vh.Choose("index", n)
	idx := at
	idx2 := 0
	var f logic.Factor
	if op == 4 {
		idx2 = vh.Choose("second", 2) * (n - 1)
		f = logic.OutcomeEither([]int{idx, idx2}, n)
	} else {
		f = []func(int, int) logic.Factor{logic.OutcomeIs, logic.OutcomeIsNot, logic.OutcomeLess, logic.OutcomeGreater}[op](idx, n)
	}
	table, err := f.Table(1)
	noErr(err, "table")
	vh.Assert(len(table) == 2*n, "size of the table")
	ok := true
	for o := 0; o < n; o++ {
		want := o == at
		switch op {
		case 1:
			want = !want
		case 2:
			want = o < at
		case 3:
			want = o >= at
		case 4:
			want = want || o == idx2
		}
		t, u := 0.0, 1.0
		if want {
			t, u = 1, 0
		}
		ok = ok && table[2*o] == t && table[2*o+1] == u
	}
	vh.Assert(ok, "the parent's outcome decides")
	vh.Reach("end")
}
