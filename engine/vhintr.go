package main

import (
	"fmt"
	"math"
	"math/big"
)

// Intrinsics of the harness library.

var vhIntr map[string]intrinsic

func (r *Run) input(kind, label string, t *Term, val string) *Input {
	r.inputs = append(r.inputs, Input{Kind: kind, Label: label, Val: val, t: t})
	return &r.inputs[len(r.inputs)-1]
}

func (r *Run) realVar(label string, sign int) *Term {
	v := r.tm.Var(fmt.Sprintf("in%d_%s", len(r.inputs), label), SReal, 0)
	r.input("real", label, v, "")
	r.setModel(v, big.NewRat(int64(3+2*(len(r.inputs)%17)), 7))
	if sign >= 0 {
		r.tm.setSign(v.id, sign)
		op := OpRLe
		if sign == 1 {
			op = OpRLt
		}
		r.pc = append(r.pc, r.tm.mk(&Term{op: op, sort: SBool, a: []*Term{r.tm.Rat(ratZero), v}}, ""))
	}
	return v
}

func init() {
	vhIntr = map[string]intrinsic{
		"Symbolic": ret(true),
		"Deep": func(r *Run, a []Value) Value {
			r.input("deep", "", nil, fmt.Sprint(*tierF == "thorough"))
			return *tierF == "thorough"
		},
		"Choose": func(r *Run, a []Value) Value {
			n := int(r.concInt(a[1]))
			c := r.Choose(n)
			r.input("choose", r.concString(a[0]), nil, fmt.Sprint(c))
			return int64(c)
		},
		"Int": func(r *Run, a []Value) Value {
			lo, hi := r.concInt(a[1]), r.concInt(a[2])
			if lo == hi {
				r.input("int", r.concString(a[0]), nil, fmt.Sprint(lo))
				return lo
			}
			v := r.tm.Var(fmt.Sprintf("in%d_%s", len(r.inputs), r.concString(a[0])), SBV, 64)
			r.input("int", r.concString(a[0]), v, "")
			r.setModel(v, uint64(lo))
			r.addPC(r.tm.BVOp(OpSle, r.tm.BV(64, uint64(lo)), v))
			r.addPC(r.tm.BVOp(OpSle, v, r.tm.BV(64, uint64(hi))))
			return v
		},
		"Rune": func(r *Run, a []Value) Value {
			lo, hi := r.concInt(a[1]), r.concInt(a[2])
			v := r.tm.Var(fmt.Sprintf("in%d_%s", len(r.inputs), r.concString(a[0])), SBV, 32)
			r.input("int", r.concString(a[0]), v, "")
			r.setModel(v, uint64(lo))
			r.addPC(r.tm.BVOp(OpSle, r.tm.BV(32, uint64(lo)), v))
			r.addPC(r.tm.BVOp(OpSle, v, r.tm.BV(32, uint64(hi))))
			return v
		},
		"Str": func(r *Run, a []Value) Value {
			n, lo, hi := r.concInt(a[1]), r.concInt(a[2]), r.concInt(a[3])
			out := make([]Value, n)
			for i := range out {
				v := r.tm.Var(fmt.Sprintf("in%d_%s", len(r.inputs), r.concString(a[0])), SBV, 8)
				r.input("int", r.concString(a[0]), v, "")
				r.setModel(v, uint64(lo))
				if lo > 0 {
					r.addPC(r.tm.BVOp(OpUle, r.tm.BV(8, uint64(lo)), v))
				}
				if hi < 255 {
					r.addPC(r.tm.BVOp(OpUle, v, r.tm.BV(8, uint64(hi))))
				}
				out[i] = v
			}
			return mkStr(out)
		},
		"Bool": func(r *Run, a []Value) Value {
			v := r.tm.Var(fmt.Sprintf("in%d_%s", len(r.inputs), r.concString(a[0])), SBool, 0)
			r.input("bool", r.concString(a[0]), v, "")
			r.setModel(v, false)
			return v
		},
		"Real":   func(r *Run, a []Value) Value { return r.realVar(r.concString(a[0]), -1) },
		"Pos":    func(r *Run, a []Value) Value { return r.realVar(r.concString(a[0]), 1) },
		"NonNeg": func(r *Run, a []Value) Value { return r.realVar(r.concString(a[0]), 0) },
		"Dist": func(r *Run, a []Value) Value {
			n := int(r.concInt(a[1]))
			out := make([]Value, n)
			var sum Value = ratZero
			for i := 0; i < n-1; i++ {
				v := r.realVar(fmt.Sprintf("%s_%d", r.concString(a[0]), i), 1)
				r.inputs[len(r.inputs)-1].scale = 1 / float64(n)
				if r.model != nil {
					r.model[v.id] = big.NewRat(int64(2+(len(r.inputs)*5)%7), int64(10*n))
				}
				out[i] = v
				sum = r.fbin("+", sum, v)
			}
			last := r.fbin("-", ratOne, sum)
			out[n-1] = last
			if n > 1 {
				r.addPC(r.tm.ROp(OpRLt, r.tm.Rat(ratZero), last.(*Term)))
			}
			return out
		},
		"Fix": func(r *Run, a []Value) Value { return r.concInt(a[0]) },
		"Ite": func(r *Run, a []Value) Value {
			switch c := a[0].(type) {
			case bool:
				if c {
					return a[1]
				}
				return a[2]
			case *Term:
				ti := tinfo{k: kInt, w: 64}
				return ival(r.tm.Ite(c, r.iterm(a[1], 64), r.iterm(a[2], 64)), ti)
			}
			panic(unsupported{"Ite"})
		},
		"IteF": func(r *Run, a []Value) Value {
			switch c := a[0].(type) {
			case bool:
				if c {
					return a[1]
				}
				return a[2]
			case *Term:
				return r.tm.Ite(c, r.fterm(a[1]), r.fterm(a[2]))
			}
			panic(unsupported{"IteF"})
		},
		"And":    func(r *Run, a []Value) Value { return r.boolFold(a[0], a[1], r.tm.And) },
		"Or":     func(r *Run, a []Value) Value { return r.boolFold(a[0], a[1], r.tm.Or) },
		"Assume": func(r *Run, a []Value) Value { r.Assume(a[0]); return nil },
		"Assert": func(r *Run, a []Value) Value {
			label := r.concString(a[1])
			r.labels["assert:"+label]++
			switch x := a[0].(type) {
			case bool:
				r.assertTerm(r.tm.Bool(x), nil, label)
			case *Term:
				r.assertTerm(x, nil, label)
			}
			return nil
		},
		"EqF": func(r *Run, a []Value) Value {
			label := r.concString(a[2])
			r.labels["assert:"+label]++
			x, y := a[0], a[1]
			if isSpecial(x) || isSpecial(y) {
				fx, ok1 := x.(float64)
				fy, ok2 := y.(float64)
				ok := ok1 && ok2 && (fx == fy || math.IsNaN(fx) && math.IsNaN(fy))
				r.assertTerm(r.tm.Bool(ok), nil, label)
				return nil
			}
			tx, ty := r.fterm(x), r.fterm(y)
			eq := r.tm.Eq(tx, ty)
			d := r.tm.ROp(OpRSub, tx, ty)
			eps := r.tm.Rat(big.NewRat(1, 100))
			neps := r.tm.Rat(big.NewRat(-1, 100))
			r.assertTerm(eq, r.tm.Or(r.tm.ROp(OpRLt, eps, d), r.tm.ROp(OpRLt, d, neps)), label)
			return nil
		},
		"LeF": func(r *Run, a []Value) Value {
			label := r.concString(a[2])
			r.labels["assert:"+label]++
			x, y := a[0], a[1]
			if isSpecial(x) || isSpecial(y) {
				switch c := r.fcmp("<=", x, y).(type) {
				case bool:
					r.assertTerm(r.tm.Bool(c), nil, label)
				}
				return nil
			}
			tx, ty := r.fterm(x), r.fterm(y)
			eps := r.tm.Rat(big.NewRat(1, 100))
			r.assertTerm(r.tm.ROp(OpRLe, tx, ty), r.tm.ROp(OpRLt, r.tm.ROp(OpRAdd, ty, eps), tx), label)
			return nil
		},
		"Fail": func(r *Run, a []Value) Value {
			r.labels["assert:"+r.concString(a[0])]++
			r.assertTerm(r.tm.False, nil, r.concString(a[0]))
			r.flush()
			panic(pathAbort{"failed"})
		},
		"Reach": func(r *Run, a []Value) Value { r.labels["reach:"+r.concString(a[0])]++; return nil },
		"FloatText": func(r *Run, a []Value) Value {
			if t, ok := a[0].(*Term); ok {
				return r.token(t)
			}
			return r.fmtRaw("v", "", -1, -1, nil2f, a[0])
		},
		"IntText": func(r *Run, a []Value) Value {
			if t, ok := a[0].(*Term); ok {
				return r.intToken(t)
			}
			return fmt.Sprint(a[0].(int64))
		},
		"WriteFile": func(r *Run, a []Value) Value {
			r.fs["/vh/"+r.concString(a[0])] = a[1]
			return "/vh/" + r.concString(a[0])
		},
		"Path": func(r *Run, a []Value) Value { return "/vh/" + r.concString(a[0]) },
		"ReadFile": func(r *Run, a []Value) Value {
			v, ok := r.fs["/vh/"+r.concString(a[0])]
			if !ok {
				return Tuple{"", false}
			}
			return Tuple{v, true}
		},
		"Stop": func(r *Run, a []Value) Value { panic(exitPath{}) },
		"Capture": func(r *Run, a []Value) Value {
			old, _ := r.aux["stdout"].([]Value)
			r.aux["stdout"] = []Value(nil)
			r.callValue(a[0], nil)
			s, _ := r.aux["stdout"].([]Value)
			r.aux["stdout"] = old
			return mkStr(s)
		},
		"Panics": func(r *Run, a []Value) Value {
			res := Value("")
			depth, fr := r.depth, r.curFr
			func() {
				defer func() {
					x := recover()
					if x == nil {
						return
					}
					gp, ok := x.(goPanic)
					if !ok {
						panic(x)
					}
					r.depth, r.curFr = depth, fr
					res = gp.msg
					if gp.msg == "" {
						res = "panic"
					}
				}()
				r.callValue(a[0], nil)
			}()
			return res
		},
	}
}

func (r *Run) boolFold(a, b Value, f func(a, b *Term) *Term) Value {
	return bval(f(r.bterm(a), r.bterm(b)))
}
