package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var varMeta = map[string]varInfo{}

type varInfo struct {
	lo, hi int64
	w      uint8
}

// nondet returns a 64-bit term for a fresh (or the same-named) variable.
func nondet(name string, lo, hi int64) *Term {
	if lo > hi {
		panic(inconclusive("empty range for " + name))
	}
	if lo == hi {
		return mkInt(lo)
	}
	w := uint8(1)
	if lo < 0 {
		for w < 64 && (lo < minS(w) || hi > maxS(w)) {
			w++
		}
	} else {
		w = 2
		for w < 64 && hi > maxS(w) {
			w++
		}
	}
	v := mkVar(name, w, lo, hi)
	varMeta[name] = varInfo{lo, hi, w}
	return mkSExt(v, 64)
}

func nondetBool(name string) *Term {
	v := mkVar(name, 0, 0, 0)
	varMeta[name] = varInfo{0, 1, 0}
	return v
}

// export turns raw model bits into signed integers.
func exportModel(m map[string]uint64) map[string]int64 {
	out := map[string]int64{}
	for n, v := range m {
		mi, ok := varMeta[n]
		if !ok {
			continue
		}
		if mi.w == 0 {
			out[n] = int64(v & 1)
		} else {
			out[n] = sext64(v&mask(mi.w), mi.w)
		}
	}
	return out
}

func one(st *State, v Value) []Outcome { return []Outcome{{st: st, ret: v}} }

func (ex *Exec) doCall(f *frame, it *item, x *ssa.Call) []Outcome {
	c := x.Common()
	var args []Value
	for _, a := range c.Args {
		args = append(args, f.opnd(it, a))
	}
	if c.IsInvoke() {
		v := f.opnd(it, c.Value)
		iv, ok := v.(*IfaceV)
		if !ok {
			panic(inconclusive("invoke on merged interface"))
		}
		if iv.typ == nil {
			f.fail(it, tTrue, "nil pointer dereference")
			return nil
		}
		if isExternalType(iv.typ) {
			return one(it.st, zeroResult(x))
		}
		m := ex.prog.LookupMethod(iv.typ, c.Method.Pkg(), c.Method.Name())
		return ex.callFn(f, it, x, m, append([]Value{iv.val}, args...), nil)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ex.builtin(f, it, x, b, args)
	}
	if fn := c.StaticCallee(); fn != nil {
		var binds []Value
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				binds = append(binds, f.opnd(it, b))
			}
		}
		return ex.callFn(f, it, x, fn, args, binds)
	}
	return ex.callValue(f, it, x, f.opnd(it, c.Value), args)
}

func (ex *Exec) callValue(f *frame, it *item, x *ssa.Call, v Value, args []Value) []Outcome {
	alts := altsOf(v)
	var outs []Outcome
	for i, a := range alts {
		fv, ok := a.v.(*FuncV)
		if !ok {
			panic(inconclusive("call of unexpected value"))
		}
		st := it.st
		if i < len(alts)-1 {
			st = it.st.fork()
		}
		if a.g != tTrue {
			if r, m := ex.sat(st, a.g, 3000); r == Unsat {
				continue
			} else if m != nil {
				st.assume(a.g)
				st.model = m
			} else {
				st.assume(a.g)
			}
		}
		n := it.with(st)
		if fv.fn == nil {
			f.fail(n, tTrue, "nil pointer dereference")
			continue
		}
		outs = append(outs, ex.callFn(f, n, x, fv.fn, args, fv.binds)...)
	}
	return outs
}

func isExternalType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return !strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
	}
	return false
}

func zeroResult(x *ssa.Call) Value {
	t := x.Type()
	if tp, ok := t.(*types.Tuple); ok {
		if tp.Len() == 0 {
			return nil
		}
		return zero(tp)
	}
	return zero(t)
}

func (ex *Exec) callFn(f *frame, it *item, x *ssa.Call, fn *ssa.Function, args, binds []Value) []Outcome {
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	if fn.Origin() != nil && fn.Origin().Pkg != nil {
		path = fn.Origin().Pkg.Pkg.Path()
	}
	if path == modPath+"/internal/vk" {
		return ex.vkCall(f, it, x, fn.Name(), args)
	}
	if path == "" || strings.HasPrefix(path, modPath) {
		if path == modPath+"/internal/logger" && fn.Name() == "Initialize" {
			return one(it.st, nil)
		}
		return ex.call(fn, args, binds, it.st)
	}
	st := it.st
	full := fn.RelString(nil)
	switch full {
	case "math.Floor":
		fv := args[0].(*FloatV)
		if fv.conc {
			return one(st, &FloatV{conc: true, f: math.Floor(fv.f)})
		}
		return one(st, &FloatV{num: mkAShr(fv.num, mkInt(int64(fv.den)))})
	case "math.Ceil":
		fv := args[0].(*FloatV)
		if fv.conc {
			return one(st, &FloatV{conc: true, f: math.Ceil(fv.f)})
		}
		return one(st, &FloatV{num: mkNeg(mkAShr(mkNeg(fv.num), mkInt(int64(fv.den))))})
	case "math.Pow":
		a, b := args[0].(*FloatV), args[1].(*FloatV)
		if a.conc && b.conc {
			return one(st, &FloatV{conc: true, f: math.Pow(a.f, b.f)})
		}
		if a.conc && a.f == 2 && b.den == 0 && b.num.lo >= 0 && b.num.hi <= 50 {
			return one(st, &FloatV{num: mkShl(mkInt(1), b.num)})
		}
	case "math.Log2":
		a := args[0].(*FloatV)
		if a.conc {
			return one(st, &FloatV{conc: true, f: math.Log2(a.f)})
		}
	case "math.Abs":
		a := args[0].(*FloatV)
		if a.conc {
			return one(st, &FloatV{conc: true, f: math.Abs(a.f)})
		}
		return one(st, &FloatV{num: mkIte(mkSLt(a.num, mkInt(0)), mkNeg(a.num), a.num), den: a.den})
	case "sort.Ints", "slices.Sort":
		ex.sortInts(st, args[0])
		return one(st, nil)
	case "errors.New":
		return one(st, &IfaceV{typ: types.NewPointer(types.Typ[types.Int]), val: st.alloc(mkInt(0))})
	case "fmt.Errorf":
		return one(st, &IfaceV{typ: types.NewPointer(types.Typ[types.Int]), val: st.alloc(mkInt(0))})
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return one(st, StrV("<formatted>"))
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		return one(st, zeroResult(x))
	}
	if strings.HasPrefix(path, "go.uber.org/") || path == "log" {
		return one(st, zeroResult(x))
	}
	if ex.initing {
		return one(st, zeroResult(x))
	}
	if strings.HasPrefix(path, "math/bits") {
		if r := bitsFn(fn.Name(), args); r != nil {
			return one(st, r)
		}
	}
	panic(inconclusive("call of " + full + " is not modelled"))
}

func bitsFn(name string, args []Value) Value {
	t, ok := args[0].(*Term)
	if !ok {
		return nil
	}
	switch {
	case strings.HasPrefix(name, "Len"):
		r := mkInt(0)
		for i := 0; i < int(t.w); i++ {
			bit := mkEq(mkAnd(mkLShr(t, mkConst(t.w, uint64(i))), mkConst(t.w, 1)), mkConst(t.w, 1))
			r = mkIte(bit, mkInt(int64(i+1)), r)
		}
		return r
	case strings.HasPrefix(name, "LeadingZeros"):
		l := bitsFn("Len", args)
		return mkSub(mkInt(int64(t.w)), l.(*Term))
	case strings.HasPrefix(name, "TrailingZeros"):
		r := mkInt(int64(t.w))
		for i := int(t.w) - 1; i >= 0; i-- {
			bit := mkEq(mkAnd(mkLShr(t, mkConst(t.w, uint64(i))), mkConst(t.w, 1)), mkConst(t.w, 1))
			r = mkIte(bit, mkInt(int64(i)), r)
		}
		return r
	case strings.HasPrefix(name, "OnesCount"):
		r := mkInt(0)
		for i := 0; i < int(t.w); i++ {
			r = mkAdd(r, mkZExt(mkAnd(mkLShr(t, mkConst(t.w, uint64(i))), mkConst(t.w, 1)), 64))
		}
		return r
	}
	return nil
}

func (ex *Exec) elems(st *State, s *SliceV, what string) []Value {
	if s.base == nil {
		return nil
	}
	if !s.len.isConst() {
		panic(inconclusive(what + ": symbolic length"))
	}
	n := int(s.len.sval())
	out := make([]Value, n)
	arr, _ := ex.load(st, s.base).(*Agg)
	if arr == nil {
		panic(inconclusive(what + ": backing array"))
	}
	for i := range out {
		out[i] = walk(arr, []PE{mkPE(mkAdd(s.off, mkInt(int64(i))))})
	}
	return out
}

// reach lists the elements a slice of symbolic length can have.
func (ex *Exec) reach(st *State, s *SliceV) []Value {
	if s.base == nil {
		return nil
	}
	n := s.len
	if !n.isConst() {
		n = mkInt(ex.maxOf(st, n, 4096))
	}
	arr, _ := ex.load(st, s.base).(*Agg)
	if arr == nil || !s.off.isConst() {
		panic(inconclusive("slice of symbolic length: backing array"))
	}
	var out []Value
	for i := s.off.sval(); i < s.off.sval()+n.sval() && i < int64(len(arr.elems)); i++ {
		out = append(out, arr.elems[i])
	}
	return out
}

func (ex *Exec) sortInts(st *State, v Value) {
	s, ok := v.(*SliceV)
	if !ok {
		panic(inconclusive("sort of merged slice"))
	}
	el := ex.elems(st, s, "sort")
	if len(el) > 64 {
		panic(inconclusive("sort: slice too long"))
	}
	for i := 1; i < len(el); i++ {
		for j := i; j > 0; j-- {
			a, b := el[j-1].(*Term), el[j].(*Term)
			c := mkSLt(b, a)
			el[j-1] = mkIte(c, b, a)
			el[j] = mkIte(c, a, b)
		}
	}
	for i, e := range el {
		ex.store(st, ext(s.base, mkPE(mkAdd(s.off, mkInt(int64(i))))), tTrue, e)
	}
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

var sizes = types.SizesFor("gc", "amd64")

func growCap(el types.Type, oldCap, newLen int64) int64 {
	nc := oldCap
	if newLen > 2*oldCap {
		nc = newLen
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	sz := sizes.Sizeof(el)
	if sz == 0 {
		return newLen
	}
	mem := nc * sz
	if mem <= 32768 {
		i := sort.Search(len(sizeClasses), func(i int) bool { return sizeClasses[i] >= mem })
		mem = sizeClasses[i]
	} else {
		mem = (mem + 8191) &^ 8191
	}
	return mem / sz
}

func (ex *Exec) builtin(f *frame, it *item, x *ssa.Call, b *ssa.Builtin, args []Value) []Outcome {
	st := it.st
	switch b.Name() {
	case "len", "cap":
		r := mapU(args[0], func(g *Term, v Value) Value {
			switch y := v.(type) {
			case *SliceV:
				if b.Name() == "len" {
					return y.len
				}
				return y.cap
			case StrV:
				return mkInt(int64(len(y)))
			case *Agg:
				return mkInt(int64(len(y.elems)))
			case *PtrV:
				switch u := x.Call.Args[0].Type().Underlying().(type) {
				case *types.Map:
					if y.obj < 0 {
						return mkInt(0)
					}
					return mkInt(int64(len(st.get(y.obj).(*MapV).keys)))
				case *types.Pointer:
					return mkInt(u.Elem().Underlying().(*types.Array).Len())
				}
			}
			panic(inconclusive("len"))
		})
		return one(st, r)
	case "append":
		var more []Value
		switch y := args[1].(type) {
		case *SliceV:
			more = ex.elems(st, y, "append")
		case StrV:
			for i := 0; i < len(y); i++ {
				more = append(more, mkConst(8, uint64(y[i])))
			}
		default:
			panic(inconclusive("append of merged slice"))
		}
		s, ok := args[0].(*SliceV)
		if !ok {
			panic(inconclusive("append to merged slice"))
		}
		if len(more) == 0 {
			return one(st, s)
		}
		if !s.len.isConst() || !s.cap.isConst() {
			panic(inconclusive("append to slice of symbolic length"))
		}
		n, c := s.len.sval(), s.cap.sval()
		nn := n + int64(len(more))
		if nn <= c {
			for i, v := range more {
				ex.store(st, ext(s.base, mkPE(mkAdd(s.off, mkInt(n+int64(i))))), tTrue, v)
			}
			return one(st, &SliceV{base: s.base, off: s.off, len: mkInt(nn), cap: s.cap})
		}
		elt := x.Type().Underlying().(*types.Slice).Elem()
		nc := growCap(elt, c, nn)
		el := ex.elems(st, s, "append")
		el = append(el, more...)
		z := zero(elt)
		for int64(len(el)) < nc {
			el = append(el, z)
		}
		p := st.alloc(&Agg{elems: el})
		return one(st, &SliceV{base: p, off: mkInt(0), len: mkInt(nn), cap: mkInt(nc)})
	case "copy":
		d, ok := args[0].(*SliceV)
		if !ok {
			panic(inconclusive("copy to merged slice"))
		}
		var src []Value
		var n *Term
		switch y := args[1].(type) {
		case *SliceV:
			n = y.len
			if !n.isConst() {
				panic(inconclusive("copy of symbolic length"))
			}
			src = ex.elems(st, y, "copy")
		case StrV:
			n = mkInt(int64(len(y)))
			for i := 0; i < len(y); i++ {
				src = append(src, mkConst(8, uint64(y[i])))
			}
		default:
			panic(inconclusive("copy of merged slice"))
		}
		for i, v := range src {
			g := mkSLt(mkInt(int64(i)), d.len)
			if g == tFalse {
				break
			}
			ex.store(st, ext(d.base, mkPE(mkAdd(d.off, mkInt(int64(i))))), g, v)
		}
		return one(st, mkIte(mkSLt(n, d.len), n, d.len))
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			c := mkSLt(r, y)
			if isUnsigned(x.Type()) {
				c = mkULt(r, y)
			}
			if b.Name() == "min" {
				r = mkIte(c, r, y)
			} else {
				r = mkIte(c, y, r)
			}
		}
		return one(st, r)
	case "clear":
		s := args[0].(*SliceV)
		z := zero(x.Call.Args[0].Type().Underlying().(*types.Slice).Elem())
		for i := range ex.elems(st, s, "clear") {
			ex.store(st, ext(s.base, mkPE(mkAdd(s.off, mkInt(int64(i))))), tTrue, z)
		}
		return one(st, nil)
	case "print", "println":
		return one(st, nil)
	case "ssa:wrapnilchk":
		if !f.nilCheck(it, args[0]) {
			return nil
		}
		return one(st, args[0])
	}
	panic(inconclusive("builtin " + b.Name()))
}

func str(v Value) string {
	s, ok := v.(StrV)
	if !ok {
		panic(inconclusive("vk: name must be a constant string"))
	}
	return string(s)
}

func cint(v Value) int64 {
	t, ok := v.(*Term)
	if !ok || !t.isConst() {
		panic(inconclusive("vk: argument must be constant"))
	}
	return t.sval()
}

func (ex *Exec) vkCall(f *frame, it *item, x *ssa.Call, name string, args []Value) []Outcome {
	st := it.st
	switch name {
	case "init":
		return one(st, nil)
	case "Int":
		return one(st, nondet(str(args[0]), cint(args[1]), cint(args[2])))
	case "IntAt":
		return one(st, nondet(fmt.Sprintf("%s[%d]", str(args[0]), cint(args[1])), cint(args[2]), cint(args[3])))
	case "Bool":
		return one(st, nondetBool(str(args[0])))
	case "BoolAt":
		return one(st, nondetBool(fmt.Sprintf("%s[%d]", str(args[0]), cint(args[1]))))
	case "Byte":
		return one(st, mkTrunc(nondet(str(args[0]), 0, 255), 8))
	case "Bytes":
		n := cint(args[1])
		a := &Agg{}
		for i := int64(0); i < n; i++ {
			a.elems = append(a.elems, mkTrunc(nondet(fmt.Sprintf("%s[%d]", str(args[0]), i), 0, 255), 8))
		}
		p := st.alloc(a)
		return one(st, &SliceV{base: p, off: mkInt(0), len: mkInt(n), cap: mkInt(n)})
	case "Ints":
		n := cint(args[1])
		a := &Agg{}
		for i := int64(0); i < n; i++ {
			a.elems = append(a.elems, nondet(fmt.Sprintf("%s[%d]", str(args[0]), i), cint(args[2]), cint(args[3])))
		}
		p := st.alloc(a)
		return one(st, &SliceV{base: p, off: mkInt(0), len: mkInt(n), cap: mkInt(n)})
	case "Fill":
		iv := args[1].(*IfaceV)
		pt := iv.typ.Underlying().(*types.Pointer)
		p := iv.val.(*PtrV)
		old := ex.load(st, p)
		ex.store(st, p, tTrue, ex.fill(st, str(args[0]), pt.Elem(), old, cint(args[2]), cint(args[3])))
		return one(st, nil)
	case "Eq":
		a, b := args[0].(*IfaceV), args[1].(*IfaceV)
		return one(st, ex.deepEq(st, a.val, b.val))
	case "Ite":
		return one(st, mapU(mergeVal(args[0].(*Term), args[1], args[2]), func(g *Term, v Value) Value { return v }))
	case "Thorough":
		return one(st, mkBool(ex.thorough))
	case "And", "Or", "Imp":
		a, b := args[0].(*Term), args[1].(*Term)
		switch name {
		case "And":
			return one(st, mkBAnd(a, b))
		case "Or":
			return one(st, mkBOr(a, b))
		}
		return one(st, mkBOr(mkNot(a), b))
	case "Cut":
		return one(st, cut(str(args[0]), args[1].(*Term)))
	case "Assume":
		c := args[0].(*Term)
		if c == tFalse {
			return nil
		}
		if c == tTrue {
			return one(st, nil)
		}
		r, m := ex.sat(st, c, 5000)
		if r == Unsat {
			return nil
		}
		st.assume(c)
		if m != nil {
			st.model = m
		}
		return one(st, nil)
	case "Assert":
		stats.asserts++
		ex.curPos = x.Pos()
		cont, _ := ex.check(st, mkNot(args[0].(*Term)), "assert", str(args[1]))
		if !cont {
			return nil
		}
		return one(st, nil)
	case "Reach":
		l := str(args[0])
		if !stats.reach[l] {
			if r, _ := ex.satFull(st, tTrue, 10000); r == Sat {
				stats.reach[l] = true
			}
		}
		return one(st, nil)
	case "Try":
		fv := args[0].(*FuncV)
		st.try++
		outs := ex.call(fv.fn, nil, fv.binds, st)
		var res []Outcome
		for _, o := range outs {
			o.st.try--
			o.ret = mkBool(!o.panic)
			o.panic = false
			res = append(res, o)
		}
		return res
	case "Split":
		t := args[1].(*Term)
		lo, hi := cint(args[2]), cint(args[3])
		if r, _ := ex.sat(st, mkBOr(mkSLt(t, mkInt(lo)), mkSLt(mkInt(hi), t)), 5000); r != Unsat {
			panic(inconclusive("vk.Split: range does not cover the value"))
		}
		var res []Outcome
		for v := lo; v <= hi; v++ {
			c := mkEq(t, mkInt(v))
			r, m := ex.satAt(st, t, v, c)
			if r == Unsat {
				continue
			}
			n := st.fork()
			n.assume(c)
			if m != nil {
				n.model = m
			}
			n.tag += fmt.Sprintf("%s=%d;", str(args[0]), v)
			res = append(res, Outcome{st: n, ret: mkInt(v)})
		}
		return res
	case "SplitBool":
		t := args[1].(*Term)
		var res []Outcome
		for _, v := range []bool{false, true} {
			c := t
			if !v {
				c = mkNot(t)
			}
			r, m := ex.sat(st, c, 5000)
			if r == Unsat {
				continue
			}
			n := st.fork()
			n.assume(c)
			if m != nil {
				n.model = m
			}
			n.tag += fmt.Sprintf("%s=%v;", str(args[0]), v)
			res = append(res, Outcome{st: n, ret: mkBool(v)})
		}
		return res
	case "Join":
		st.tag = ""
		st.pins = nil
		return one(st, nil)
	case "Pin":
		p := args[0].(*PtrV)
		st.pins = append(st.pins[:len(st.pins):len(st.pins)], p)
		return one(st, nil)
	case "Max":
		// the solver-computed maximum of a value, for case splits
		return one(st, mkInt(ex.maxOf(st, args[0].(*Term), cint(args[1]))))
	}
	panic(inconclusive("unknown vk function " + name))
}

// satAt decides pc & t==v, first by adjusting the state's model.
func (ex *Exec) satAt(st *State, t *Term, v int64, c *Term) (Res, *Model) {
	x := t
	for x.op == OSExt || x.op == OZExt {
		x = x.args[0]
	}
	if x.op == OVar && c != tFalse {
		base := map[string]uint64{}
		if st.model != nil {
			base = st.model.vals
		}
		n := make(map[string]uint64, len(base)+1)
		for k, u := range base {
			n[k] = u
		}
		n[x.name] = uint64(v) & mask(x.w)
		m := newModel(n)
		if ex.holds(m, st.pc, c) {
			stats.modelHits++
			return Sat, m
		}
	}
	return ex.sat(st, c, 5000)
}

func (ex *Exec) fill(st *State, name string, t types.Type, old Value, lo, hi int64) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return nondetBool(name)
		case u.Info()&types.IsInteger != 0:
			return mkTrunc64(nondet(name, lo, hi), width(u))
		}
		return old
	case *types.Array:
		a := &Agg{}
		for i := int64(0); i < u.Len(); i++ {
			a.elems = append(a.elems, ex.fill(st, fmt.Sprintf("%s[%d]", name, i), u.Elem(), old.(*Agg).elems[i], lo, hi))
		}
		return a
	case *types.Struct:
		a := &Agg{}
		for i := 0; i < u.NumFields(); i++ {
			a.elems = append(a.elems, ex.fill(st, name+"."+u.Field(i).Name(), u.Field(i).Type(), old.(*Agg).elems[i], lo, hi))
		}
		return a
	case *types.Slice:
		s, ok := old.(*SliceV)
		if !ok || s.base == nil {
			return old
		}
		el := ex.elems(st, s, "Fill")
		for i, e := range el {
			nv := ex.fill(st, fmt.Sprintf("%s[%d]", name, i), u.Elem(), e, lo, hi)
			ex.store(st, ext(s.base, mkPE(mkAdd(s.off, mkInt(int64(i))))), tTrue, nv)
		}
		return old
	}
	return old
}

func mkTrunc64(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	return mkTrunc(t, w)
}

// deepEq compares contents; slices element-wise (nil equals empty).
func (ex *Exec) deepEq(st *State, a, b Value) *Term {
	r := tFalse
	for _, x := range altsOf(a) {
		for _, y := range altsOf(b) {
			g := mkBAnd(x.g, y.g)
			if g == tFalse {
				continue
			}
			r = mkBOr(r, mkBAnd(g, ex.deepEq1(st, x.v, y.v)))
		}
	}
	return r
}

func (ex *Exec) deepEq1(st *State, a, b Value) *Term {
	switch x := a.(type) {
	case *Agg:
		y := b.(*Agg)
		if x == y {
			return tTrue
		}
		var cs []*Term
		for i := range x.elems {
			if !isTuple(x.elems[i]) && x.elems[i] == y.elems[i] {
				continue
			}
			cs = append(cs, ex.deepEq(st, x.elems[i], y.elems[i]))
		}
		return mkBAnd(cs...)
	case *SliceV:
		y := b.(*SliceV)
		if sameVal(x, y) {
			return tTrue
		}
		le := mkEq(x.len, y.len)
		if le == tFalse {
			return tFalse
		}
		if !x.len.isConst() || !y.len.isConst() {
			// equal lengths, and equal elements below that length
			p, q := ex.reach(st, x), ex.reach(st, y)
			cs := []*Term{le}
			for i := 0; i < len(p) && i < len(q); i++ {
				cs = append(cs, mkBOr(mkSLe(x.len, mkInt(int64(i))), ex.deepEq(st, p[i], q[i])))
			}
			return mkBAnd(cs...)
		}
		p, q := ex.elems(st, x, "Eq"), ex.elems(st, y, "Eq")
		var cs []*Term
		for i := range p {
			cs = append(cs, ex.deepEq(st, p[i], q[i]))
		}
		return mkBAnd(cs...)
	case *PtrV:
		y := b.(*PtrV)
		if samePtr(x, y) {
			return tTrue
		}
		if x.obj < 0 || y.obj < 0 {
			return tFalse
		}
		return ex.deepEq(st, ex.load(st, x), ex.load(st, y))
	case *IfaceV:
		y := b.(*IfaceV)
		if x.typ == nil || y.typ == nil {
			return mkBool(x.typ == nil && y.typ == nil)
		}
		return ex.deepEq(st, x.val, y.val)
	}
	return eqVal1(a, b)
}
