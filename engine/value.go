package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type tokenAlias struct{ _ int }

// Agg is a struct or array value.
type Agg struct {
	elems []Value
	owner *tokenAlias
}

type FloatV struct {
	conc bool
	f    float64
	num  *Term // value = num / 2^den
	den  uint
}

type StrV string

type PE struct {
	t *Term // nil: constant index i
	i int
}

type PtrV struct {
	obj  int // -1: nil
	path []PE
}

type SliceV struct {
	base          *PtrV // location of the backing array; nil for nil slice
	off, len, cap *Term
}

type IfaceV struct {
	typ types.Type
	val Value
}

type FuncV struct {
	fn    *ssa.Function
	bi    *ssa.Builtin
	binds []Value
}

type TupleV []Value

type alt struct {
	g *Term
	v Value
}

type UnionV struct{ alts []alt }

// MapV is the content of a map object (concrete keys).
type MapV struct {
	keys []Value
	vals []Value
}

var nilPtr = &PtrV{obj: -1}
var nilSlice = &SliceV{off: mkInt(0), len: mkInt(0), cap: mkInt(0)}

// ---------- heap ----------

const pageSize = 64

type page struct {
	owner *tokenAlias
	v     [pageSize]Value
}

type State struct {
	pc    []*Term
	pcset map[*Term]bool
	pages []*page
	tok   *tokenAlias
	tag   string
	pins  []*PtrV
	try   int
	model *Model
}

var nextObj int

func newState() *State {
	return &State{tok: new(tokenAlias)}
}

func (s *State) fork() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], tag: s.tag, pins: s.pins, try: s.try, model: s.model}
	n.pages = append([]*page(nil), s.pages...)
	n.tok = new(tokenAlias)
	s.tok = new(tokenAlias)
	stats.forks++
	return n
}

func (s *State) get(o int) Value {
	p := o / pageSize
	if p >= len(s.pages) || s.pages[p] == nil {
		return nil
	}
	return s.pages[p].v[o%pageSize]
}

func (s *State) put(o int, v Value) {
	p := o / pageSize
	for p >= len(s.pages) {
		s.pages = append(s.pages, nil)
	}
	pg := s.pages[p]
	if pg == nil {
		pg = &page{owner: s.tok}
		s.pages[p] = pg
	} else if pg.owner != s.tok {
		n := *pg
		n.owner = s.tok
		pg = &n
		s.pages[p] = pg
	}
	pg.v[o%pageSize] = v
}

func (s *State) alloc(v Value) *PtrV {
	o := nextObj
	nextObj++
	s.put(o, v)
	return &PtrV{obj: o}
}

func (s *State) hasPC(t *Term) bool {
	for i := len(s.pc) - 1; i >= 0; i-- {
		if s.pc[i] == t {
			return true
		}
	}
	return false
}

// assume adds t to the path condition.
func (s *State) assume(t *Term) {
	if t == tTrue || s.hasPC(t) {
		return
	}
	if t.op == OBAnd {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	s.pc = append(s.pc[:len(s.pc):len(s.pc)], t)
	if s.model != nil && s.model.eval(t) == 0 {
		s.model = nil
	}
}

// ---------- zero values ----------

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return mkConst(width(u), 0)
		case u.Info()&types.IsFloat != 0:
			return &FloatV{conc: true}
		case u.Info()&types.IsString != 0:
			return StrV("")
		case u.Kind() == types.UnsafePointer:
			return nilPtr
		case u.Kind() == types.UntypedNil:
			return nilPtr
		}
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return nilSlice
	case *types.Struct:
		a := &Agg{elems: make([]Value, u.NumFields())}
		for i := range a.elems {
			a.elems[i] = zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		n := int(u.Len())
		a := &Agg{elems: make([]Value, n)}
		if n > 0 {
			z := zero(u.Elem())
			for i := range a.elems {
				a.elems[i] = z
			}
		}
		return a
	case *types.Interface:
		return &IfaceV{}
	case *types.Signature:
		return &FuncV{}
	case *types.Map, *types.Chan:
		return nilPtr
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = zero(u.At(i).Type())
		}
		return tv
	}
	panic(inconclusive(fmt.Sprintf("zero value of %v", t)))
}

func width(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// ---------- merging ----------

func samePtr(a, b *PtrV) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.obj != b.obj || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

func (p PE) term() *Term {
	if p.t != nil {
		return p.t
	}
	return mkInt(int64(p.i))
}

func mkPE(t *Term) PE {
	if t.isConst() {
		return PE{i: int(t.sval())}
	}
	return PE{t: t}
}

func sameVal(a, b Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case *Term:
		return a == b
	case StrV:
		y, ok := b.(StrV)
		return ok && x == y
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && samePtr(x, y)
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && (x == y || samePtr(x.base, y.base) && x.off == y.off && x.len == y.len && x.cap == y.cap)
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.fn != y.fn || x.bi != y.bi || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !sameVal(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case *FloatV:
		y, ok := b.(*FloatV)
		return ok && *x == *y
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.typ == nil || y.typ == nil {
			return x.typ == nil && y.typ == nil
		}
		return types.Identical(x.typ, y.typ) && sameVal(x.val, y.val)
	}
	return a == b
}

func mergeVal(c *Term, a, b Value) Value {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == nil || b == nil {
		if a == nil {
			return b
		}
		return a
	}
	if !isTuple(a) && a == b {
		return a
	}
	if _, ok := a.(*UnionV); ok {
		return mergeUnion(c, a, b)
	}
	if _, ok := b.(*UnionV); ok {
		return mergeUnion(c, a, b)
	}
	switch x := a.(type) {
	case *Term:
		return mkIte(c, x, b.(*Term))
	case *Agg:
		y := b.(*Agg)
		if len(x.elems) != len(y.elems) {
			panic(inconclusive("merging aggregates of different shape"))
		}
		var out []Value
		for i := range x.elems {
			if !isTuple(x.elems[i]) && x.elems[i] == y.elems[i] {
				continue
			}
			m := mergeVal(c, x.elems[i], y.elems[i])
			if m != x.elems[i] {
				if out == nil {
					out = append([]Value(nil), x.elems...)
				}
				out[i] = m
			}
		}
		if out == nil {
			return x
		}
		return &Agg{elems: out}
	case TupleV:
		y := b.(TupleV)
		out := make(TupleV, len(x))
		for i := range x {
			out[i] = mergeVal(c, x[i], y[i])
		}
		return out
	case *FloatV:
		y := b.(*FloatV)
		if *x == *y {
			return x
		}
		p, q, d, ok := alignF(x, y)
		if !ok {
			panic(inconclusive("merging floating-point values"))
		}
		return &FloatV{num: mkIte(c, p, q), den: d}
	case StrV:
		if x == b.(StrV) {
			return x
		}
		return mergeUnion(c, a, b)
	case *PtrV:
		y := b.(*PtrV)
		if samePtr(x, y) {
			return x
		}
		if x.obj == y.obj && len(x.path) == len(y.path) {
			n := &PtrV{obj: x.obj, path: make([]PE, len(x.path))}
			for i := range x.path {
				n.path[i] = mkPE(mkIte(c, x.path[i].term(), y.path[i].term()))
			}
			return n
		}
		return mergeUnion(c, a, b)
	case *SliceV:
		y := b.(*SliceV)
		if sameVal(x, y) {
			return x
		}
		if samePtr(x.base, y.base) {
			return &SliceV{base: x.base, off: mkIte(c, x.off, y.off), len: mkIte(c, x.len, y.len), cap: mkIte(c, x.cap, y.cap)}
		}
		return mergeUnion(c, a, b)
	case *IfaceV:
		y := b.(*IfaceV)
		if sameVal(x, y) {
			return x
		}
		if x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
			return &IfaceV{typ: x.typ, val: mergeVal(c, x.val, y.val)}
		}
		return mergeUnion(c, a, b)
	case *FuncV:
		y := b.(*FuncV)
		if sameVal(x, y) {
			return x
		}
		if x.fn == y.fn && x.bi == y.bi && len(x.binds) == len(y.binds) {
			n := &FuncV{fn: x.fn, bi: x.bi}
			for i := range x.binds {
				n.binds = append(n.binds, mergeVal(c, x.binds[i], y.binds[i]))
			}
			return n
		}
		return mergeUnion(c, a, b)
	case *MapV:
		y := b.(*MapV)
		if len(x.keys) == len(y.keys) {
			n := &MapV{keys: x.keys}
			for i := range x.keys {
				if !sameVal(x.keys[i], y.keys[i]) {
					panic(inconclusive("merging maps with different keys"))
				}
				n.vals = append(n.vals, mergeVal(c, x.vals[i], y.vals[i]))
			}
			return n
		}
		panic(inconclusive("merging maps with different keys"))
	}
	panic(inconclusive(fmt.Sprintf("cannot merge %T", a)))
}

func isTuple(v Value) bool {
	_, ok := v.(TupleV)
	return ok
}

func altsOf(v Value) []alt {
	if u, ok := v.(*UnionV); ok {
		return u.alts
	}
	return []alt{{tTrue, v}}
}

func mergeUnion(c *Term, a, b Value) Value {
	var out []alt
	add := func(g *Term, v Value) {
		if g == tFalse {
			return
		}
		for i := range out {
			if sameVal(out[i].v, v) {
				out[i].g = mkBOr(out[i].g, g)
				return
			}
			if x, ok := out[i].v.(*SliceV); ok {
				if y, ok := v.(*SliceV); ok && samePtr(x.base, y.base) {
					out[i].v = &SliceV{base: x.base, off: mkIte(g, y.off, x.off), len: mkIte(g, y.len, x.len), cap: mkIte(g, y.cap, x.cap)}
					out[i].g = mkBOr(out[i].g, g)
					return
				}
			}
			if x, ok := out[i].v.(*PtrV); ok {
				if y, ok := v.(*PtrV); ok && x.obj == y.obj && len(x.path) == len(y.path) {
					out[i].v = mergeVal(g, y, x)
					out[i].g = mkBOr(out[i].g, g)
					return
				}
			}
		}
		out = append(out, alt{g, v})
	}
	for _, x := range altsOf(a) {
		add(mkBAnd(c, x.g), x.v)
	}
	nc := mkNot(c)
	for _, x := range altsOf(b) {
		add(mkBAnd(nc, x.g), x.v)
	}
	if len(out) == 1 {
		return out[0].v
	}
	if len(out) > 64 {
		panic(inconclusive("too many alternatives in a reference value"))
	}
	return &UnionV{alts: out}
}

// mapU applies f to every alternative of v and merges the results.
func mapU(v Value, f func(g *Term, v Value) Value) Value {
	u, ok := v.(*UnionV)
	if !ok {
		return f(tTrue, v)
	}
	var r Value
	for i := len(u.alts) - 1; i >= 0; i-- {
		x := f(u.alts[i].g, u.alts[i].v)
		if r == nil {
			r = x
		} else {
			r = mergeVal(u.alts[i].g, x, r)
		}
	}
	return r
}

func alignF(x, y *FloatV) (*Term, *Term, uint, bool) {
	xn, xd, ok1 := dyadic(x)
	yn, yd, ok2 := dyadic(y)
	if !ok1 || !ok2 {
		return nil, nil, 0, false
	}
	d := max(xd, yd)
	return mkMulC(xn, 1<<(d-xd)), mkMulC(yn, 1<<(d-yd)), d, true
}

func dyadic(x *FloatV) (*Term, uint, bool) {
	if !x.conc {
		return x.num, x.den, true
	}
	f := x.f
	for d := uint(0); d < 20; d++ {
		if f == float64(int64(f)) && f < 1<<52 && f > -(1<<52) {
			return mkInt(int64(f)), d, true
		}
		f *= 2
	}
	return nil, 0, false
}

// mergeStates joins two states at the same program point.  It returns the
// selector term: true selects a.
func mergeStates(a, b *State) (*State, *Term) {
	stats.merges++
	inb := make(map[*Term]bool, len(b.pc))
	for _, t := range b.pc {
		inb[t] = true
	}
	var common, ra, rb []*Term
	ina := make(map[*Term]bool, len(a.pc))
	for _, t := range a.pc {
		ina[t] = true
		if inb[t] {
			common = append(common, t)
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range b.pc {
		if !ina[t] {
			rb = append(rb, t)
		}
	}
	var sel *Term
	rbset := make(map[*Term]bool, len(rb))
	for _, t := range rb {
		rbset[t] = true
	}
	for _, t := range ra {
		if rbset[mkNot(t)] {
			sel = t
			break
		}
	}
	aa, bb := mkBAnd(ra...), mkBAnd(rb...)
	if sel == nil {
		sel = aa
		if bb.op != OBAnd && aa.op == OBAnd {
			sel = mkNot(bb)
		}
	}
	n := &State{pc: common, tok: new(tokenAlias), tag: a.tag, pins: a.pins, try: a.try, model: a.model}
	if n.model == nil {
		n.model = b.model
	}
	d := mkBOr(aa, bb)
	if d.op == OBAnd {
		for _, t := range d.args {
			n.pc = append(n.pc, t)
		}
	} else if d != tTrue {
		n.pc = append(n.pc, d)
	}
	np := max(len(a.pages), len(b.pages))
	n.pages = make([]*page, np)
	for i := 0; i < np; i++ {
		var pa, pb *page
		if i < len(a.pages) {
			pa = a.pages[i]
		}
		if i < len(b.pages) {
			pb = b.pages[i]
		}
		switch {
		case pa == pb:
			n.pages[i] = pa
		case pa == nil:
			n.pages[i] = pb
		case pb == nil:
			n.pages[i] = pa
		default:
			q := &page{owner: n.tok}
			for j := range q.v {
				va, vb := pa.v[j], pb.v[j]
				if !isTuple(va) && va == vb {
					q.v[j] = va
				} else {
					q.v[j] = mergeVal(sel, va, vb)
				}
			}
			n.pages[i] = q
		}
	}
	return n, sel
}
