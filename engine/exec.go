package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var modPath = "github.com/m4tthewde/gov1"

type Exec struct {
	prog     *ssa.Program
	fset     *token.FileSet
	solver   *Solver
	globals  map[*ssa.Global]*PtrV
	infos    map[*ssa.Function]*fnInfo
	models   []*Model
	vcs      []*VC
	viol     []*Violation
	known    func(kind, msg, pos string) bool
	stopped  bool
	initing  bool
	maxLoop  int
	deadline time.Time
	depth    int
	onVC     func(*VC)
	curPos   token.Pos
	curFn    *ssa.Function
	thorough bool
	guess    int
	// time spent on the feasibility of the arms of each branch
	branchTime map[*ssa.If]time.Duration
	guesses    []*Model
}

type Violation struct {
	Kind  string
	Msg   string
	Pos   string
	Model map[string]uint64
	Known bool
}

type stopExploration struct{}

type Outcome struct {
	st    *State
	ret   Value
	panic bool
	msg   string
}

// ---------- per function information ----------

type fnInfo struct {
	num    map[ssa.Value]int
	nregs  int
	rpo    []int   // by block index
	chain  [][]int // by block index: loop headers (block indices), outermost first
	inLoop []map[int]bool
	live   [][]int // live registers at block start (after phis)
	backTo map[[2]int]bool
	constV map[*ssa.Const]Value
}

func (ex *Exec) info(fn *ssa.Function) *fnInfo {
	if fi, ok := ex.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{num: map[ssa.Value]int{}, constV: map[*ssa.Const]Value{}}
	add := func(v ssa.Value) { fi.num[v] = fi.nregs; fi.nregs++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	n := len(fn.Blocks)
	// reverse post order
	fi.rpo = make([]int, n)
	for i := range fi.rpo {
		fi.rpo[i] = n // unreachable
	}
	seen := make([]bool, n)
	var post []int
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s.Index] {
				dfs(s)
			}
		}
		post = append(post, b.Index)
	}
	if n > 0 {
		dfs(fn.Blocks[0])
	}
	for i, b := range post {
		fi.rpo[b] = len(post) - 1 - i
	}
	// natural loops
	bodies := map[int]map[int]bool{}
	for _, b := range fn.Blocks {
		if !seen[b.Index] {
			continue
		}
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := bodies[h.Index]
				if body == nil {
					body = map[int]bool{h.Index: true}
					bodies[h.Index] = body
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if body[x.Index] {
						continue
					}
					body[x.Index] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	fi.chain = make([][]int, n)
	for b := 0; b < n; b++ {
		for h, body := range bodies {
			if body[b] {
				fi.chain[b] = append(fi.chain[b], h)
			}
		}
		c := fi.chain[b]
		sort.Slice(c, func(i, j int) bool {
			li, lj := len(bodies[c[i]]), len(bodies[c[j]])
			if li != lj {
				return li > lj
			}
			return fi.rpo[c[i]] < fi.rpo[c[j]]
		})
	}
	fi.backTo = map[[2]int]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if body, ok := bodies[h.Index]; ok && body[b.Index] {
				fi.backTo[[2]int{b.Index, h.Index}] = true
			}
		}
	}
	// liveness
	type set map[int]bool
	livein := make([]set, n)
	for i := range livein {
		livein[i] = set{}
	}
	for changed := true; changed; {
		changed = false
		for bi := len(post) - 1; bi >= 0; bi-- {
			b := fn.Blocks[post[len(post)-1-bi]]
			cur := set{}
			for _, s := range b.Succs {
				phis := set{}
				pi := 0
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					phis[fi.num[ph]] = true
					for k, p := range s.Preds {
						if p == b {
							if r, ok := fi.num[ph.Edges[k]]; ok {
								cur[r] = true
							}
						}
					}
				}
				_ = pi
				for r := range livein[s.Index] {
					if !phis[r] {
						cur[r] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if _, ok := in.(*ssa.Phi); ok {
					break
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, fi.num[v])
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						if r, ok := fi.num[*op]; ok {
							cur[r] = true
						}
					}
				}
			}
			if len(cur) != len(livein[b.Index]) {
				livein[b.Index] = cur
				changed = true
			}
		}
	}
	fi.live = make([][]int, n)
	for i, s := range livein {
		for r := range s {
			fi.live[i] = append(fi.live[i], r)
		}
		sort.Ints(fi.live[i])
	}
	ex.infos[fn] = fi
	return fi
}

// ---------- satisfiability helpers ----------

func (ex *Exec) holds(m *Model, pc []*Term, t *Term) bool {
	if m.eval(t) == 0 {
		return false
	}
	for i := len(pc) - 1; i >= 0; i-- {
		if m.eval(pc[i]) == 0 {
			return false
		}
	}
	return true
}

func (ex *Exec) addModel(m *Model) {
	if m == nil {
		return
	}
	if len(ex.models) >= 10 {
		ex.models = ex.models[1:]
	}
	ex.models = append(ex.models, m)
}

// sat decides pc & t.
func (ex *Exec) sat(st *State, t *Term, ms int) (Res, *Model) {
	if t == tFalse {
		return Unsat, nil
	}
	if st.model != nil {
		if st.model.eval(t) != 0 {
			stats.modelHits++
			return Sat, st.model
		}
	}
	for i := len(ex.models) - 1; i >= 0; i-- {
		if m := ex.models[i]; m != st.model && ex.holds(m, st.pc, t) {
			stats.modelHits++
			return Sat, m
		}
	}
	if st.hasPC(mkNot(t)) {
		return Unsat, nil
	}
	r, m := ex.solver.check(st.pc, t, ms)
	if r == Sat && m != nil {
		if !ex.holds(m, st.pc, t) {
			panic(inconclusive("solver model does not satisfy the query (encoding error)"))
		}
		ex.addModel(m)
	}
	return r, m
}

// satFull is sat with the definitions of cut variables added.
func (ex *Exec) satFull(st *State, t *Term, ms int) (Res, *Model) {
	r, m := ex.sat(st, t, ms)
	if r != Sat {
		return r, m
	}
	defs := cutDefs(append([]*Term{t}, st.pc...)...)
	if len(defs) == 0 {
		return r, m
	}
	pc := append(st.pc[:len(st.pc):len(st.pc)], defs...)
	if m != nil && ex.holds(m, defs, t) {
		return r, m
	}
	r, m = ex.solver.check(pc, t, ms*4)
	if r == Sat && m != nil {
		if !ex.holds(m, pc, t) {
			panic(inconclusive("solver model does not satisfy the query (encoding error)"))
		}
		ex.addModel(m)
	}
	return r, m
}

func (ex *Exec) where(pos token.Pos, fn *ssa.Function) string {
	if pos.IsValid() {
		p := ex.fset.Position(pos)
		f := p.Filename
		if i := strings.Index(f, "/internal/"); i >= 0 {
			f = f[i+1:]
		}
		return fmt.Sprintf("%s:%d", f, p.Line)
	}
	if fn != nil {
		return fn.RelString(nil)
	}
	return "?"
}

// check handles a possible failure condition.  It returns whether execution
// can continue (with !bad assumed) and, inside a Try, the failing state.
func (ex *Exec) check(st *State, bad *Term, kind, msg string) (cont bool, fail *State) {
	if bad == tFalse {
		stats.trivially++
		return true, nil
	}
	pos := ex.where(ex.curPos, ex.curFn)
	var r Res
	var m *Model
	if ex.guess > 0 {
		if m = ex.tryGuess(st, bad); m != nil {
			r = Sat
		}
	}
	if m == nil {
		r, m = ex.satFull(st, bad, 1500)
	}
	if st.try > 0 && kind == "panic" {
		if r != Unsat {
			fail = st.fork()
			fail.assume(bad)
			if m != nil {
				fail.model = m
			}
		}
	} else {
		switch r {
		case Sat:
			if ex.initing {
				panic(inconclusive("panic during package initialisation: " + msg + " at " + pos))
			}
			k := ex.known != nil && ex.known(kind, msg, pos)
			ex.viol = append(ex.viol, &Violation{Kind: kind, Msg: msg, Pos: pos, Model: m.vals, Known: k})
			stats.vcSat++
			if !k {
				panic(stopExploration{})
			}
		case Unsat:
			stats.vcUnsat++
		case Unknown:
			pc := append(st.pc[:len(st.pc):len(st.pc)], cutDefs(append([]*Term{bad}, st.pc...)...)...)
			v := &VC{pc: pc, bad: bad, kind: kind, msg: msg, pos: pos}
			v.render()
			v.pc = nil
			ex.vcs = append(ex.vcs, v)
			if ex.onVC != nil {
				ex.onVC(v)
			}
		}
	}
	if r == Unsat {
		return true, fail
	}
	nb := mkNot(bad)
	if nb == tFalse {
		return false, fail
	}
	if r2, m2 := ex.sat(st, nb, 1500); r2 == Unsat {
		return false, fail
	} else if m2 != nil {
		st.assume(nb)
		st.model = m2
		return true, fail
	}
	st.assume(nb)
	return true, fail
}

// ---------- execution ----------

type item struct {
	st    *State
	regs  []Value
	blk   *ssa.BasicBlock
	idx   int
	iters map[int]int
	key   []int
}

func (ex *Exec) pinKey(st *State) string {
	if len(st.pins) == 0 {
		return st.tag
	}
	var sb strings.Builder
	sb.WriteString(st.tag)
	for _, p := range st.pins {
		v := ex.loadQuiet(st, p)
		if t, ok := v.(*Term); ok && t.isConst() {
			fmt.Fprintf(&sb, "|%d", t.c)
		} else {
			sb.WriteString("|?")
		}
	}
	return sb.String()
}

func cmpKey(a, b []int) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return len(a) - len(b)
}

type frame struct {
	ex   *Exec
	fn   *ssa.Function
	fi   *fnInfo
	work []*item
	outs []Outcome
}

func (f *frame) setKey(it *item) {
	it.key = it.key[:0:0]
	for _, h := range f.fi.chain[it.blk.Index] {
		it.key = append(it.key, f.fi.rpo[h], it.iters[h])
	}
	it.key = append(it.key, f.fi.rpo[it.blk.Index])
}

func (ex *Exec) call(fn *ssa.Function, args []Value, binds []Value, st *State) []Outcome {
	if fn.Blocks == nil {
		panic(inconclusive("no body for " + fn.String()))
	}
	if ex.depth > 200 {
		panic(inconclusive("recursion depth exceeded in " + fn.String()))
	}
	ex.depth++
	defer func() { ex.depth-- }()
	if !ex.initing && fn.Pkg != nil && !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/vk") {
		stats.funcs[fn.RelString(nil)] = true
	}
	saveFn, savePos := ex.curFn, ex.curPos
	defer func() { ex.curFn, ex.curPos = saveFn, savePos }()
	fi := ex.info(fn)
	f := &frame{ex: ex, fn: fn, fi: fi}
	regs := make([]Value, fi.nregs)
	for i, p := range fn.Params {
		regs[fi.num[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		regs[fi.num[p]] = binds[i]
	}
	it := &item{st: st, regs: regs, blk: fn.Blocks[0], iters: map[int]int{}}
	f.setKey(it)
	f.work = []*item{it}
	for len(f.work) > 0 {
		f.step()
	}
	// merge outcomes
	var res []Outcome
	keys := map[string]int{}
	for _, o := range f.outs {
		if o.panic {
			res = append(res, o)
			continue
		}
		k := ex.pinKey(o.st)
		if i, ok := keys[k]; ok {
			s, sel := mergeStates(res[i].st, o.st)
			res[i] = Outcome{st: s, ret: mergeVal(sel, res[i].ret, o.ret)}
		} else {
			keys[k] = len(res)
			res = append(res, o)
		}
	}
	// merge panicking outcomes too
	var out []Outcome
	pk := map[string]int{}
	for _, o := range res {
		if !o.panic {
			out = append(out, o)
			continue
		}
		k := ex.pinKey(o.st)
		if i, ok := pk[k]; ok {
			s, _ := mergeStates(out[i].st, o.st)
			out[i].st = s
		} else {
			pk[k] = len(out)
			out = append(out, o)
		}
	}
	return out
}

func (f *frame) step() {
	ex := f.ex
	if time.Now().After(ex.deadline) {
		panic(inconclusive("exploration time limit reached"))
	}
	best := 0
	for i := 1; i < len(f.work); i++ {
		if cmpKey(f.work[i].key, f.work[best].key) < 0 {
			best = i
		}
	}
	k := f.work[best].key
	var grp []*item
	rest := f.work[:0:0]
	for _, it := range f.work {
		if cmpKey(it.key, k) == 0 {
			grp = append(grp, it)
		} else {
			rest = append(rest, it)
		}
	}
	f.work = rest
	if len(grp) > 1 {
		by := map[string]*item{}
		var order []string
		for _, it := range grp {
			pk := ex.pinKey(it.st)
			o, ok := by[pk]
			if !ok {
				by[pk] = it
				order = append(order, pk)
				continue
			}
			s, sel := mergeStates(o.st, it.st)
			regs := make([]Value, len(o.regs))
			for _, r := range f.fi.live[it.blk.Index] {
				regs[r] = mergeVal(sel, o.regs[r], it.regs[r])
			}
			for _, in := range it.blk.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				r := f.fi.num[ph]
				regs[r] = mergeVal(sel, o.regs[r], it.regs[r])
			}
			by[pk] = &item{st: s, regs: regs, blk: it.blk, idx: it.idx, iters: it.iters, key: it.key}
		}
		grp = grp[:0]
		for _, pk := range order {
			grp = append(grp, by[pk])
		}
	}
	for _, it := range grp {
		f.run(it)
	}
}

// jump moves it to block succ, evaluating phis.
func (f *frame) jump(it *item, succ *ssa.BasicBlock) {
	pred := it.blk
	pi := -1
	for i, p := range succ.Preds {
		if p == pred {
			pi = i
			break
		}
	}
	var vals []Value
	nphi := 0
	for _, in := range succ.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, f.opnd(it, ph.Edges[pi]))
		nphi++
	}
	for i := 0; i < nphi; i++ {
		it.regs[f.fi.num[succ.Instrs[i].(*ssa.Phi)]] = vals[i]
	}
	// loop counters
	nc := f.fi.chain[succ.Index]
	if len(nc) == 0 {
		if len(it.iters) > 0 {
			it.iters = map[int]int{}
		}
	} else {
		ni := map[int]int{}
		for _, h := range nc {
			c, ok := it.iters[h]
			if ok && h == succ.Index && f.fi.backTo[[2]int{pred.Index, h}] {
				c++
				if c > stats.loopMax {
					stats.loopMax = c
				}
				if c > f.ex.maxLoop {
					f.ex.loopBound(it.st, f.fn, succ)
				}
			}
			ni[h] = c
		}
		it.iters = ni
	}
	it.blk = succ
	it.idx = nphi
	f.setKey(it)
	f.work = append(f.work, it)
}

func (ex *Exec) loopBound(st *State, fn *ssa.Function, b *ssa.BasicBlock) {
	if ex.initing {
		return
	}
	pos := ex.where(ex.curPos, fn)
	r, m := ex.satFull(st, tTrue, 5000)
	if r == Sat && m != nil {
		ex.viol = append(ex.viol, &Violation{Kind: "loop", Msg: fmt.Sprintf("loop exceeds %d iterations", ex.maxLoop), Pos: pos, Model: m.vals})
		panic(stopExploration{})
	}
	panic(inconclusive("loop bound exceeded at " + pos))
}

func (f *frame) opnd(it *item, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		if c, ok := f.fi.constV[x]; ok {
			return c
		}
		c := constVal(x)
		f.fi.constV[x] = c
		return c
	case *ssa.Global:
		return f.ex.global(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &FuncV{bi: x}
	}
	i, ok := f.fi.num[v]
	if !ok {
		panic(inconclusive("unknown operand " + v.String()))
	}
	r := it.regs[i]
	if r == nil {
		panic(inconclusive("undefined operand " + v.Name() + " in " + f.fn.String()))
	}
	return r
}

func (ex *Exec) global(g *ssa.Global) Value {
	p, ok := ex.globals[g]
	if !ok {
		panic(inconclusive("global outside the encoded packages: " + g.String()))
	}
	return p
}

func constVal(c *ssa.Const) Value {
	t := c.Type().Underlying()
	if c.Value == nil {
		return zero(c.Type())
	}
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return mkBool(constant.BoolVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return mkConst(width(b), uint64(i))
			}
			u, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return mkConst(width(b), u)
		case b.Info()&types.IsFloat != 0:
			v, _ := constant.Float64Val(c.Value)
			return &FloatV{conc: true, f: v}
		case b.Info()&types.IsString != 0:
			return StrV(constant.StringVal(c.Value))
		}
	}
	panic(inconclusive("constant " + c.String()))
}

// clone makes an independent item continuing after the current instruction.
func (it *item) with(st *State) *item {
	return &item{st: st, regs: append([]Value(nil), it.regs...), blk: it.blk, idx: it.idx, iters: it.iters, key: it.key}
}

func (f *frame) run(it0 *item) {
	ex := f.ex
	stack := []*item{it0}
	for len(stack) > 0 {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
	instrs:
		for {
			in := it.blk.Instrs[it.idx]
			stats.instrs++
			if p := in.Pos(); p.IsValid() {
				ex.curPos = p
			}
			ex.curFn = f.fn
			switch x := in.(type) {
			case *ssa.Jump:
				f.jump(it, it.blk.Succs[0])
				break instrs
			case *ssa.If:
				f.branch(it, f.opnd(it, x.Cond).(*Term))
				break instrs
			case *ssa.Return:
				var ret Value
				switch len(x.Results) {
				case 0:
				case 1:
					ret = f.opnd(it, x.Results[0])
				default:
					tv := make(TupleV, len(x.Results))
					for i, r := range x.Results {
						tv[i] = f.opnd(it, r)
					}
					ret = tv
				}
				f.outs = append(f.outs, Outcome{st: it.st, ret: ret})
				break instrs
			case *ssa.Panic:
				msg := "panic"
				if v, ok := f.opnd(it, x.X).(*IfaceV); ok {
					if s, ok := v.val.(StrV); ok {
						msg = "panic: " + string(s)
					}
				}
				f.fail(it, tTrue, msg)
				break instrs
			case *ssa.Call:
				it.idx++
				outs := ex.doCall(f, it, x)
				if len(outs) == 1 && !outs[0].panic {
					it.st = outs[0].st
					f.set(it, x, outs[0].ret)
					continue
				}
				for _, o := range outs {
					if o.panic {
						f.outs = append(f.outs, o)
						continue
					}
					n := it.with(o.st)
					f.set(n, x, o.ret)
					stack = append(stack, n)
				}
				break instrs
			default:
				if !f.simple(it, in) {
					break instrs
				}
				it.idx++
			}
		}
	}
}

func (f *frame) set(it *item, v ssa.Value, x Value) {
	it.regs[f.fi.num[v]] = x
}

// fail records a possible panic; returns whether to continue.
func (f *frame) fail(it *item, bad *Term, msg string) bool {
	cont, fs := f.ex.check(it.st, bad, "panic", msg)
	if fs != nil {
		f.outs = append(f.outs, Outcome{st: fs, panic: true, msg: msg})
	}
	return cont
}

func (f *frame) branch(it *item, c *Term) {
	ex := f.ex
	t, e := it.blk.Succs[0], it.blk.Succs[1]
	if c.isConst() {
		if c == tTrue {
			f.jump(it, t)
		} else {
			f.jump(it, e)
		}
		return
	}
	iff := it.blk.Instrs[len(it.blk.Instrs)-1].(*ssa.If)
	if ex.branchTime[iff] > 300*time.Millisecond && f.choose(it, c) {
		return
	}
	t0 := time.Now()
	nc := mkNot(c)
	rt, mt := ex.sat(it.st, c, 3000)
	if rt == Unsat {
		it.st.assume(nc) // implied
		f.jump(it, e)
		return
	}
	re, me := ex.sat(it.st, nc, 3000)
	ex.branchTime[iff] += time.Since(t0)
	if re == Unsat {
		it.st.assume(c)
		f.jump(it, t)
		return
	}
	st2 := it.st.fork()
	n := it.with(st2)
	st2.assume(nc)
	if me != nil {
		st2.model = me
	}
	it.st.assume(c)
	if mt != nil {
		it.st.model = mt
	}
	f.jump(it, t)
	f.jump(n, e)
}

// choose turns a branch whose arms only compute values for the block where
// they meet into a choice between these values.  It saves the queries for
// the feasibility of the arms, and is used where they have been slow.
func (f *frame) choose(it *item, c *Term) bool {
	b := it.blk
	t, e := b.Succs[0], b.Succs[1]
	pure := func(x *ssa.BasicBlock) bool {
		if len(x.Preds) != 1 || len(x.Succs) != 1 {
			return false
		}
		for _, in := range x.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp:
				switch in.Op {
				case token.SHL, token.SHR, token.QUO, token.REM:
					return false
				}
				if v, ok := in.Type().Underlying().(*types.Basic); !ok || v.Info()&(types.IsInteger|types.IsBoolean) == 0 {
					return false
				}
				if v, ok := in.X.Type().Underlying().(*types.Basic); !ok || v.Info()&(types.IsInteger|types.IsBoolean) == 0 {
					return false
				}
			case *ssa.UnOp:
				if in.Op == token.MUL || in.Op == token.ARROW {
					return false
				}
			case *ssa.DebugRef, *ssa.Jump:
			default:
				return false
			}
		}
		return true
	}
	var join, pt, pe *ssa.BasicBlock
	switch pt, pe = b, b; {
	case pure(t) && pure(e) && t.Succs[0] == e.Succs[0]:
		join, pt, pe = t.Succs[0], t, e
	case pure(t) && t.Succs[0] == e:
		join, pt = e, t
	case pure(e) && e.Succs[0] == t:
		join, pe = t, e
	default:
		return false
	}
	if t == e || f.fi.backTo[[2]int{pt.Index, join.Index}] || f.fi.backTo[[2]int{pe.Index, join.Index}] || f.fi.backTo[[2]int{b.Index, t.Index}] || f.fi.backTo[[2]int{b.Index, e.Index}] {
		return false
	}
	for _, x := range []*ssa.BasicBlock{pt, pe} {
		if x == b {
			continue
		}
		for _, in := range x.Instrs {
			switch in.(type) {
			case *ssa.BinOp, *ssa.UnOp:
				if !f.simple(it, in) {
					panic(inconclusive("a computation failed in a choice"))
				}
			}
		}
	}
	edge := func(p *ssa.BasicBlock) int {
		for i, q := range join.Preds {
			if q == p {
				return i
			}
		}
		return -1
	}
	it2, ie := edge(pt), edge(pe)
	var vals []Value
	for _, in := range join.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		x, y := f.opnd(it, ph.Edges[it2]), f.opnd(it, ph.Edges[ie])
		if x == y {
			vals = append(vals, x)
			continue
		}
		xt, ok1 := x.(*Term)
		yt, ok2 := y.(*Term)
		if !ok1 || !ok2 {
			return false
		}
		vals = append(vals, mkIte(c, xt, yt))
	}
	it.blk = pt
	f.jump(it, join)
	for i, v := range vals {
		it.regs[f.fi.num[join.Instrs[i].(*ssa.Phi)]] = v
	}
	f.setKey(it)
	return true
}

// ---------- memory ----------

func idxRange(t *Term, n int) (int, int) {
	lo, hi := 0, n-1
	if t.lo > int64(lo) {
		lo = int(min(t.lo, int64(n)))
	}
	if t.hi < int64(hi) {
		hi = int(max(t.hi, -1))
	}
	return lo, hi
}

func walk(v Value, path []PE) Value {
	for len(path) > 0 {
		a, ok := v.(*Agg)
		if !ok {
			panic(inconclusive(fmt.Sprintf("path into %T", v)))
		}
		p := path[0]
		if p.t == nil {
			if p.i < 0 || p.i >= len(a.elems) {
				// unreachable under the path condition (bounds checked)
				if len(a.elems) == 0 {
					panic(inconclusive("access into empty array"))
				}
				return walk(a.elems[0], path[1:])
			}
			v = a.elems[p.i]
			path = path[1:]
			continue
		}
		lo, hi := idxRange(p.t, len(a.elems))
		if lo > hi {
			lo, hi = 0, 0
		}
		rest := path[1:]
		return selTree(p.t, a.elems, lo, hi, rest)
	}
	return v
}

func selTree(t *Term, el []Value, lo, hi int, rest []PE) Value {
	if lo == hi {
		return walk(el[lo], rest)
	}
	mid := (lo + hi) / 2
	l := selTree(t, el, lo, mid, rest)
	r := selTree(t, el, mid+1, hi, rest)
	return mergeVal(mkSLt(t, mkInt(int64(mid+1))), l, r)
}

func (ex *Exec) loadQuiet(st *State, p *PtrV) Value {
	return walk(st.get(p.obj), p.path)
}

func (ex *Exec) load(st *State, p *PtrV) Value {
	o := st.get(p.obj)
	if o == nil {
		panic(inconclusive("load from unknown object"))
	}
	v := walk(o, p.path)
	if _, ok := v.(*Agg); ok {
		st.tok = new(tokenAlias)
	}
	return v
}

func update(v Value, path []PE, nv Value, tok *tokenAlias) Value {
	if len(path) == 0 {
		return nv
	}
	a := v.(*Agg)
	if a.owner != tok {
		a = &Agg{elems: append([]Value(nil), a.elems...), owner: tok}
	}
	p := path[0]
	if p.t == nil {
		if p.i >= 0 && p.i < len(a.elems) {
			a.elems[p.i] = update(a.elems[p.i], path[1:], nv, tok)
		}
		return a
	}
	lo, hi := idxRange(p.t, len(a.elems))
	for i := lo; i <= hi; i++ {
		c := mkEq(p.t, mkInt(int64(i)))
		if c == tFalse {
			continue
		}
		old := a.elems[i]
		n := updateCond(old, path[1:], nv, c)
		a.elems[i] = n
	}
	return a
}

// updateCond: functional conditional update.
func updateCond(v Value, path []PE, nv Value, c *Term) Value {
	if len(path) == 0 {
		return mergeVal(c, nv, v)
	}
	a := v.(*Agg)
	n := &Agg{elems: append([]Value(nil), a.elems...)}
	p := path[0]
	if p.t == nil {
		if p.i >= 0 && p.i < len(a.elems) {
			n.elems[p.i] = updateCond(n.elems[p.i], path[1:], nv, c)
		}
		return n
	}
	lo, hi := idxRange(p.t, len(a.elems))
	for i := lo; i <= hi; i++ {
		cc := mkBAnd(c, mkEq(p.t, mkInt(int64(i))))
		if cc != tFalse {
			n.elems[i] = updateCond(n.elems[i], path[1:], nv, cc)
		}
	}
	return n
}

func (ex *Exec) store(st *State, p *PtrV, g *Term, v Value) {
	o := st.get(p.obj)
	if g == tTrue {
		st.put(p.obj, update(o, p.path, v, st.tok))
	} else {
		st.put(p.obj, updateCond(o, p.path, v, g))
	}
}

func ext(p *PtrV, e PE) *PtrV {
	n := &PtrV{obj: p.obj, path: make([]PE, len(p.path)+1)}
	copy(n.path, p.path)
	n.path[len(p.path)] = e
	return n
}

func asTerm64(t *Term, unsigned bool) *Term {
	if t.w == 64 {
		return t
	}
	if unsigned {
		return mkZExt(t, 64)
	}
	return mkSExt(t, 64)
}

// oob is the out-of-range condition for 0 <= i < n.
func oob(i, n *Term) *Term {
	return mkBOr(mkSLt(i, mkInt(0)), mkNot(mkSLt(i, n)))
}

// ---------- simple instructions ----------

func (f *frame) simple(it *item, in ssa.Instruction) bool {
	ex := f.ex
	st := it.st
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		f.set(it, x, st.alloc(zero(x.Type().Underlying().(*types.Pointer).Elem())))
	case *ssa.Store:
		addr := f.opnd(it, x.Addr)
		val := f.opnd(it, x.Val)
		if !f.nilCheck(it, addr) {
			return false
		}
		for _, a := range altsOf(addr) {
			p := a.v.(*PtrV)
			if p.obj >= 0 {
				ex.store(st, p, a.g, val)
			}
		}
	case *ssa.UnOp:
		v := f.opnd(it, x.X)
		switch x.Op {
		case token.MUL:
			if !f.nilCheck(it, v) {
				return false
			}
			f.set(it, x, mapU(dropNil(v), func(g *Term, v Value) Value { return ex.load(st, v.(*PtrV)) }))
		case token.SUB:
			if fv, ok := v.(*FloatV); ok {
				if fv.conc {
					f.set(it, x, &FloatV{conc: true, f: -fv.f})
				} else {
					f.set(it, x, &FloatV{num: mkNeg(fv.num), den: fv.den})
				}
			} else {
				f.set(it, x, mkNeg(v.(*Term)))
			}
		case token.NOT:
			f.set(it, x, mkNot(v.(*Term)))
		case token.XOR:
			t := v.(*Term)
			f.set(it, x, mkXor(t, mkConst(t.w, ^uint64(0))))
		default:
			panic(inconclusive("unop " + x.Op.String()))
		}
	case *ssa.BinOp:
		return f.binop(it, x)
	case *ssa.FieldAddr:
		v := f.opnd(it, x.X)
		if !f.nilCheck(it, v) {
			return false
		}
		f.set(it, x, mapU(dropNil(v), func(g *Term, v Value) Value { return ext(v.(*PtrV), PE{i: x.Field}) }))
	case *ssa.Field:
		v := f.opnd(it, x.X)
		f.set(it, x, v.(*Agg).elems[x.Field])
	case *ssa.IndexAddr:
		v := f.opnd(it, x.X)
		i := asTerm64(f.opnd(it, x.Index).(*Term), isUnsigned(x.Index.Type()))
		// bounds
		bad := tFalse
		for _, a := range altsOf(v) {
			switch y := a.v.(type) {
			case *SliceV:
				bad = mkBOr(bad, mkBAnd(a.g, oob(i, y.len)))
			case *PtrV:
				if y.obj < 0 {
					bad = mkBOr(bad, a.g)
					continue
				}
				n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
				bad = mkBOr(bad, mkBAnd(a.g, oob(i, mkInt(n))))
			}
		}
		if !f.fail(it, bad, "index out of range") {
			return false
		}
		f.set(it, x, mapU(dropNil(v), func(g *Term, v Value) Value {
			switch y := v.(type) {
			case *SliceV:
				return ext(y.base, mkPE(mkAdd(y.off, i)))
			case *PtrV:
				return ext(y, mkPE(i))
			}
			panic(inconclusive("IndexAddr"))
		}))
	case *ssa.Index:
		v := f.opnd(it, x.X)
		i := asTerm64(f.opnd(it, x.Index).(*Term), isUnsigned(x.Index.Type()))
		switch y := v.(type) {
		case *Agg:
			if !f.fail(it, oob(i, mkInt(int64(len(y.elems)))), "index out of range") {
				return false
			}
			f.set(it, x, walk(y, []PE{mkPE(i)}))
		case StrV:
			if !f.fail(it, oob(i, mkInt(int64(len(y)))), "index out of range") {
				return false
			}
			el := make([]Value, len(y))
			for k := range el {
				el[k] = mkConst(8, uint64(y[k]))
			}
			f.set(it, x, walk(&Agg{elems: el}, []PE{mkPE(i)}))
		default:
			panic(inconclusive("Index"))
		}
	case *ssa.ChangeType:
		f.set(it, x, f.opnd(it, x.X))
	case *ssa.ChangeInterface:
		f.set(it, x, f.opnd(it, x.X))
	case *ssa.MakeInterface:
		f.set(it, x, &IfaceV{typ: x.X.Type(), val: f.opnd(it, x.X)})
	case *ssa.Convert:
		return f.convert(it, x)
	case *ssa.MakeClosure:
		fv := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.binds = append(fv.binds, f.opnd(it, b))
		}
		f.set(it, x, fv)
	case *ssa.MakeSlice:
		n := asTerm64(f.opnd(it, x.Len).(*Term), isUnsigned(x.Len.Type()))
		c := asTerm64(f.opnd(it, x.Cap).(*Term), isUnsigned(x.Cap.Type()))
		if !f.fail(it, mkBOr(mkSLt(n, mkInt(0)), mkSLt(c, n)), "makeslice: len out of range") {
			return false
		}
		sz := c.hi
		if sz > 1<<20 || (!c.isConst() && sz > 4096) {
			// find the real maximum
			sz = ex.maxOf(st, c, 4096)
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		arr := &Agg{elems: make([]Value, sz)}
		if sz > 0 {
			z := zero(el)
			for i := range arr.elems {
				arr.elems[i] = z
			}
		}
		p := st.alloc(arr)
		f.set(it, x, &SliceV{base: p, off: mkInt(0), len: n, cap: c})
	case *ssa.Slice:
		return f.slice(it, x)
	case *ssa.Extract:
		f.set(it, x, f.opnd(it, x.Tuple).(TupleV)[x.Index])
	case *ssa.TypeAssert:
		v, ok := f.opnd(it, x.X).(*IfaceV)
		if !ok {
			panic(inconclusive("type assertion on merged interface"))
		}
		match := false
		if v.typ != nil {
			if ut, isI := x.AssertedType.Underlying().(*types.Interface); isI {
				match = types.Implements(v.typ, ut)
			} else {
				match = types.Identical(v.typ, x.AssertedType)
			}
		}
		var r Value
		if match {
			if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
				r = v
			} else {
				r = v.val
			}
		} else {
			r = zero(x.AssertedType)
		}
		if x.CommaOk {
			f.set(it, x, TupleV{r, mkBool(match)})
		} else {
			if !match {
				f.fail(it, tTrue, "interface conversion")
				return false
			}
			f.set(it, x, r)
		}
	case *ssa.MakeMap:
		f.set(it, x, st.alloc(&MapV{}))
	case *ssa.MapUpdate:
		m, ok := f.opnd(it, x.Map).(*PtrV)
		if !ok {
			panic(inconclusive("map union"))
		}
		if m.obj < 0 {
			f.fail(it, tTrue, "assignment to entry in nil map")
			return false
		}
		mv := st.get(m.obj).(*MapV)
		k := f.opnd(it, x.Key)
		if !concreteKey(k) {
			panic(inconclusive("symbolic map key store"))
		}
		n := &MapV{keys: append([]Value(nil), mv.keys...), vals: append([]Value(nil), mv.vals...)}
		found := false
		for i := range n.keys {
			if sameVal(n.keys[i], k) {
				n.vals[i] = f.opnd(it, x.Value)
				found = true
			}
		}
		if !found {
			n.keys = append(n.keys, k)
			n.vals = append(n.vals, f.opnd(it, x.Value))
		}
		st.put(m.obj, n)
	case *ssa.Lookup:
		return f.lookup(it, x)
	case *ssa.RunDefers:
	case *ssa.SliceToArrayPointer:
		panic(inconclusive("slice to array pointer"))
	default:
		panic(inconclusive(fmt.Sprintf("unsupported instruction %T in %s", in, f.fn)))
	}
	return true
}

func concreteKey(k Value) bool {
	switch x := k.(type) {
	case *Term:
		return x.isConst()
	case StrV:
		return true
	}
	return false
}

func (f *frame) lookup(it *item, x *ssa.Lookup) bool {
	v := f.opnd(it, x.X)
	if s, ok := v.(StrV); ok {
		i := asTerm64(f.opnd(it, x.Index).(*Term), isUnsigned(x.Index.Type()))
		if !f.fail(it, oob(i, mkInt(int64(len(s)))), "index out of range") {
			return false
		}
		el := make([]Value, len(s))
		for k := range el {
			el[k] = mkConst(8, uint64(s[k]))
		}
		f.set(it, x, walk(&Agg{elems: el}, []PE{mkPE(i)}))
		return true
	}
	mt := x.X.Type().Underlying().(*types.Map)
	m, ok := v.(*PtrV)
	if !ok {
		panic(inconclusive("map union"))
	}
	var r Value = zero(mt.Elem())
	found := tFalse
	if m.obj >= 0 {
		mv := it.st.get(m.obj).(*MapV)
		k := f.opnd(it, x.Index)
		for i := range mv.keys {
			var c *Term
			switch kk := k.(type) {
			case *Term:
				c = mkEq(kk, mv.keys[i].(*Term))
			case StrV:
				c = mkBool(kk == mv.keys[i].(StrV))
			default:
				panic(inconclusive("map key"))
			}
			r = mergeVal(c, mv.vals[i], r)
			found = mkBOr(found, c)
		}
	}
	if x.CommaOk {
		f.set(it, x, TupleV{r, found})
	} else {
		f.set(it, x, r)
	}
	return true
}

func dropNil(v Value) Value {
	u, ok := v.(*UnionV)
	if !ok {
		return v
	}
	var out []alt
	for _, a := range u.alts {
		if p, ok := a.v.(*PtrV); ok && p.obj < 0 {
			continue
		}
		if s, ok := a.v.(*SliceV); ok && s.base == nil {
			continue
		}
		out = append(out, a)
	}
	if len(out) == 1 {
		return out[0].v
	}
	return &UnionV{alts: out}
}

func (f *frame) nilCheck(it *item, v Value) bool {
	bad := tFalse
	for _, a := range altsOf(v) {
		p, ok := a.v.(*PtrV)
		if !ok {
			panic(inconclusive(fmt.Sprintf("pointer expected, got %T", a.v)))
		}
		if p.obj < 0 {
			bad = mkBOr(bad, a.g)
		}
	}
	return f.fail(it, bad, "nil pointer dereference")
}

func (ex *Exec) maxOf(st *State, t *Term, limit int64) int64 {
	if r, _ := ex.sat(st, mkSLt(mkInt(limit), t), 5000); r != Unsat {
		panic(inconclusive("allocation size not bounded by the harness"))
	}
	lo, hi := int64(0), limit
	for lo < hi {
		mid := (lo + hi) / 2
		if r, _ := ex.sat(st, mkSLt(mkInt(mid), t), 5000); r == Unsat {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return hi
}

func (f *frame) slice(it *item, x *ssa.Slice) bool {
	st := it.st
	v := f.opnd(it, x.X)
	get := func(o ssa.Value) *Term {
		if o == nil {
			return nil
		}
		return asTerm64(f.opnd(it, o).(*Term), isUnsigned(o.Type()))
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if s, ok := v.(StrV); ok {
		l, h := 0, len(s)
		if lo != nil {
			if !lo.isConst() {
				panic(inconclusive("symbolic string slice"))
			}
			l = int(lo.sval())
		}
		if hi != nil {
			if !hi.isConst() {
				panic(inconclusive("symbolic string slice"))
			}
			h = int(hi.sval())
		}
		if l < 0 || h < l || h > len(s) {
			f.fail(it, tTrue, "slice bounds out of range")
			return false
		}
		f.set(it, x, s[l:h])
		return true
	}
	type parts struct{ l, h, m, c *Term }
	part := func(v Value) (s *SliceV, p parts) {
		switch y := v.(type) {
		case *SliceV:
			s = y
		case *PtrV:
			n := mkInt(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			s = &SliceV{base: y, off: mkInt(0), len: n, cap: n}
		default:
			panic(inconclusive("slice of unexpected value"))
		}
		p.l, p.h, p.m, p.c = lo, hi, mx, s.cap
		if p.l == nil {
			p.l = mkInt(0)
		}
		if p.h == nil {
			p.h = s.len
		}
		if p.m == nil {
			p.m = s.cap
		}
		return
	}
	bad := tFalse
	for _, a := range altsOf(v) {
		if p, ok := a.v.(*PtrV); ok && p.obj < 0 {
			bad = mkBOr(bad, a.g)
			continue
		}
		_, p := part(a.v)
		b := mkBOr(mkSLt(p.l, mkInt(0)), mkSLt(p.h, p.l), mkSLt(p.m, p.h), mkSLt(p.c, p.m))
		bad = mkBOr(bad, mkBAnd(a.g, b))
	}
	if !f.fail(it, bad, "slice bounds out of range") {
		return false
	}
	_ = st
	f.set(it, x, mapU(v, func(g *Term, v Value) Value {
		if p, ok := v.(*PtrV); ok && p.obj < 0 {
			return nilSlice
		}
		s, p := part(v)
		return &SliceV{base: s.base, off: mkAdd(s.off, p.l), len: mkSub(p.h, p.l), cap: mkSub(p.m, p.l)}
	}))
	return true
}

func (f *frame) convert(it *item, x *ssa.Convert) bool {
	v := f.opnd(it, x.X)
	from, ok1 := x.X.Type().Underlying().(*types.Basic)
	to, ok2 := x.Type().Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		panic(inconclusive("conversion " + x.String()))
	}
	fi, ti := from.Info(), to.Info()
	switch {
	case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
		t := v.(*Term)
		w := width(to)
		if w < t.w {
			f.set(it, x, mkTrunc(t, w))
		} else if fi&types.IsUnsigned != 0 {
			f.set(it, x, mkZExt(t, w))
		} else {
			f.set(it, x, mkSExt(t, w))
		}
	case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
		t := v.(*Term)
		if t.isConst() {
			if fi&types.IsUnsigned != 0 {
				f.set(it, x, &FloatV{conc: true, f: float64(t.c)})
			} else {
				f.set(it, x, &FloatV{conc: true, f: float64(t.sval())})
			}
			return true
		}
		t = asTerm64(t, fi&types.IsUnsigned != 0)
		lim := int64(1) << 52
		if to.Kind() == types.Float32 {
			lim = 1 << 23
		}
		if t.lo < -lim || t.hi > lim {
			big := mkBOr(mkSLt(t, mkInt(-lim)), mkSLt(mkInt(lim), t))
			if r, _ := f.ex.sat(it.st, big, 5000); r != Unsat {
				panic(inconclusive("integer to float conversion may be inexact"))
			}
		}
		f.set(it, x, &FloatV{num: t})
	case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
		fv := v.(*FloatV)
		w := width(to)
		if fv.conc {
			f.set(it, x, mkConst(w, uint64(int64(fv.f))))
			return true
		}
		t := fv.num
		if fv.den > 0 {
			d := mkInt(int64(fv.den))
			t = mkIte(mkSLt(t, mkInt(0)), mkNeg(mkAShr(mkNeg(t), d)), mkAShr(t, d))
		}
		f.set(it, x, mkTrunc(t, w))
	case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
		f.set(it, x, v)
	default:
		panic(inconclusive("conversion " + x.String()))
	}
	return true
}

func (f *frame) binop(it *item, x *ssa.BinOp) bool {
	a, b := f.opnd(it, x.X), f.opnd(it, x.Y)
	if p, ok := a.(*FloatV); ok {
		f.set(it, x, floatOp(x.Op, p, b.(*FloatV)))
		return true
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		r := eqVal(a, b)
		switch x.Op {
		case token.EQL:
			f.set(it, x, r)
		case token.NEQ:
			f.set(it, x, mkNot(r))
		case token.ADD:
			s1, o1 := a.(StrV)
			s2, o2 := b.(StrV)
			if !o1 || !o2 {
				panic(inconclusive("string concatenation"))
			}
			f.set(it, x, s1+s2)
		default:
			panic(inconclusive("binop on references"))
		}
		return true
	}
	uns := isUnsigned(x.X.Type())
	var r *Term
	switch x.Op {
	case token.ADD:
		r = mkAdd(p, q)
	case token.SUB:
		r = mkSub(p, q)
	case token.MUL:
		r = mkMul(p, q)
	case token.QUO, token.REM:
		if !f.fail(it, mkEq(q, mkConst(q.w, 0)), "integer divide by zero") {
			return false
		}
		switch {
		case x.Op == token.QUO && uns:
			r = mkUDiv(p, q)
		case x.Op == token.QUO:
			r = mkSDiv(p, q)
		case uns:
			r = mkURem(p, q)
		default:
			r = mkSRem(p, q)
		}
	case token.AND:
		if p.w == 0 {
			r = mkBAnd(p, q)
		} else {
			r = mkAnd(p, q)
		}
	case token.OR:
		if p.w == 0 {
			r = mkBOr(p, q)
		} else {
			r = mkOr(p, q)
		}
	case token.XOR:
		r = mkXor(p, q)
	case token.AND_NOT:
		r = mkAnd(p, mkXor(q, mkConst(q.w, ^uint64(0))))
	case token.SHL, token.SHR:
		us := isUnsigned(x.Y.Type())
		if !us {
			if !f.fail(it, mkSLt(q, mkConst(q.w, 0)), "negative shift amount") {
				return false
			}
		}
		// bring the amount to the width of p, saturating
		if q.w < p.w {
			if us {
				q = mkZExt(q, p.w)
			} else {
				q = mkSExt(q, p.w)
			}
		} else if q.w > p.w {
			big := mkNot(mkULt(q, mkConst(q.w, uint64(p.w))))
			q = mkIte(big, mkConst(p.w, uint64(p.w)), mkTrunc(q, p.w))
		}
		if x.Op == token.SHL {
			r = mkShl(p, q)
		} else if uns {
			r = mkLShr(p, q)
		} else {
			r = mkAShr(p, q)
		}
	case token.EQL:
		r = mkEq(p, q)
	case token.NEQ:
		r = mkNot(mkEq(p, q))
	case token.LSS:
		if uns {
			r = mkULt(p, q)
		} else {
			r = mkSLt(p, q)
		}
	case token.LEQ:
		if uns {
			r = mkULe(p, q)
		} else {
			r = mkSLe(p, q)
		}
	case token.GTR:
		if uns {
			r = mkULt(q, p)
		} else {
			r = mkSLt(q, p)
		}
	case token.GEQ:
		if uns {
			r = mkULe(q, p)
		} else {
			r = mkSLe(q, p)
		}
	default:
		panic(inconclusive("binop " + x.Op.String()))
	}
	f.set(it, x, r)
	return true
}

func floatOp(op token.Token, a, b *FloatV) Value {
	if a.conc && b.conc {
		x, y := a.f, b.f
		switch op {
		case token.ADD:
			return &FloatV{conc: true, f: x + y}
		case token.SUB:
			return &FloatV{conc: true, f: x - y}
		case token.MUL:
			return &FloatV{conc: true, f: x * y}
		case token.QUO:
			return &FloatV{conc: true, f: x / y}
		case token.EQL:
			return mkBool(x == y)
		case token.NEQ:
			return mkBool(x != y)
		case token.LSS:
			return mkBool(x < y)
		case token.LEQ:
			return mkBool(x <= y)
		case token.GTR:
			return mkBool(x > y)
		case token.GEQ:
			return mkBool(x >= y)
		}
	}
	chk := func(t *Term) *Term {
		if t.lo < -(1<<53) || t.hi > 1<<53 {
			panic(inconclusive("floating-point arithmetic may be inexact"))
		}
		return t
	}
	if op == token.QUO && b.conc && b.f >= 1 && b.f == math.Trunc(b.f) && isPow2(uint64(b.f)) {
		n, d, ok := dyadic(a)
		if ok {
			for v := uint64(b.f); v > 1; v >>= 1 {
				d++
			}
			if d < 60 {
				return &FloatV{num: n, den: d}
			}
		}
	}
	if op == token.MUL {
		n, d, ok := dyadic(a)
		m, e, ok2 := dyadic(b)
		if ok && ok2 && d+e < 60 {
			return &FloatV{num: chk(mkMul(n, m)), den: d + e}
		}
	}
	p, q, d, ok := alignF(a, b)
	if ok {
		chk(p)
		chk(q)
		switch op {
		case token.ADD:
			return &FloatV{num: chk(mkAdd(p, q)), den: d}
		case token.SUB:
			return &FloatV{num: chk(mkSub(p, q)), den: d}
		case token.EQL:
			return mkEq(p, q)
		case token.NEQ:
			return mkNot(mkEq(p, q))
		case token.LSS:
			return mkSLt(p, q)
		case token.LEQ:
			return mkSLe(p, q)
		case token.GTR:
			return mkSLt(q, p)
		case token.GEQ:
			return mkSLe(q, p)
		}
	}
	panic(inconclusive("symbolic floating-point operation " + op.String()))
}

// eqVal compares non-numeric values.
func eqVal(a, b Value) *Term {
	r := tFalse
	for _, x := range altsOf(a) {
		for _, y := range altsOf(b) {
			r = mkBOr(r, mkBAnd(x.g, y.g, eqVal1(x.v, y.v)))
		}
	}
	return r
}

func eqVal1(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return mkEq(x, b.(*Term))
	case StrV:
		return mkBool(x == b.(StrV))
	case *PtrV:
		y := b.(*PtrV)
		if x.obj != y.obj || len(x.path) != len(y.path) {
			return tFalse
		}
		r := tTrue
		for i := range x.path {
			r = mkBAnd(r, mkEq(x.path[i].term(), y.path[i].term()))
		}
		return r
	case *SliceV: // only comparison with nil
		y := b.(*SliceV)
		if x.base == nil || y.base == nil {
			return mkBool(x.base == nil && y.base == nil)
		}
	case *FuncV:
		y := b.(*FuncV)
		if x.fn == nil && x.bi == nil || y.fn == nil && y.bi == nil {
			return mkBool(x.fn == nil && x.bi == nil && y.fn == nil && y.bi == nil)
		}
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			panic(inconclusive("interface comparison"))
		}
		if x.typ == nil || y.typ == nil {
			return mkBool(x.typ == nil && y.typ == nil)
		}
		if !types.Identical(x.typ, y.typ) {
			return tFalse
		}
		return eqVal(x.val, y.val)
	case *Agg:
		y := b.(*Agg)
		r := tTrue
		for i := range x.elems {
			r = mkBAnd(r, eqVal(x.elems[i], y.elems[i]))
		}
		return r
	case *FloatV:
		return floatOp(token.EQL, x, b.(*FloatV)).(*Term)
	}
	panic(inconclusive(fmt.Sprintf("comparison of %T", a)))
}

var debugOn = os.Getenv("GOSYM_DEBUG") != ""
