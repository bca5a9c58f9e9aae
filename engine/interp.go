package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	k uint8 // 0 const, 1 register, 2 global
	i int32
	v Value
}

type dinstr struct {
	op         uint8
	dst        int32
	x, y, z, w opnd
	args       []opnd
	in         ssa.Instruction
	it         intTy
	it2        intTy
	T          types.Type
	aux        any
	n          int
	b          bool
}

const (
	iAlloc = iota
	iBinOp
	iCall
	iChangeInterface
	iChangeType
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSlice
	iStore
	iTypeAssert
	iUnOp
	iNop
	iUnsupported
	iSliceToArrayPtr
)

type dblock struct {
	phis   []dphi
	instrs []dinstr
	preds  []*ssa.BasicBlock
	succs  []int
}

type dphi struct {
	dst   int32
	edges []opnd
}

type finfo struct {
	fn       *ssa.Function
	name     string
	nregs    int
	blocks   []dblock
	recover  int
	hasDefer bool
	intr     intrinsic
	noBody   bool
	nlocals  int
	short    string
	inRepo   bool
	id       int
}

type intrinsic func(ip *Interp, fn *finfo, args []Value) (Value, bool)

type Interp struct {
	P      *Program
	tc     *TermCtx
	solver *Solver
	run    *runStats
	h      *harnessRun
	out    []*workItem

	globals map[*ssa.Global]*Value
	undo    []undoRec
	logging bool
	pathNo  int
	pathState

	maxSteps    int64
	maxDepth    int
	curFn       *finfo
	called      map[*finfo]bool
	frozen      map[*Value]bool
	frozenOn    bool
	locked      int // locks held, and the like
	syncMaps    map[*Value]*Map
	mapOrder    bool
	mapOrderMax int
	mapBack     bool
	mapUsed     bool // in this path, at any time
	mapBudget   int  // iterations that may still be out of order; negative: any number
	typeIDs     map[types.Type]*Value
	onceVals    map[string]Value
	inOnce      bool
	thorough    bool
	initing     bool
	callers     []*finfo
	vfs         map[string]Value
	onceDone    map[*Value]bool
	natives     map[string]Value

	recoverFrame *frame
	regs         []Value
	regTop       int
	frames       []*frame
	recoverDepth int
}

type undoRec struct {
	p   *Value
	old Value
	f   func()
}

func (ip *Interp) set(p *Value, v Value) {
	if ip.logging {
		ip.undo = append(ip.undo, undoRec{p: p, old: *p})
		if ip.frozenOn && ip.frozen[p] {
			ip.frozenWrite()
		}
	}
	*p = v
}

func (ip *Interp) frozenWrite() {
	if ip.locked > 0 {
		return
	}
	where := "?"
	if ip.curFn != nil {
		where = ip.curFn.name
	}
	ip.violate("frozen", "write to shared state in "+where, ip.model)
}

func (ip *Interp) onUndo(f func()) {
	if ip.logging {
		ip.undo = append(ip.undo, undoRec{f: f})
	}
}

func (ip *Interp) rollback() {
	for i := len(ip.undo) - 1; i >= 0; i-- {
		u := ip.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
	}
	ip.undo = ip.undo[:0]
}

// store assigns v to the variable at p, keeping the identity of its fields' slots.
func (ip *Interp) store(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if dst, ok := (*p).(Struct); ok && len(dst) == len(v) {
			for i := range v {
				ip.store(&dst[i], v[i])
			}
			return
		}
		ip.set(p, copyVal(v))
	case Array:
		if dst, ok := (*p).(Array); ok && len(dst) == len(v) {
			for i := range v {
				ip.store(&dst[i], v[i])
			}
			return
		}
		ip.set(p, copyVal(v))
	default:
		ip.set(p, v)
	}
}

// ours tells whether g is a variable of the code under test.
func (p *Program) ours(g *ssa.Global) bool {
	if g.Pkg == nil || strings.HasPrefix(g.Name(), "init$") {
		return false
	}
	path := g.Pkg.Pkg.Path()
	return strings.HasPrefix(path, modPath) && !strings.HasPrefix(path, modPath+"/internal/verif")
}

func (ip *Interp) global(g *ssa.Global) *Value {
	if p, ok := ip.globals[g]; ok {
		return p
	}
	if g.Pkg != nil && !strings.HasPrefix(g.Name(), "init$") {
		if path := g.Pkg.Pkg.Path(); !ip.P.initAllowed(path) && !zeroGlobals[path+"."+g.Name()] {
			ip.unsupported("global %s.%s (package not initialised)", path, g.Name())
		}
	}
	p := newSlot(zero(g.Type().Underlying().(*types.Pointer).Elem()))
	ip.globals[g] = p
	return p
}

var traceCalls = os.Getenv("GOSYM_TRACE") != ""

// ---------------------------------------------------------------------------
// decoding

func (P *Program) info(fn *ssa.Function) *finfo {
	if v, ok := P.infos.Load(fn); ok {
		return v.(*finfo)
	}
	P.infoMu.Lock()
	defer P.infoMu.Unlock()
	if v, ok := P.infos.Load(fn); ok {
		return v.(*finfo)
	}
	fi := &finfo{fn: fn, name: fn.String()}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	if in, ok := intrinsics[o.String()]; ok {
		fi.intr = in
	} else if in, ok := intrinsics[fn.String()]; ok {
		fi.intr = in
	}
	if pkg := o.Package(); pkg != nil {
		fi.inRepo = isRepoPath(pkg.Pkg.Path())
		if fi.intr == nil && fn.Name() == "init" && !P.initAllowed(pkg.Pkg.Path()) && fn.Synthetic != "" {
			fi.intr = func(*Interp, *finfo, []Value) (Value, bool) { return nil, true }
		}
	}
	if len(fn.Blocks) == 0 {
		fi.noBody = true
	} else {
		P.decode(fi)
	}
	P.infos.Store(fn, fi)
	return fi
}

func isRepoPath(p string) bool {
	return strings.HasPrefix(p, modPath) && !strings.Contains(p, "/verif")
}

const modPath = "github.com/arr-ai/wbnf"

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case u.Info()&types.IsInteger != 0:
			it := intTyOf(c.Type())
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return it.norm(i)
			}
			ui, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return int64(ui)
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return f
		case u.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			i, _ := constant.Int64Val(c.Value)
			return string(rune(i))
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		}
	}
	panic(fmt.Sprintf("constVal %v", c))
}

func (P *Program) decode(fi *finfo) {
	fn := fi.fn
	regs := map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range fn.Params {
		regs[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		regs[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	fi.nregs = int(n)
	op := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{}
		case *ssa.Const:
			return opnd{k: 0, v: constVal(v)}
		case *ssa.Global:
			return opnd{k: 2, v: v}
		case *ssa.Function:
			return opnd{k: 0, v: &Closure{fn: v}}
		case *ssa.Builtin:
			return opnd{k: 0, v: v}
		}
		i, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no register for %v in %v", v, fn))
		}
		return opnd{k: 1, i: i}
	}
	fi.recover = -1
	if fn.Recover != nil {
		fi.recover = fn.Recover.Index
	}
	fi.blocks = make([]dblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		db := &fi.blocks[bi]
		db.preds = b.Preds
		for _, s := range b.Succs {
			db.succs = append(db.succs, s.Index)
		}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				d := dphi{dst: regs[phi]}
				for _, e := range phi.Edges {
					d.edges = append(d.edges, op(e))
				}
				db.phis = append(db.phis, d)
				continue
			}
			d := dinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				d.dst = regs[v]
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				d.op = iAlloc
				d.T = in.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.BinOp:
				d.op = iBinOp
				d.x, d.y = op(in.X), op(in.Y)
				d.aux = in.Op
				d.T = in.X.Type()
				d.it = intTyOf(in.X.Type())
				d.it2 = intTyOf(in.Y.Type())
			case *ssa.Call:
				d.op = iCall
				P.decodeCall(&d, &in.Call, op)
			case *ssa.Defer:
				d.op = iDefer
				fi.hasDefer = true
				P.decodeCall(&d, &in.Call, op)
			case *ssa.ChangeInterface:
				d.op = iChangeInterface
				d.x = op(in.X)
			case *ssa.ChangeType:
				d.op = iChangeType
				d.x = op(in.X)
			case *ssa.Convert:
				d.op = iConvert
				d.x = op(in.X)
				d.T = in.Type()
				d.aux = in.X.Type()
				d.it = intTyOf(in.X.Type())
				d.it2 = intTyOf(in.Type())
			case *ssa.MultiConvert:
				d.op = iConvert
				d.x = op(in.X)
				d.T = in.Type()
				d.aux = in.X.Type()
				d.it = intTyOf(in.X.Type())
				d.it2 = intTyOf(in.Type())
			case *ssa.Extract:
				d.op = iExtract
				d.x = op(in.Tuple)
				d.n = in.Index
			case *ssa.Field:
				d.op = iField
				d.x = op(in.X)
				d.n = in.Field
			case *ssa.FieldAddr:
				d.op = iFieldAddr
				d.x = op(in.X)
				d.n = in.Field
			case *ssa.If:
				d.op = iIf
				d.x = op(in.Cond)
			case *ssa.Index:
				d.op = iIndex
				d.x, d.y = op(in.X), op(in.Index)
				d.it2 = intTyOf(in.Index.Type())
				d.it = intTyOf(in.Type())
			case *ssa.IndexAddr:
				d.op = iIndexAddr
				d.x, d.y = op(in.X), op(in.Index)
				d.it2 = intTyOf(in.Index.Type())
			case *ssa.Jump:
				d.op = iJump
			case *ssa.Lookup:
				d.op = iLookup
				d.x, d.y = op(in.X), op(in.Index)
				d.b = in.CommaOk
				t := in.Type()
				if in.CommaOk {
					t = t.(*types.Tuple).At(0).Type()
				}
				d.T = t
				if m, ok := in.X.Type().Underlying().(*types.Map); ok {
					d.aux = m.Key()
				}
				d.it2 = intTyOf(in.Index.Type())
			case *ssa.MakeClosure:
				d.op = iMakeClosure
				d.aux = in.Fn.(*ssa.Function)
				for _, b := range in.Bindings {
					d.args = append(d.args, op(b))
				}
			case *ssa.MakeInterface:
				d.op = iMakeInterface
				d.x = op(in.X)
				d.T = P.canon(in.X.Type())
			case *ssa.MakeMap:
				d.op = iMakeMap
			case *ssa.MakeSlice:
				d.op = iMakeSlice
				d.x, d.y = op(in.Len), op(in.Cap)
				d.T = in.Type().Underlying().(*types.Slice).Elem()
			case *ssa.MapUpdate:
				d.op = iMapUpdate
				d.x, d.y, d.z = op(in.Map), op(in.Key), op(in.Value)
				if m, ok := in.Map.Type().Underlying().(*types.Map); ok {
					d.aux = m.Key()
				}
			case *ssa.Next:
				d.op = iNext
				d.x = op(in.Iter)
				d.b = in.IsString
			case *ssa.Panic:
				d.op = iPanic
				d.x = op(in.X)
			case *ssa.Range:
				d.op = iRange
				d.x = op(in.X)
			case *ssa.Return:
				d.op = iReturn
				for _, r := range in.Results {
					d.args = append(d.args, op(r))
				}
			case *ssa.RunDefers:
				d.op = iRunDefers
			case *ssa.Slice:
				d.op = iSlice
				d.x = op(in.X)
				d.n = 0
				if in.Low != nil {
					d.y = op(in.Low)
					d.n |= 1
				}
				if in.High != nil {
					d.z = op(in.High)
					d.n |= 2
				}
				if in.Max != nil {
					d.w = op(in.Max)
					d.n |= 4
				}
			case *ssa.Store:
				d.op = iStore
				d.x, d.y = op(in.Addr), op(in.Val)
			case *ssa.TypeAssert:
				d.op = iTypeAssert
				d.x = op(in.X)
				d.b = in.CommaOk
				d.T = P.canon(in.AssertedType)
			case *ssa.UnOp:
				d.op = iUnOp
				d.x = op(in.X)
				d.aux = in.Op
				d.it = intTyOf(in.X.Type())
				d.b = in.CommaOk
			case *ssa.SliceToArrayPointer:
				d.op = iSliceToArrayPtr
				d.x = op(in.X)
				d.n = int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			default:
				d.op = iUnsupported
			}
			db.instrs = append(db.instrs, d)
		}
	}
}

type callAux struct {
	static  *ssa.Function
	fi      *finfo
	builtin *ssa.Builtin
	method  *types.Func
	argTys  []types.Type
}

func (P *Program) decodeCall(d *dinstr, c *ssa.CallCommon, op func(ssa.Value) opnd) {
	a := &callAux{}
	d.aux = a
	for _, x := range c.Args {
		d.args = append(d.args, op(x))
		a.argTys = append(a.argTys, x.Type())
	}
	if c.IsInvoke() {
		d.x = op(c.Value)
		a.method = c.Method
		return
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		a.builtin = f
	case *ssa.Function:
		a.static = f
	default:
		d.x = op(c.Value)
	}
}

// ---------------------------------------------------------------------------
// execution

type deferred struct {
	fn   *Closure
	bi   *callAux
	args []Value
}

type frame struct {
	fi        *finfo
	env       []Value
	block     int
	prev      int
	defers    []deferred
	result    Value
	panicking bool
	panicV    any
	recovered bool
}

func (ip *Interp) get(fr *frame, o *opnd) Value {
	switch o.k {
	case 1:
		return fr.env[o.i]
	case 2:
		return ip.global(o.v.(*ssa.Global))
	}
	return o.v
}

func (ip *Interp) unsupported(f string, a ...any) {
	panic(pathEnd{"unsupported", fmt.Sprintf(f, a...)})
}

func (ip *Interp) callFn(fn *ssa.Function, args []Value, env []Value) Value {
	return ip.callInfo(ip.P.info(fn), args, env)
}

func (ip *Interp) callClosure(c *Closure, args []Value) Value {
	if c == nil {
		ip.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.host != nil {
		return c.host(ip, args)
	}
	return ip.callFn(c.fn, args, c.env)
}

func (ip *Interp) callInfo(fi *finfo, args []Value, env []Value) Value {
	if fi.intr != nil {
		if v, ok := fi.intr(ip, fi, args); ok {
			return v
		}
	}
	if fi.noBody {
		ip.unsupported("call of %s (no body, not modelled)", fi.name)
	}
	if traceCalls {
		fmt.Fprintf(os.Stderr, "%*s%s\n", ip.depth, "", fi.name)
	}
	ip.depth++
	if ip.depth > ip.maxDepth {
		panic(pathEnd{"depth", "call depth limit in " + fi.name})
	}
	if fi.inRepo && !ip.initing {
		ip.called[fi] = true
	}
	prevFn := ip.curFn
	ip.curFn = fi
	// registers and frames live on stacks of the interpreter: nothing outlives its call
	base := ip.regTop
	if base+fi.nregs > len(ip.regs) {
		// the old stack stays alive as long as frames use it
		ip.regs = make([]Value, 2*len(ip.regs)+fi.nregs+4096)
		base = 0
	}
	regs := ip.regs[base : base+fi.nregs : base+fi.nregs]
	saveTop := base
	ip.regTop = base + fi.nregs
	n := copy(regs, args)
	n += copy(regs[n:], env)
	clear(regs[n:])
	if ip.depth >= len(ip.frames) {
		ip.frames = append(ip.frames, make([]*frame, 64)...)
	}
	fr := ip.frames[ip.depth]
	if fr == nil {
		fr = new(frame)
		ip.frames[ip.depth] = fr
	}
	*fr = frame{fi: fi, prev: -1, env: regs}
	if fi.hasDefer {
		ip.runDeferFrame(fr)
	} else {
		ip.exec(fr)
	}
	ip.curFn = prevFn
	ip.depth--
	ip.regTop = saveTop
	return fr.result
}

func (ip *Interp) runDeferFrame(fr *frame) {
	depth, regs, top := ip.depth, ip.regs, ip.regTop
	normal := false
	func() {
		defer func() {
			if normal {
				return
			}
			r := recover()
			switch p := r.(type) {
			case targetPanic:
				ip.depth, ip.regs, ip.regTop = depth, regs, top
				ip.curFn = fr.fi
				fr.panicking = true
				fr.panicV = p
			default:
				panic(r)
			}
		}()
		ip.exec(fr)
		normal = true
	}()
	if !fr.panicking {
		return
	}
	ip.runDefers(fr)
	if fr.panicking {
		panic(fr.panicV)
	}
	// recovered: continue at the recover block, which loads named results
	if fr.fi.recover >= 0 {
		fr.block = fr.fi.recover
		fr.prev = -1
		ip.exec(fr)
	} else {
		// zero results
		res := fr.fi.fn.Signature.Results()
		switch res.Len() {
		case 0:
		case 1:
			fr.result = zero(res.At(0).Type())
		default:
			fr.result = zero(res)
		}
	}
}

func (ip *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth, regs, top := ip.depth, ip.regs, ip.regTop
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				if p, is := r.(targetPanic); is {
					ip.depth, ip.regs, ip.regTop = depth, regs, top
					ip.curFn = fr.fi
					fr.panicking = true
					fr.panicV = p
					return
				}
				panic(r)
			}()
			ip.callDeferred(fr, d)
			ok = true
		}()
	}
}

func (ip *Interp) callDeferred(fr *frame, d deferred) {
	if d.bi != nil {
		if d.bi.builtin.Name() == "recover" {
			// "defer recover()" never recovers
			return
		}
		ip.builtin(fr, d.bi, d.args)
		return
	}
	// the deferred function may call recover(), which refers to fr
	save, saveD := ip.recoverFrame, ip.recoverDepth
	ip.recoverFrame = fr
	ip.recoverDepth = ip.depth + 1
	defer func() { ip.recoverFrame, ip.recoverDepth = save, saveD }()
	ip.callClosure(d.fn, d.args)
}

func (ip *Interp) exec(fr *frame) {
	fi := fr.fi
	env := fr.env
	for {
		b := &fi.blocks[fr.block]
		if len(b.phis) > 0 {
			pi := -1
			for i, p := range b.preds {
				if p.Index == fr.prev {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				env[b.phis[0].dst] = ip.get(fr, &b.phis[0].edges[pi])
			} else {
				tmp := make([]Value, len(b.phis))
				for i := range b.phis {
					tmp[i] = ip.get(fr, &b.phis[i].edges[pi])
				}
				for i := range b.phis {
					env[b.phis[i].dst] = tmp[i]
				}
			}
		}
		ip.steps += int64(len(b.instrs))
		if ip.steps > ip.maxSteps {
			panic(pathEnd{"steps", "step limit in " + fi.name})
		}
	instrs:
		for ii := range b.instrs {
			d := &b.instrs[ii]
			switch d.op {
			case iAlloc:
				env[d.dst] = newSlot(zero(d.T))
			case iBinOp:
				env[d.dst] = ip.binop(d, ip.get(fr, &d.x), ip.get(fr, &d.y))
			case iUnOp:
				env[d.dst] = ip.unop(d, ip.get(fr, &d.x))
			case iCall:
				env[d.dst] = ip.call(fr, d)
			case iChangeInterface, iChangeType:
				env[d.dst] = ip.get(fr, &d.x)
			case iConvert:
				env[d.dst] = ip.convert(d, ip.get(fr, &d.x))
			case iDefer:
				a := d.aux.(*callAux)
				args := make([]Value, len(d.args))
				for i := range d.args {
					args[i] = ip.get(fr, &d.args[i])
				}
				df := deferred{args: args}
				switch {
				case a.builtin != nil:
					df.bi = a
				case a.method != nil:
					recv := ip.get(fr, &d.x).(Iface)
					if recv.t == nil {
						ip.rtPanic("invalid memory address or nil pointer dereference")
					}
					f := ip.P.method(recv.t, a.method)
					df.fn = &Closure{fn: f}
					df.args = append([]Value{recv.v}, args...)
				case a.static != nil:
					df.fn = &Closure{fn: a.static}
				default:
					df.fn = ip.get(fr, &d.x).(*Closure)
				}
				fr.defers = append(fr.defers, df)
			case iExtract:
				env[d.dst] = ip.get(fr, &d.x).(Tuple)[d.n]
			case iField:
				env[d.dst] = ip.get(fr, &d.x).(Struct)[d.n]
			case iFieldAddr:
				p, ok := ip.get(fr, &d.x).(*Value)
				if !ok {
					ip.unsupported("field address of %T in %s", ip.get(fr, &d.x), fi.name)
				}
				if p == nil {
					ip.rtPanic("invalid memory address or nil pointer dereference")
				}
				env[d.dst] = &(*p).(Struct)[d.n]
			case iIf:
				var c bool
				switch t := ip.get(fr, &d.x).(type) {
				case bool:
					c = t
				case *Term:
					c = ip.branch(t)
				}
				fr.prev = fr.block
				if c {
					fr.block = b.succs[0]
				} else {
					fr.block = b.succs[1]
				}
				break instrs
			case iJump:
				fr.prev = fr.block
				fr.block = b.succs[0]
				break instrs
			case iIndex:
				env[d.dst] = ip.index(d, ip.get(fr, &d.x), ip.get(fr, &d.y))
			case iIndexAddr:
				env[d.dst] = ip.indexAddr(d, ip.get(fr, &d.x), ip.get(fr, &d.y))
			case iLookup:
				env[d.dst] = ip.lookup(d, ip.get(fr, &d.x), ip.get(fr, &d.y))
			case iMakeClosure:
				c := &Closure{fn: d.aux.(*ssa.Function), env: make([]Value, len(d.args))}
				for i := range d.args {
					c.env[i] = ip.get(fr, &d.args[i])
				}
				env[d.dst] = c
			case iMakeInterface:
				env[d.dst] = Iface{d.T, ip.get(fr, &d.x)}
			case iMakeMap:
				env[d.dst] = &Map{idx: map[any]int{}, born: ip.pathNo}
			case iMakeSlice:
				n := ip.intVal(ip.get(fr, &d.x))
				c := ip.intVal(ip.get(fr, &d.y))
				if n < 0 || n > 1<<24 {
					ip.rtPanic("makeslice: len out of range")
				}
				if c < n || c > 1<<24 {
					ip.rtPanic("makeslice: cap out of range")
				}
				env[d.dst] = ip.makeSlice(d.T, int(n), int(c))
			case iMapUpdate:
				m := ip.get(fr, &d.x).(*Map)
				if m == nil {
					ip.goPanicStr("assignment to entry in nil map")
				}
				ip.mapSet(m, d.aux.(types.Type), ip.get(fr, &d.y), ip.get(fr, &d.z))
			case iNext:
				env[d.dst] = ip.next(d, ip.get(fr, &d.x))
			case iPanic:
				v := ip.get(fr, &d.x).(Iface)
				if v.t == nil {
					ip.rtPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
				}
				panic(targetPanic{v})
			case iRange:
				switch x := ip.get(fr, &d.x).(type) {
				case *Map:
					env[d.dst] = ip.newMapIter(x)
				default:
					env[d.dst] = &strIter{s: x}
				}
			case iReturn:
				switch len(d.args) {
				case 0:
				case 1:
					fr.result = ip.get(fr, &d.args[0])
				default:
					t := make(Tuple, len(d.args))
					for i := range d.args {
						t[i] = ip.get(fr, &d.args[i])
					}
					fr.result = t
				}
				return
			case iRunDefers:
				ip.runDefers(fr)
				if fr.panicking {
					panic(fr.panicV)
				}
			case iSlice:
				env[d.dst] = ip.sliceOp(fr, d)
			case iStore:
				switch p := ip.get(fr, &d.x).(type) {
				case *Value:
					if p == nil {
						ip.rtPanic("invalid memory address or nil pointer dereference")
					}
					ip.store(p, ip.get(fr, &d.y))
				case *SymPtr:
					i := ip.concretize(p.idx)
					ip.store(&p.base[i], ip.get(fr, &d.y))
				default:
					ip.unsupported("store through %T", p)
				}
			case iTypeAssert:
				env[d.dst] = ip.typeAssert(d, ip.get(fr, &d.x).(Iface))
			case iSliceToArrayPtr:
				s := ip.get(fr, &d.x).(Slice)
				if len(s) < d.n {
					ip.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), d.n))
				}
				ip.unsupported("slice to array pointer")
			default:
				ip.unsupported("instruction %T in %s", d.in, fi.name)
			}
		}
	}
}

func (ip *Interp) makeSlice(elem types.Type, n, c int) Slice {
	s := make(Slice, c)
	z := zero(elem)
	switch z.(type) {
	case Struct, Array:
		for i := range s {
			s[i] = zero(elem)
		}
	default:
		for i := range s {
			s[i] = z
		}
	}
	return s[:n:c]
}

func (ip *Interp) call(fr *frame, d *dinstr) Value {
	a := d.aux.(*callAux)
	if a.builtin != nil {
		args := make([]Value, len(d.args))
		for i := range d.args {
			args[i] = ip.get(fr, &d.args[i])
		}
		return ip.builtin(fr, a, args)
	}
	if a.static != nil {
		if a.fi == nil {
			a.fi = ip.P.info(a.static)
		}
		args := make([]Value, len(d.args))
		for i := range d.args {
			args[i] = ip.get(fr, &d.args[i])
		}
		return ip.callInfo(a.fi, args, nil)
	}
	if a.method != nil {
		recv, ok := ip.get(fr, &d.x).(Iface)
		if !ok {
			ip.unsupported("invoke on %T", ip.get(fr, &d.x))
		}
		if recv.t == nil {
			ip.rtPanic("invalid memory address or nil pointer dereference")
		}
		args := make([]Value, len(d.args)+1)
		args[0] = recv.v
		for i := range d.args {
			args[i+1] = ip.get(fr, &d.args[i])
		}
		f := ip.P.method(recv.t, a.method)
		if f == nil {
			ip.unsupported("no method %s on %s", a.method.Name(), recv.t)
		}
		return ip.callFn(f, args, nil)
	}
	args := make([]Value, len(d.args))
	for i := range d.args {
		args[i] = ip.get(fr, &d.args[i])
	}
	c, ok := ip.get(fr, &d.x).(*Closure)
	if !ok {
		ip.unsupported("call of %T", ip.get(fr, &d.x))
	}
	return ip.callClosure(c, args)
}

type methKey struct {
	t types.Type
	m string
}

func (P *Program) method(t types.Type, m *types.Func) *ssa.Function {
	key := methKey{t, m.Id()}
	if v, ok := P.meth.Load(key); ok {
		return v.(*ssa.Function)
	}
	f := P.lookupMethod(t, m.Pkg(), m.Name())
	P.meth.Store(key, f)
	return f
}

func (P *Program) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	P.mu.Lock()
	defer P.mu.Unlock()
	sel := P.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return P.prog.MethodValue(sel)
}

type implKey struct{ t, i types.Type }

func (P *Program) implements(t types.Type, i types.Type) bool {
	key := implKey{t, i}
	if v, ok := P.impl.Load(key); ok {
		return v.(bool)
	}
	P.mu.Lock()
	r := types.Implements(t, i.Underlying().(*types.Interface))
	P.mu.Unlock()
	P.impl.Store(key, r)
	return r
}

func (ip *Interp) typeAssert(d *dinstr, x Iface) Value {
	var v Value
	ok := false
	if _, isI := d.T.Underlying().(*types.Interface); isI {
		if x.t != nil && ip.P.implements(x.t, d.T) {
			v, ok = x, true
		}
	} else if x.t == d.T {
		v, ok = x.v, true
	}
	if d.b {
		if !ok {
			v = zero(d.T)
		}
		return Tuple{v, ok}
	}
	if !ok {
		it := d.in.(*ssa.TypeAssert).X.Type()
		msg := ""
		switch {
		case x.t == nil:
			msg = fmt.Sprintf("interface conversion: %s is nil, not %s", typeName(it), typeName(d.T))
			if _, isI := d.T.Underlying().(*types.Interface); isI {
				msg = fmt.Sprintf("interface conversion: interface is nil, not %s", typeName(d.T))
			}
		default:
			if _, isI := d.T.Underlying().(*types.Interface); isI {
				msg = fmt.Sprintf("interface conversion: %s is not %s: missing method", typeName(x.t), typeName(d.T))
			} else {
				msg = fmt.Sprintf("interface conversion: %s is %s, not %s", typeName(it), typeName(x.t), typeName(d.T))
			}
		}
		ip.rtPanicRaw(msg)
	}
	return v
}

func typeName(t types.Type) string {
	if i, ok := t.(*types.Interface); ok && i.Empty() {
		return "interface {}"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// rtPanic raises a Go runtime error.
func (ip *Interp) rtPanic(msg string) {
	ip.rtPanicRaw("runtime error: " + msg)
}

func (ip *Interp) rtPanicRaw(msg string) {
	panic(targetPanic{Iface{ip.rtErrType(), msg}})
}

func (ip *Interp) goPanicStr(msg string) { ip.rtPanicRaw(msg) }

func (ip *Interp) rtErrType() types.Type {
	return ip.P.canon(ip.P.pkgs["runtime"].Pkg.Scope().Lookup("errorString").Type())
}

var _ = token.ADD
