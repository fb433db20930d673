package sym

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

// opnd is a register or a constant.
type opnd struct {
	reg int32 // >= 0
	val Value
}

type inst struct {
	ins ssa.Instruction
	dst int32
	ops []opnd
	typ types.Type // result type
	aux int
	lay *layoutInfo
	fn  *ssa.Function // static callee
}

type blockInfo struct {
	ins   []inst
	nphi  int
	succs []int32
	preds []int32
}

type fnInfo struct {
	fn      *ssa.Function
	blocks  []blockInfo
	nregs   int
	params  []int32
	free    []int32
	recov   int32
	inRepo  bool
	harness bool
	id      uint64
	liveMu  sync.Mutex
	liveOut [][]bool
	liveAt  sync.Map // int64 -> []int32
}

var fnInfos sync.Map // *ssa.Function -> *fnInfo
var fnMu sync.Mutex
var fnCount uint64

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if v, ok := fnInfos.Load(fn); ok {
		return v.(*fnInfo)
	}
	fnMu.Lock()
	defer fnMu.Unlock()
	if v, ok := fnInfos.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := e.compile(fn)
	fnCount++
	fi.id = fnCount
	fnInfos.Store(fn, fi)
	return fi
}

func (e *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		if _, ok := t.Underlying().(*types.Tuple); ok {
			return nil
		}
		return zeroValue(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := width(t); ok {
			if w == 0 {
				return smt.Bool(constant.BoolVal(c.Value))
			}
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return smt.Const(w, uint64(i))
			}
			if i, ok := constant.Uint64Val(v); ok {
				return smt.Const(w, i)
			}
			panic(unsupported{"constant " + c.String()})
		}
		if u.Info()&types.IsString != 0 {
			if c.Value.Kind() == constant.String {
				return constStr(constant.StringVal(c.Value))
			}
			i, _ := constant.Int64Val(c.Value)
			return constStr(string(rune(i)))
		}
		if u.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(c.Value)
			return FloatV(f)
		}
		if u.Info()&types.IsComplex != 0 {
			return FloatV(0)
		}
	case *types.TypeParam, *types.Interface:
		return nil
	}
	panic(unsupported{"constant " + c.String()})
}

func (e *Engine) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, recov: -1}
	if fn.Pkg != nil {
		fi.inRepo = e.isRepo(fn.Pkg.Pkg.Path())
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		fi.inRepo = e.isRepo(fn.Origin().Pkg.Pkg.Path())
	}
	for p := fn; p != nil; p = p.Parent() {
		if pos := p.Pos(); pos.IsValid() {
			if strings.Contains(e.Fset.Position(pos).Filename, "zz") {
				fi.harness = true
			}
		}
	}
	if fi.harness {
		fi.inRepo = false
	}
	regOf := map[ssa.Value]int32{}
	nr := int32(0)
	newReg := func(v ssa.Value) int32 {
		regOf[v] = nr
		nr++
		return nr - 1
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, newReg(p))
	}
	for _, p := range fn.FreeVars {
		fi.free = append(fi.free, newReg(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				newReg(v)
			}
		}
	}
	mkop := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{reg: -1}
		}
		switch c := v.(type) {
		case *ssa.Const:
			return opnd{reg: -1, val: e.constVal(c)}
		case *ssa.Global:
			return opnd{reg: -1, val: e.globalPtr(c)}
		case *ssa.Function:
			return opnd{reg: -1, val: &FuncV{fn: c}}
		case *ssa.Builtin:
			return opnd{reg: -1, val: &FuncV{blt: c}}
		}
		r, ok := regOf[v]
		if !ok {
			panic(fmt.Sprintf("no register for %s in %s", v, fn))
		}
		return opnd{reg: r}
	}
	fi.blocks = make([]blockInfo, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		blk := &fi.blocks[bi]
		for _, s := range b.Succs {
			blk.succs = append(blk.succs, int32(s.Index))
		}
		for _, p := range b.Preds {
			blk.preds = append(blk.preds, int32(p.Index))
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := inst{ins: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regOf[v]
				ci.typ = v.Type()
			}
			var rands []*ssa.Value
			if _, ok := in.(*ssa.Phi); ok {
				blk.nphi++
			}
			rands = in.Operands(nil)
			if d, ok := in.(*ssa.Defer); ok && len(rands) > 0 {
				if d.DeferStack != nil {
					panic(unsupported{"defer stack"})
				}
				rands = rands[:len(rands)-1]
			}
			for _, r := range rands {
				ci.ops = append(ci.ops, mkop(*r))
			}
			e.precompute(&ci)
			blk.ins = append(blk.ins, ci)
		}
	}
	if fn.Recover != nil {
		fi.recov = int32(fn.Recover.Index)
	}
	fi.nregs = int(nr)
	return fi
}

// precompute fills the per-instruction derived data.
func (e *Engine) precompute(ci *inst) {
	switch in := ci.ins.(type) {
	case *ssa.Alloc:
		ci.lay = layout(in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.FieldAddr:
		st := in.X.Type().Underlying().(*types.Pointer).Elem()
		ci.aux = layout(st).offs[in.Field]
	case *ssa.Field:
		l := layout(in.X.Type())
		ci.aux = l.offs[in.Field]
		ci.lay = layout(in.Type())
	case *ssa.IndexAddr:
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			ci.aux = layout(u.Elem()).n
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			ci.aux = layout(a.Elem()).n
		}
	case *ssa.UnOp:
		if in.Op == token.MUL {
			ci.lay = layout(in.Type())
		}
	case *ssa.Call:
		e.precall(ci, in.Common())
	case *ssa.Defer:
		e.precall(ci, in.Common())
	case *ssa.Go:
		e.precall(ci, in.Common())
	}
}

func (e *Engine) precall(ci *inst, c *ssa.CallCommon) {
	if f := c.StaticCallee(); f != nil {
		ci.fn = e.redirect(f)
	}
}
