package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the SSA of /repo plus the harness, compiled lazily.
type Prog struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	fns     sync.Map // *ssa.Function -> *Fn
	mu      sync.Mutex
	globals map[*ssa.Global]int
	gList   []*ssa.Global
	mu2     sync.Mutex
	mu3     sync.Mutex
	fnCount int
	module  string
}

// Operand encoding: >=0 register, <0 constant ^i, >=gBase global.
const gBase = 1 << 24

type Fn struct {
	f       *ssa.Function
	name    string
	id      int
	once    sync.Once
	nregs   int
	consts  []V
	blocks  []*Block
	nparams int
	nfree   int
	recover *Block
	intr    func(w *W, args []V) V // native implementation
	model   *Fn                    // Go model that replaces it
	ext     bool                   // no body
	pure    atomic.Int32           // 0 unknown, 1 yes, 2 no, 3 in progress
	topo    []*Block
	results *types.Tuple
	repo    bool // belongs to the code under test
}

type Block struct {
	idx    int
	phis   []phiIns
	ins    []Ins
	succs  []*Block
	preds  []*Block
	pidx   []int // position of this block in succs[i].preds
	region *Region
	regOK  bool
	fn     *Fn
	pure   int8
	hit    atomic.Bool // it was executed (-cover)
}

type phiIns struct {
	dst   int32
	edges []int32
	ti    tinfo
	named bool
}

type Ins struct {
	op   opcode
	tok  token.Token
	ti   tinfo // operand type
	ti2  tinfo // result type
	a, b int32
	c    int32
	d    int32
	dst  int32
	args []int32
	x    any
	t    types.Type
	n    int
	flag bool
	pos  token.Pos
}

type opcode uint8

const (
	iNop opcode = iota
	iAlloc
	iBinOp
	iUnOp
	iLoad
	iCall
	iInvoke
	iCallDyn
	iBuiltin
	iChangeType
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeClosure
	iMakeIface
	iMakeMap
	iMakeSlice
	iMakeChan
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSelect
	iSend
	iSlice
	iStore
	iTypeAssert
	iChangeIface
	iSliceToArr
	iUnsupported
)

func loadProg(repo string, overlay map[string][]byte, patterns []string, env []string) (*Prog, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: overlay,
		Env:     env,
	}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{prog: prog, pkgs: map[string]*ssa.Package{}, globals: map[*ssa.Global]int{}, module: "github.com/stephen/cssc"}
	for _, sp := range prog.AllPackages() {
		if sp != nil && sp.Pkg != nil {
			p.pkgs[sp.Pkg.Path()] = sp
		}
	}
	return p, nil
}

func (p *Prog) fnOf(f *ssa.Function) *Fn {
	if v, ok := p.fns.Load(f); ok {
		return v.(*Fn)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if v, ok := p.fns.Load(f); ok {
		return v.(*Fn)
	}
	fn := &Fn{f: f, name: fullName(f), id: p.fnCount, results: f.Signature.Results()}
	p.fnCount++
	pos := p.prog.Fset.Position(f.Pos())
	fn.repo = strings.HasPrefix(pos.Filename, repoDir+"/") && !strings.Contains(pos.Filename, "/internal/zz")
	p.fns.Store(f, fn)
	return fn
}

func (p *Prog) global(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := len(p.gList)
	p.globals[g] = i
	p.gList = append(p.gList, g)
	return i
}

func (p *Prog) numGlobals() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return len(p.gList)
}

func (p *Prog) globalAt(i int) *ssa.Global {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.gList[i]
}

type compiler struct {
	p    *Prog
	fn   *Fn
	regs map[ssa.Value]int32
	cidx map[any]int32
}

func (fn *Fn) compile(p *Prog) {
	fn.once.Do(func() {
		name := fn.name
		if m, ok := modelNames[name]; ok && !strings.HasSuffix(fnPkgPath(fn.f), "/zz") {
			zp := p.pkgs[zzPath]
			if zp != nil {
				if mf := zp.Func(m); mf != nil {
					fn.model = p.fnOf(mf)
					fn.model.compile(p)
					return
				}
				panic("missing model " + m + " for " + name)
			}
		}
		if in, ok := intrinsics[name]; ok {
			fn.intr = in
			fn.nparams = len(fn.f.Params)
			return
		}
		if fn.f.Blocks == nil {
			fn.ext = true
			return
		}
		c := &compiler{p: p, fn: fn, regs: map[ssa.Value]int32{}, cidx: map[any]int32{}}
		c.run()
	})
}

func fnPkgPath(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	return ""
}

func (c *compiler) reg(v ssa.Value) int32 {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := int32(len(c.regs))
	c.regs[v] = r
	return r
}

func (c *compiler) constant(key any, v V) int32 {
	if i, ok := c.cidx[key]; ok {
		return i
	}
	i := ^int32(len(c.fn.consts))
	c.fn.consts = append(c.fn.consts, v)
	c.cidx[key] = i
	return i
}

func constV(k *ssa.Const) V {
	t := k.Type()
	if k.Value == nil {
		return zeroV(t)
	}
	ti := infoOf(t)
	switch ti.k {
	case kBool:
		return fromB(constant.BoolVal(k.Value))
	case kString:
		if k.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(k.Value))
		}
		i, _ := constant.Int64Val(k.Value)
		return mkStr(string(rune(i)))
	case kInt:
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return V{n: uint64(i) & maskW(ti.w)}
		}
		u, _ := constant.Uint64Val(v)
		return V{n: u & maskW(ti.w)}
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(k.Value))
		if ti.f32 {
			f = float64(float32(f))
		}
		return V{n: math.Float64bits(f)}
	case kIface:
		return V{}
	}
	return V{}
}

func (c *compiler) op(v ssa.Value) int32 {
	switch v := v.(type) {
	case *ssa.Const:
		cv := constV(v)
		if _, ok := cv.p.(*Agg); ok {
			return c.constant(v, cv)
		}
		var key any = v
		if cv.p == nil {
			key = cv.n
		}
		return c.constant(key, cv)
	case *ssa.Function:
		return c.constant(v, V{p: &Closure{fn: c.p.fnOf(v)}})
	case *ssa.Global:
		return int32(gBase + c.p.global(v))
	case *ssa.Builtin:
		return c.constant(v, V{p: &Closure{bltn: v.Name()}})
	}
	return c.reg(v)
}

func (c *compiler) run() {
	f := c.fn.f
	fn := c.fn
	for _, x := range f.Params {
		c.reg(x)
	}
	for _, x := range f.FreeVars {
		c.reg(x)
	}
	fn.nparams, fn.nfree = len(f.Params), len(f.FreeVars)
	bm := map[*ssa.BasicBlock]*Block{}
	for _, b := range f.Blocks {
		nb := &Block{idx: b.Index, fn: fn}
		bm[b] = nb
		fn.blocks = append(fn.blocks, nb)
	}
	if f.Recover != nil {
		if bm[f.Recover] == nil {
			nb := &Block{idx: f.Recover.Index, fn: fn}
			bm[f.Recover] = nb
			fn.blocks = append(fn.blocks, nb)
		}
		fn.recover = bm[f.Recover]
	}
	all := append([]*ssa.BasicBlock(nil), f.Blocks...)
	if f.Recover != nil {
		found := false
		for _, b := range all {
			if b == f.Recover {
				found = true
			}
		}
		if !found {
			all = append(all, f.Recover)
		}
	}
	for _, b := range all {
		nb := bm[b]
		for _, s := range b.Succs {
			nb.succs = append(nb.succs, bm[s])
		}
		for _, s := range b.Preds {
			nb.preds = append(nb.preds, bm[s])
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				pi := phiIns{dst: c.reg(ph), ti: infoOf(ph.Type())}
				_, pi.named = types.Unalias(ph.Type()).(*types.Named)
				for _, e := range ph.Edges {
					pi.edges = append(pi.edges, c.op(e))
				}
				nb.phis = append(nb.phis, pi)
				continue
			}
			if ins, ok := c.ins(in); ok {
				ins.pos = in.Pos()
				nb.ins = append(nb.ins, ins)
			}
		}
	}
	for _, b := range fn.blocks {
		for i, s := range b.succs {
			occ := 0
			for j := 0; j < i; j++ {
				if b.succs[j] == s {
					occ++
				}
			}
			for k, q := range s.preds {
				if q == b {
					if occ == 0 {
						b.pidx = append(b.pidx, k)
						break
					}
					occ--
				}
			}
		}
	}
	fn.nregs = len(c.regs)
}

func (c *compiler) callCommon(cc *ssa.CallCommon, ins *Ins) {
	for _, a := range cc.Args {
		ins.args = append(ins.args, c.op(a))
	}
	if cc.IsInvoke() {
		ins.op = iInvoke
		ins.a = c.op(cc.Value)
		ins.x = cc.Method
		return
	}
	switch v := cc.Value.(type) {
	case *ssa.Function:
		ins.op = iCall
		ins.x = c.p.fnOf(v)
	case *ssa.Builtin:
		ins.op = iBuiltin
		ins.x = v.Name()
		if len(cc.Args) > 0 {
			ins.t = cc.Args[0].Type()
			ins.ti = infoOf(ins.t)
		}
		for _, a := range cc.Args {
			if v.Name() == "append" || v.Name() == "copy" {
				if infoOf(a.Type()).k == kString {
					ins.flag = true
				}
			}
		}
	default:
		ins.op = iCallDyn
		ins.a = c.op(cc.Value)
	}
}

func (c *compiler) ins(in ssa.Instruction) (Ins, bool) {
	ins := Ins{dst: -1}
	if v, ok := in.(ssa.Value); ok {
		ins.dst = c.reg(v)
		ins.ti2 = infoOf(v.Type())
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return ins, false
	case *ssa.Alloc:
		ins.op = iAlloc
		ins.t = in.Type().Underlying().(*types.Pointer).Elem()
		ins.ti = infoOf(ins.t)
	case *ssa.BinOp:
		ins.op = iBinOp
		ins.tok = in.Op
		ins.a, ins.b = c.op(in.X), c.op(in.Y)
		ins.t = in.X.Type()
		ins.ti = infoOf(in.X.Type())
		if ins.ti.k == kOther { // untyped nil
			ins.ti = infoOf(in.Y.Type())
			ins.t = in.Y.Type()
		}
		yi := infoOf(in.Y.Type())
		ins.n = int(yi.w)
		ins.flag = yi.signed
	case *ssa.UnOp:
		if in.Op == token.MUL {
			ins.op = iLoad
			ins.a = c.op(in.X)
			ins.ti = infoOf(in.Type())
			ins.t = in.Type()
			break
		}
		ins.op = iUnOp
		ins.tok = in.Op
		ins.a = c.op(in.X)
		ins.ti = infoOf(in.X.Type())
		ins.flag = in.CommaOk
		ins.t = in.X.Type()
	case *ssa.Call:
		c.callCommon(&in.Call, &ins)
	case *ssa.Defer:
		c.callCommon(&in.Call, &ins)
		sub := ins
		ins = Ins{op: iDefer, x: &sub, dst: -1}
	case *ssa.Go:
		c.callCommon(&in.Call, &ins)
		sub := ins
		ins = Ins{op: iGo, x: &sub, dst: -1}
	case *ssa.ChangeInterface:
		ins.op = iChangeIface
		ins.a = c.op(in.X)
	case *ssa.ChangeType:
		ins.op = iChangeType
		ins.a = c.op(in.X)
	case *ssa.Convert:
		ins.op = iConvert
		ins.a = c.op(in.X)
		ins.ti = infoOf(in.X.Type())
		ins.t = in.Type()
		if ins.ti.k == kSlice {
			ins.n = int(infoOf(in.X.Type().Underlying().(*types.Slice).Elem()).w)
		}
		if ins.ti2.k == kSlice {
			ins.n = int(infoOf(in.Type().Underlying().(*types.Slice).Elem()).w)
		}
	case *ssa.MultiConvert:
		ins.op = iUnsupported
		ins.x = "MultiConvert"
	case *ssa.Extract:
		ins.op = iExtract
		ins.a = c.op(in.Tuple)
		ins.n = in.Index
	case *ssa.Field:
		ins.op = iField
		ins.a = c.op(in.X)
		ins.n = in.Field
	case *ssa.FieldAddr:
		ins.op = iFieldAddr
		ins.a = c.op(in.X)
		ins.n = in.Field
		ins.t = in.X.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.If:
		ins.op = iIf
		ins.a = c.op(in.Cond)
	case *ssa.Index:
		ins.op = iIndex
		ins.a, ins.b = c.op(in.X), c.op(in.Index)
		ins.ti = infoOf(in.X.Type())
	case *ssa.IndexAddr:
		ins.op = iIndexAddr
		ins.a, ins.b = c.op(in.X), c.op(in.Index)
		ins.ti = infoOf(in.X.Type())
		if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			ins.t = pt.Elem()
		}
	case *ssa.Jump:
		ins.op = iJump
	case *ssa.Lookup:
		ins.op = iLookup
		ins.a, ins.b = c.op(in.X), c.op(in.Index)
		ins.ti = infoOf(in.X.Type())
		ins.flag = in.CommaOk
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			ins.t = mt.Elem()
			ins.ti = infoOf(mt.Key())
			ins.n = 1
		}
	case *ssa.MakeChan:
		ins.op = iMakeChan
		ins.a = c.op(in.Size)
	case *ssa.MakeClosure:
		ins.op = iMakeClosure
		ins.x = c.p.fnOf(in.Fn.(*ssa.Function))
		for _, b := range in.Bindings {
			ins.args = append(ins.args, c.op(b))
		}
	case *ssa.MakeInterface:
		ins.op = iMakeIface
		ins.a = c.op(in.X)
		ins.x = rtypeOf(in.X.Type())
	case *ssa.MakeMap:
		ins.op = iMakeMap
	case *ssa.MakeSlice:
		ins.op = iMakeSlice
		ins.a, ins.b = c.op(in.Len), c.op(in.Cap)
		ins.t = in.Type().Underlying().(*types.Slice).Elem()
	case *ssa.MapUpdate:
		ins.op = iMapUpdate
		ins.a, ins.b, ins.c = c.op(in.Map), c.op(in.Key), c.op(in.Value)
		ins.ti = infoOf(in.Key.Type())
	case *ssa.Next:
		ins.op = iNext
		ins.a = c.op(in.Iter)
		ins.flag = in.IsString
		ins.t = in.Type()
	case *ssa.Panic:
		ins.op = iPanic
		ins.a = c.op(in.X)
	case *ssa.Range:
		ins.op = iRange
		ins.a = c.op(in.X)
		ins.ti = infoOf(in.X.Type())
	case *ssa.Return:
		ins.op = iReturn
		for _, r := range in.Results {
			ins.args = append(ins.args, c.op(r))
		}
	case *ssa.RunDefers:
		ins.op = iRunDefers
	case *ssa.Select:
		ins.op = iSelect
		ins.x = in
		for _, s := range in.States {
			ins.args = append(ins.args, c.op(s.Chan))
			if s.Send != nil {
				ins.args = append(ins.args, c.op(s.Send))
			} else {
				ins.args = append(ins.args, ^int32(1<<20))
			}
		}
		ins.flag = in.Blocking
		ins.t = in.Type()
	case *ssa.Send:
		ins.op = iSend
		ins.a, ins.b = c.op(in.Chan), c.op(in.X)
	case *ssa.Slice:
		ins.op = iSlice
		ins.a = c.op(in.X)
		ins.ti = infoOf(in.X.Type())
		ins.args = []int32{-1 << 30, -1 << 30, -1 << 30}
		for i, v := range []ssa.Value{in.Low, in.High, in.Max} {
			if v != nil {
				ins.args[i] = c.op(v)
			}
		}
	case *ssa.SliceToArrayPointer:
		ins.op = iSliceToArr
		ins.a = c.op(in.X)
		ins.x = "SliceToArrayPointer"
	case *ssa.Store:
		ins.op = iStore
		ins.a, ins.b = c.op(in.Addr), c.op(in.Val)
		ins.ti = infoOf(in.Val.Type())
	case *ssa.TypeAssert:
		ins.op = iTypeAssert
		ins.a = c.op(in.X)
		ins.flag = in.CommaOk
		ins.t = in.AssertedType
		if it, ok := in.AssertedType.Underlying().(*types.Interface); ok {
			ins.x = it
		} else {
			ins.x = rtypeOf(in.AssertedType)
		}
	default:
		ins.op = iUnsupported
		ins.x = fmt.Sprintf("%T", in)
	}
	return ins, true
}

// ---- harness overlay ----

const zzPath = "github.com/stephen/cssc/internal/zz"
const zzvPath = "github.com/stephen/cssc/internal/zzv"

// overlayFiles maps the virtual files of the harness to their content.
func overlayFiles(repo, verif string) (map[string][]byte, map[string]string, error) {
	content := map[string][]byte{}
	paths := map[string]string{}
	for dir, virt := range map[string]string{"zz": "internal/zz", "zzv": "internal/zzv", "zzc": "internal/zzc", "zzp": "internal/zzp"} {
		ms, _ := filepath.Glob(filepath.Join(verif, "harness", dir, "*.go"))
		for _, m := range ms {
			b, err := os.ReadFile(m)
			if err != nil {
				return nil, nil, err
			}
			vp := filepath.Join(repo, virt, filepath.Base(m))
			content[vp] = b
			paths[vp] = m
		}
	}
	return content, paths, nil
}
