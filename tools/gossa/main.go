// gossa dumps the SSA form (golang.org/x/tools/go/ssa, generic bodies, no
// instantiation) of every non-test function of a Go module as JSON.  It is the
// only thing that stands between /repo's source and the condition generator:
// nothing is dropped except debug references; go/ssa's lowering of Go
// statements is trusted.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]any

var (
	named   = map[string]M{}
	pending []*types.Named
	modPath string
	prog    *ssa.Program
	fset    *token.FileSet
)

func short(p *types.Package) string {
	if p == nil {
		return ""
	}
	s := p.Path()
	s = strings.TrimPrefix(s, modPath+"/internal/pkg/")
	s = strings.TrimPrefix(s, modPath+"/pkg/")
	s = strings.TrimPrefix(s, modPath+"/")
	if s == modPath {
		s = "frozen"
	}
	return s
}

func namedKey(n *types.Named) string {
	o := n.Origin().Obj()
	k := o.Name()
	if o.Pkg() != nil {
		k = short(o.Pkg()) + "." + k
		if o.Parent() != o.Pkg().Scope() && o.Parent() != nil {
			k += fmt.Sprintf("@%d", o.Pos()) // local type
		}
	}
	return k
}

func typ(t types.Type) any {
	switch t := types.Unalias(t).(type) {
	case *types.Basic:
		return M{"k": "basic", "n": t.Name()}
	case *types.Named:
		o := t.Origin()
		key := namedKey(t)
		if _, ok := named[key]; !ok {
			named[key] = M{}
			pending = append(pending, o)
		}
		args := []any{}
		for i := 0; i < t.TypeArgs().Len(); i++ {
			args = append(args, typ(t.TypeArgs().At(i)))
		}
		if t == o && t.TypeParams().Len() > 0 {
			for i := 0; i < t.TypeParams().Len(); i++ {
				args = append(args, typ(t.TypeParams().At(i)))
			}
		}
		return M{"k": "named", "n": key, "a": args}
	case *types.Pointer:
		return M{"k": "ptr", "e": typ(t.Elem())}
	case *types.Slice:
		return M{"k": "slice", "e": typ(t.Elem())}
	case *types.Array:
		return M{"k": "array", "e": typ(t.Elem()), "len": t.Len()}
	case *types.Map:
		return M{"k": "map", "key": typ(t.Key()), "e": typ(t.Elem())}
	case *types.Chan:
		return M{"k": "chan", "e": typ(t.Elem())}
	case *types.Struct:
		fs := []any{}
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, M{"n": f.Name(), "t": typ(f.Type()), "emb": f.Embedded()})
		}
		return M{"k": "struct", "f": fs}
	case *types.Tuple:
		fs := []any{}
		for i := 0; i < t.Len(); i++ {
			fs = append(fs, typ(t.At(i).Type()))
		}
		return M{"k": "tuple", "e": fs}
	case *types.Signature:
		return M{"k": "func", "p": typ(t.Params()), "r": typ(t.Results()), "v": t.Variadic()}
	case *types.Interface:
		ms := []string{}
		sigs := M{}
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name())
			sg := t.Method(i).Type().(*types.Signature)
			sigs[t.Method(i).Name()] = M{"k": "func", "p": typ(sg.Params()), "r": typ(sg.Results()), "v": sg.Variadic()}
		}
		return M{"k": "iface", "m": ms, "sigs": sigs}
	case *types.TypeParam:
		return M{"k": "tp", "n": t.Obj().Name()}
	case *types.Union:
		return M{"k": "union"}
	}
	return M{"k": "other", "n": fmt.Sprintf("%T %v", t, t)}
}

func fnKey(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Parent() != nil {
		name := fn.Name()
		// closures are named parent$1 ...
		if i := strings.LastIndex(name, "$"); i >= 0 {
			return fnKey(fn.Parent()) + name[i:]
		}
		return fnKey(fn.Parent()) + "$" + name
	}
	if obj, ok := fn.Object().(*types.Func); ok {
		obj = obj.Origin()
		sig := obj.Type().(*types.Signature)
		if r := sig.Recv(); r != nil {
			t := types.Unalias(r.Type())
			star := ""
			if p, ok := t.(*types.Pointer); ok {
				star = "*"
				t = types.Unalias(p.Elem())
			}
			if n, ok := t.(*types.Named); ok {
				k := namedKey(n)
				i := strings.LastIndex(k, ".")
				k = k[:i+1] + "(" + star + k[i+1:] + ")." + fn.Name()
				if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "instantiation") && !strings.HasPrefix(fn.Synthetic, "instance") {
					k += "#" + strings.Fields(fn.Synthetic)[0]
				}
				return k
			}
			return "iface." + fn.Name() + "#" + fn.Synthetic
		}
		k := short(obj.Pkg()) + "." + obj.Name()
		return k
	}
	p := ""
	if fn.Pkg != nil {
		p = short(fn.Pkg.Pkg)
	}
	return p + "." + fn.Name()
}

func targs(fn *ssa.Function) []any {
	r := []any{}
	for _, t := range fn.TypeArgs() {
		r = append(r, typ(t))
	}
	return r
}

func val(v ssa.Value) any {
	if v == nil {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Const:
		m := M{"k": "const", "t": typ(v.Type())}
		if v.Value == nil {
			m["nil"] = true
		} else {
			switch v.Value.Kind() {
			case constant.Bool:
				m["b"] = constant.BoolVal(v.Value)
			case constant.String:
				m["s"] = constant.StringVal(v.Value)
			case constant.Int:
				m["i"] = v.Value.ExactString()
			default:
				if i := constant.ToInt(v.Value); i.Kind() == constant.Int {
					m["i"] = i.ExactString()
				} else {
					m["x"] = v.Value.ExactString()
				}
			}
		}
		return m
	case *ssa.Function:
		return M{"k": "fn", "n": fnKey(v), "ta": targs(v), "t": typ(v.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": v.Name()}
	case *ssa.Global:
		return M{"k": "global", "n": short(v.Pkg.Pkg) + "." + v.Name(), "t": typ(v.Type())}
	case *ssa.FreeVar:
		return M{"k": "free", "n": v.Name(), "t": typ(v.Type())}
	case *ssa.Parameter:
		return M{"k": "reg", "n": "p:" + v.Name(), "t": typ(v.Type())}
	}
	return M{"k": "reg", "n": v.Name(), "t": typ(v.Type())}
}

func vals(vs []ssa.Value) []any {
	r := []any{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func call(c *ssa.CallCommon) M {
	m := M{"args": vals(c.Args)}
	if c.IsInvoke() {
		m["mode"] = "invoke"
		m["recv"] = val(c.Value)
		m["method"] = c.Method.Name()
		m["sig"] = typ(c.Method.Type())
	} else if fn := c.StaticCallee(); fn != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			m["mode"] = "dyn"
			m["fn"] = val(mc)
		} else {
			m["mode"] = "static"
			m["fn"] = fnKey(fn)
			m["ta"] = targs(fn)
			m["sig"] = typ(fn.Signature)
		}
	} else if b, ok := c.Value.(*ssa.Builtin); ok {
		m["mode"] = "builtin"
		m["fn"] = b.Name()
	} else {
		m["mode"] = "dyn"
		m["fn"] = val(c.Value)
	}
	return m
}

func instr(in ssa.Instruction) M {
	m := M{}
	if p := in.Pos(); p.IsValid() {
		pp := fset.Position(p)
		m["pos"] = fmt.Sprintf("%s:%d", pp.Filename, pp.Line)
	}
	if v, ok := in.(ssa.Value); ok {
		m["r"] = v.Name()
		m["t"] = typ(v.Type())
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		m["op"] = "Alloc"
		m["heap"] = in.Heap
		m["c"] = in.Comment
	case *ssa.BinOp:
		m["op"] = "BinOp"
		m["o"] = in.Op.String()
		m["x"] = val(in.X)
		m["y"] = val(in.Y)
	case *ssa.UnOp:
		m["op"] = "UnOp"
		m["o"] = in.Op.String()
		m["x"] = val(in.X)
		m["ok"] = in.CommaOk
	case *ssa.Call:
		m["op"] = "Call"
		m["call"] = call(&in.Call)
	case *ssa.Go:
		m["op"] = "Go"
		m["call"] = call(&in.Call)
	case *ssa.Defer:
		m["op"] = "Defer"
		m["call"] = call(&in.Call)
	case *ssa.ChangeInterface:
		m["op"] = "ChangeInterface"
		m["x"] = val(in.X)
	case *ssa.ChangeType:
		m["op"] = "ChangeType"
		m["x"] = val(in.X)
	case *ssa.Convert:
		m["op"] = "Convert"
		m["x"] = val(in.X)
	case *ssa.MultiConvert:
		m["op"] = "Convert"
		m["x"] = val(in.X)
	case *ssa.Extract:
		m["op"] = "Extract"
		m["x"] = val(in.Tuple)
		m["i"] = in.Index
	case *ssa.Field:
		m["op"] = "Field"
		m["x"] = val(in.X)
		m["i"] = in.Field
	case *ssa.FieldAddr:
		m["op"] = "FieldAddr"
		m["x"] = val(in.X)
		m["i"] = in.Field
	case *ssa.Index:
		m["op"] = "Index"
		m["x"] = val(in.X)
		m["y"] = val(in.Index)
	case *ssa.IndexAddr:
		m["op"] = "IndexAddr"
		m["x"] = val(in.X)
		m["y"] = val(in.Index)
	case *ssa.Lookup:
		m["op"] = "Lookup"
		m["x"] = val(in.X)
		m["y"] = val(in.Index)
		m["ok"] = in.CommaOk
	case *ssa.If:
		m["op"] = "If"
		m["x"] = val(in.Cond)
	case *ssa.Jump:
		m["op"] = "Jump"
	case *ssa.Return:
		m["op"] = "Return"
		m["xs"] = vals(in.Results)
	case *ssa.Panic:
		m["op"] = "Panic"
		m["x"] = val(in.X)
	case *ssa.Phi:
		m["op"] = "Phi"
		m["xs"] = vals(in.Edges)
		m["c"] = in.Comment
	case *ssa.Store:
		m["op"] = "Store"
		m["x"] = val(in.Addr)
		m["y"] = val(in.Val)
	case *ssa.MakeInterface:
		m["op"] = "MakeInterface"
		m["x"] = val(in.X)
	case *ssa.MakeClosure:
		m["op"] = "MakeClosure"
		m["fn"] = fnKey(in.Fn.(*ssa.Function))
		m["ta"] = targs(in.Fn.(*ssa.Function))
		m["xs"] = vals(in.Bindings)
	case *ssa.MakeSlice:
		m["op"] = "MakeSlice"
		m["x"] = val(in.Len)
		m["y"] = val(in.Cap)
	case *ssa.MakeMap:
		m["op"] = "MakeMap"
	case *ssa.MakeChan:
		m["op"] = "MakeChan"
		m["x"] = val(in.Size)
	case *ssa.MapUpdate:
		m["op"] = "MapUpdate"
		m["m"] = val(in.Map)
		m["x"] = val(in.Key)
		m["y"] = val(in.Value)
	case *ssa.Slice:
		m["op"] = "Slice"
		m["x"] = val(in.X)
		m["lo"] = val(in.Low)
		m["hi"] = val(in.High)
		m["max"] = val(in.Max)
	case *ssa.TypeAssert:
		m["op"] = "TypeAssert"
		m["x"] = val(in.X)
		m["at"] = typ(in.AssertedType)
		m["ok"] = in.CommaOk
	case *ssa.Range:
		m["op"] = "Range"
		m["x"] = val(in.X)
	case *ssa.Next:
		m["op"] = "Next"
		m["x"] = val(in.Iter)
		m["str"] = in.IsString
	case *ssa.RunDefers:
		m["op"] = "RunDefers"
	case *ssa.Send:
		m["op"] = "Send"
		m["x"] = val(in.Chan)
		m["y"] = val(in.X)
	case *ssa.Select:
		m["op"] = "Select"
	case *ssa.SliceToArrayPointer:
		m["op"] = "SliceToArrayPointer"
		m["x"] = val(in.X)
	case *ssa.DebugRef:
		return nil
	default:
		m["op"] = fmt.Sprintf("Unknown %T", in)
	}
	return m
}

func function(fn *ssa.Function) M {
	m := M{"name": fnKey(fn), "sig": typ(fn.Signature), "syn": fn.Synthetic}
	if p := fn.Pos(); p.IsValid() {
		pp := fset.Position(p)
		m["pos"] = fmt.Sprintf("%s:%d", pp.Filename, pp.Line)
	}
	ps := []any{}
	for _, p := range fn.Params {
		ps = append(ps, M{"n": "p:" + p.Name(), "t": typ(p.Type())})
	}
	m["params"] = ps
	if r := fn.Signature.Recv(); r != nil {
		m["recv"] = typ(r.Type())
	}
	fv := []any{}
	for _, p := range fn.FreeVars {
		fv = append(fv, M{"n": p.Name(), "t": typ(p.Type())})
	}
	m["free"] = fv
	tps := []string{}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	tp := f.TypeParams()
	for i := 0; i < tp.Len(); i++ {
		tps = append(tps, tp.At(i).Obj().Name())
	}
	m["tp"] = tps
	bs := []any{}
	for _, b := range fn.Blocks {
		is := []any{}
		for _, in := range b.Instrs {
			if x := instr(in); x != nil {
				is = append(is, x)
			}
		}
		pr, su := []int{}, []int{}
		for _, x := range b.Preds {
			pr = append(pr, x.Index)
		}
		for _, x := range b.Succs {
			su = append(su, x.Index)
		}
		bs = append(bs, M{"i": is, "p": pr, "s": su, "c": b.Comment})
	}
	m["blocks"] = bs
	if fn.Recover != nil {
		m["recover"] = fn.Recover.Index
	}
	return m
}

func main() {
	dir := os.Args[1]
	modPath = "github.com/arr-ai/frozen"
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule | packages.NeedDeps, Dir: dir}
	if len(os.Args) > 2 && os.Args[2] != "" {
		cfg.BuildFlags = []string{"-tags=" + os.Args[2]}
	}
	pats := []string{"./...", "container/heap"}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	if packages.PrintErrors(ps) > 0 {
		os.Exit(3)
	}
	fset = ps[0].Fset
	var pkgs []*ssa.Package
	prog, pkgs = ssautil.Packages(ps, ssa.BareInits)
	prog.Build()
	fns := map[string]M{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || fn.Blocks == nil {
			return
		}
		k := fnKey(fn)
		if _, ok := fns[k]; ok {
			return
		}
		fns[k] = function(fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		names := []string{}
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch mem := p.Members[n].(type) {
			case *ssa.Function:
				add(mem)
			case *ssa.Type:
				if nt, ok := types.Unalias(mem.Type()).(*types.Named); ok {
					nt = nt.Origin()
					typ(nt)
					for i := 0; i < nt.NumMethods(); i++ {
						add(prog.FuncValue(nt.Method(i)))
					}
				}
			}
		}
	}
	for len(pending) > 0 {
		n := pending[0]
		pending = pending[1:]
		d := named[namedKey(n)]
		tps := []string{}
		for i := 0; i < n.TypeParams().Len(); i++ {
			tps = append(tps, n.TypeParams().At(i).Obj().Name())
		}
		d["tp"] = tps
		d["u"] = typ(n.Underlying())
		for _, ptr := range []bool{false, true} {
			var t types.Type = n
			if ptr {
				t = types.NewPointer(n)
			}
			ms := types.NewMethodSet(t)
			mm := M{}
			for i := 0; i < ms.Len(); i++ {
				s := ms.At(i)
				o := s.Obj().(*types.Func).Origin()
				key := ""
				sg := o.Type().(*types.Signature)
				if r := sg.Recv(); r != nil {
					rt := types.Unalias(r.Type())
					star := ""
					if p, ok := rt.(*types.Pointer); ok {
						star = "*"
						rt = types.Unalias(p.Elem())
					}
					if nn, ok := rt.(*types.Named); ok {
						k := namedKey(nn)
						i := strings.LastIndex(k, ".")
						key = k[:i+1] + "(" + star + k[i+1:] + ")." + o.Name()
					}
				}
				mm[o.Name()] = M{"fn": key, "path": s.Index()[:len(s.Index())-1], "sig": typ(s.Type())}
			}
			if ptr {
				d["pms"] = mm
			} else {
				d["ms"] = mm
			}
		}
	}
	consts := M{}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		for n, mem := range p.Members {
			if c, ok := mem.(*ssa.NamedConst); ok {
				consts[short(p.Pkg)+"."+n] = val(c.Value)
			}
		}
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetIndent("", " ")
	if err := enc.Encode(M{"fns": fns, "named": named, "consts": consts}); err != nil {
		panic(err)
	}
}
