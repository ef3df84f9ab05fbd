// ssadump loads the packages of a Go module from source, builds go/ssa for them and
// writes every function (closures, bound-method wrappers and init functions included) as JSON.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M map[string]interface{}

var typeIDs = map[string]int{}
var typeTab []M

func tid(t types.Type) int {
	if t == nil {
		return -1
	}
	key := types.TypeString(t, nil)
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeTab)
	typeIDs[key] = id
	typeTab = append(typeTab, nil)
	m := M{"str": key}
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	if n, ok := t.(*types.Named); ok {
		m["named"] = key
		if n.Obj().Pkg() != nil {
			m["pkg"] = n.Obj().Pkg().Path()
		}
		m["tname"] = n.Obj().Name()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m["kind"] = "basic"
		m["basic"] = u.Name()
	case *types.Pointer:
		m["kind"] = "pointer"
		m["elem"] = tid(u.Elem())
	case *types.Slice:
		m["kind"] = "slice"
		m["elem"] = tid(u.Elem())
	case *types.Array:
		m["kind"] = "array"
		m["elem"] = tid(u.Elem())
		m["len"] = u.Len()
	case *types.Struct:
		m["kind"] = "struct"
		var fs []M
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fs = append(fs, M{"name": f.Name(), "type": tid(f.Type())})
		}
		m["fields"] = fs
	case *types.Signature:
		m["kind"] = "func"
	case *types.Interface:
		m["kind"] = "interface"
		var ms []string
		for i := 0; i < u.NumMethods(); i++ {
			ms = append(ms, u.Method(i).Name())
		}
		m["methods"] = ms
	case *types.Tuple:
		m["kind"] = "tuple"
		var es []int
		for i := 0; i < u.Len(); i++ {
			es = append(es, tid(u.At(i).Type()))
		}
		m["elems"] = es
	case *types.Map:
		m["kind"] = "map"
	case *types.Chan:
		m["kind"] = "chan"
	default:
		m["kind"] = "other"
	}
	typeTab[id] = m
	return id
}

func opnd(v ssa.Value) interface{} {
	if v == nil {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		m := M{"k": "const", "type": tid(x.Type())}
		if x.Value == nil {
			m["nil"] = true
		} else {
			switch x.Value.Kind() {
			case constant.Bool:
				m["bool"] = constant.BoolVal(x.Value)
			case constant.String:
				m["string"] = constant.StringVal(x.Value)
			case constant.Int:
				m["int"] = x.Value.ExactString()
			default:
				m["other"] = x.Value.ExactString()
			}
		}
		return m
	case *ssa.Function:
		need(x)
		return M{"k": "func", "name": x.String(), "type": tid(x.Type())}
	case *ssa.Global:
		return M{"k": "global", "name": x.String(), "type": tid(x.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "name": x.Name()}
	case *ssa.Parameter:
		return M{"k": "param", "name": x.Name(), "type": tid(x.Type())}
	case *ssa.FreeVar:
		return M{"k": "free", "name": x.Name(), "type": tid(x.Type())}
	}
	return M{"k": "reg", "name": v.Name(), "type": tid(v.Type())}
}

func opnds(vs []ssa.Value) []interface{} {
	out := []interface{}{}
	for _, v := range vs {
		out = append(out, opnd(v))
	}
	return out
}

var done = map[*ssa.Function]bool{}
var queue []*ssa.Function

func need(f *ssa.Function) {
	if f != nil && !done[f] {
		done[f] = true
		queue = append(queue, f)
	}
}

func call(c *ssa.CallCommon) M {
	m := M{"args": opnds(c.Args)}
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = opnd(c.Value)
	} else {
		m["fn"] = opnd(c.Value)
	}
	return m
}

func instr(prog *ssa.Program, in ssa.Instruction) M {
	m := M{}
	if v, ok := in.(ssa.Value); ok {
		m["name"] = v.Name()
		m["type"] = tid(v.Type())
	}
	if p := in.Pos(); p.IsValid() {
		ps := prog.Fset.Position(p)
		m["line"] = fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		m["op"] = "Alloc"
		m["heap"] = x.Heap
		m["comment"] = x.Comment
	case *ssa.BinOp:
		m["op"] = "BinOp"
		m["tok"] = x.Op.String()
		m["x"], m["y"] = opnd(x.X), opnd(x.Y)
	case *ssa.UnOp:
		m["op"] = "UnOp"
		m["tok"] = x.Op.String()
		m["x"] = opnd(x.X)
		m["commaok"] = x.CommaOk
	case *ssa.Phi:
		m["op"] = "Phi"
		m["edges"] = opnds(x.Edges)
		m["comment"] = x.Comment
	case *ssa.Call:
		m["op"] = "Call"
		m["call"] = call(&x.Call)
	case *ssa.Defer:
		m["op"] = "Defer"
		m["call"] = call(&x.Call)
	case *ssa.Go:
		m["op"] = "Go"
	case *ssa.ChangeType:
		m["op"] = "ChangeType"
		m["x"] = opnd(x.X)
	case *ssa.Convert:
		m["op"] = "Convert"
		m["x"] = opnd(x.X)
	case *ssa.ChangeInterface:
		m["op"] = "ChangeInterface"
		m["x"] = opnd(x.X)
	case *ssa.MakeInterface:
		m["op"] = "MakeInterface"
		m["x"] = opnd(x.X)
	case *ssa.MakeClosure:
		m["op"] = "MakeClosure"
		m["fn"] = opnd(x.Fn)
		m["bindings"] = opnds(x.Bindings)
	case *ssa.MakeSlice:
		m["op"] = "MakeSlice"
		m["len"], m["cap"] = opnd(x.Len), opnd(x.Cap)
	case *ssa.Slice:
		m["op"] = "Slice"
		m["x"], m["low"], m["high"], m["max"] = opnd(x.X), opnd(x.Low), opnd(x.High), opnd(x.Max)
	case *ssa.FieldAddr:
		m["op"] = "FieldAddr"
		m["x"] = opnd(x.X)
		m["field"] = x.Field
	case *ssa.Field:
		m["op"] = "Field"
		m["x"] = opnd(x.X)
		m["field"] = x.Field
	case *ssa.IndexAddr:
		m["op"] = "IndexAddr"
		m["x"], m["index"] = opnd(x.X), opnd(x.Index)
	case *ssa.Index:
		m["op"] = "Index"
		m["x"], m["index"] = opnd(x.X), opnd(x.Index)
	case *ssa.TypeAssert:
		m["op"] = "TypeAssert"
		m["x"] = opnd(x.X)
		m["assert"] = tid(x.AssertedType)
		m["commaok"] = x.CommaOk
	case *ssa.Extract:
		m["op"] = "Extract"
		m["x"] = opnd(x.Tuple)
		m["index"] = x.Index
	case *ssa.Range:
		m["op"] = "Range"
		m["x"] = opnd(x.X)
	case *ssa.Next:
		m["op"] = "Next"
		m["x"] = opnd(x.Iter)
	case *ssa.Lookup:
		m["op"] = "Lookup"
		m["x"], m["index"] = opnd(x.X), opnd(x.Index)
	case *ssa.SliceToArrayPointer:
		m["op"] = "SliceToArrayPointer"
		m["x"] = opnd(x.X)
	case *ssa.MultiConvert:
		m["op"] = "MultiConvert"
		m["x"] = opnd(x.X)
	case *ssa.Jump:
		m["op"] = "Jump"
	case *ssa.If:
		m["op"] = "If"
		m["cond"] = opnd(x.Cond)
	case *ssa.Return:
		m["op"] = "Return"
		m["results"] = opnds(x.Results)
	case *ssa.Panic:
		m["op"] = "Panic"
		m["x"] = opnd(x.X)
	case *ssa.Store:
		m["op"] = "Store"
		m["addr"], m["val"] = opnd(x.Addr), opnd(x.Val)
	case *ssa.RunDefers:
		m["op"] = "RunDefers"
	case *ssa.DebugRef:
		return nil
	default:
		m["op"] = fmt.Sprintf("%T", in)
	}
	return m
}

func main() {
	dir, out := os.Args[1], os.Args[2]
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedExportFile,
		Dir: dir,
		Fset: token.NewFileSet(),
	}
	// dependencies outside the module are loaded from export data
	cfg.Mode &^= packages.NeedDeps
	initial, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if packages.PrintErrors(initial) > 0 {
		os.Exit(2)
	}
	prog, pkgs := ssautil.Packages(initial, ssa.InstantiateGenerics)
	prog.Build()
	modPkgs := map[*types.Package]bool{}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		modPkgs[p.Pkg] = true
		for _, mem := range p.Members {
			switch x := mem.(type) {
			case *ssa.Function:
				need(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					if types.IsInterface(t) {
						continue
					}
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						need(prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	funcs := M{}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		fm := M{"name": f.String(), "synthetic": f.Synthetic}
		if f.Pkg != nil {
			fm["pkg"] = f.Pkg.Pkg.Path()
		}
		if f.Parent() != nil {
			fm["parent"] = f.Parent().String()
		}
		sig := f.Signature
		ps := []M{}
		for _, p := range f.Params {
			ps = append(ps, M{"name": p.Name(), "type": tid(p.Type())})
		}
		fm["params"] = ps
		fvs := []M{}
		for _, p := range f.FreeVars {
			fvs = append(fvs, M{"name": p.Name(), "type": tid(p.Type())})
		}
		fm["free"] = fvs
		rs := []M{}
		for i := 0; i < sig.Results().Len(); i++ {
			rs = append(rs, M{"name": sig.Results().At(i).Name(), "type": tid(sig.Results().At(i).Type())})
		}
		fm["results"] = rs
		if f.Recover != nil {
			fm["recover"] = true
		}
		blocks := []M{}
		for _, b := range f.Blocks {
			ins := []M{}
			for _, in := range b.Instrs {
				if r := instr(prog, in); r != nil {
					ins = append(ins, r)
				}
			}
			su, pr := []int{}, []int{}
			for _, s := range b.Succs {
				su = append(su, s.Index)
			}
			for _, s := range b.Preds {
				pr = append(pr, s.Index)
			}
			blocks = append(blocks, M{"i": b.Index, "instrs": ins, "succs": su, "preds": pr})
		}
		fm["blocks"] = blocks
		for _, a := range f.AnonFuncs {
			need(a)
		}
		funcs[f.String()] = fm
	}
	// method tables: concrete type -> method name -> function
	meths := M{}
	for _, p := range pkgs {
		for _, mem := range p.Members {
			if x, ok := mem.(*ssa.Type); ok && !types.IsInterface(x.Type()) {
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					mm := M{}
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if fn := prog.MethodValue(ms.At(i)); fn != nil {
							mm[fn.Name()] = fn.String()
						}
					}
					meths[types.TypeString(t, nil)] = mm
				}
			}
		}
	}
	var names []string
	for n := range funcs {
		names = append(names, n)
	}
	sort.Strings(names)
	f, err := os.Create(out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer f.Close()
	enc := json.NewEncoder(f)
	if err := enc.Encode(M{"types": typeTab, "funcs": funcs, "methods": meths, "names": names}); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
