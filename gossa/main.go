// Dumps the SSA form of the functions of a Go package (and of the standard library functions
// they reach) as JSON, for the symbolic executor in lib/goex.py.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J = map[string]interface{}

var typeIDs = map[string]int{}
var typeList []J

func typ(t types.Type) int {
	t = types.Unalias(t)
	key := types.TypeString(t, nil)
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeList)
	typeIDs[key] = id
	j := J{"s": key}
	typeList = append(typeList, j)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		j["k"] = "basic"
		j["n"] = u.Name()
	case *types.Slice:
		j["k"] = "slice"
		j["e"] = typ(u.Elem())
	case *types.Array:
		j["k"] = "array"
		j["e"] = typ(u.Elem())
		j["l"] = u.Len()
	case *types.Pointer:
		j["k"] = "ptr"
		j["e"] = typ(u.Elem())
	case *types.Struct:
		j["k"] = "struct"
		fs := []int{}
		ns := []string{}
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, typ(u.Field(i).Type()))
			ns = append(ns, u.Field(i).Name())
		}
		j["f"] = fs
		j["fn"] = ns
	case *types.Map:
		j["k"] = "map"
		j["key"] = typ(u.Key())
		j["e"] = typ(u.Elem())
	case *types.Tuple:
		j["k"] = "tuple"
		fs := []int{}
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, typ(u.At(i).Type()))
		}
		j["f"] = fs
	case *types.Interface:
		j["k"] = "iface"
	case *types.Signature:
		j["k"] = "func"
	default:
		j["k"] = fmt.Sprintf("%T", u)
	}
	return id
}

func value(v ssa.Value) J {
	switch x := v.(type) {
	case *ssa.Const:
		j := J{"c": true, "t": typ(x.Type())}
		if x.Value == nil {
			j["v"] = nil
		} else if x.Value.Kind() == constant.Bool {
			j["v"] = constant.BoolVal(x.Value)
		} else if x.Value.Kind() == constant.String {
			j["v"] = []byte(constant.StringVal(x.Value))
			j["str"] = true
		} else if i := constant.ToInt(x.Value); i.Kind() == constant.Int {
			j["v"] = i.ExactString()
		} else {
			j["v"] = x.Value.ExactString()
			j["float"] = true
		}
		return j
	case *ssa.Function:
		need(x)
		return J{"f": x.String(), "t": typ(x.Type())}
	case *ssa.Builtin:
		return J{"b": x.Name()}
	case *ssa.Global:
		return J{"g": x.String(), "t": typ(x.Type())}
	case nil:
		return nil
	default:
		return J{"r": x.Name(), "t": typ(x.Type())}
	}
}

func values(vs []ssa.Value) []J {
	out := []J{}
	for _, v := range vs {
		out = append(out, value(v))
	}
	return out
}

var queue []*ssa.Function
var seen = map[*ssa.Function]bool{}
var skip = map[string]bool{}

func need(f *ssa.Function) {
	if f == nil || seen[f] {
		return
	}
	seen[f] = true
	queue = append(queue, f)
}

func call(c *ssa.CallCommon) J {
	j := J{"args": values(c.Args), "sig": typ(c.Signature().Results())}
	if c.IsInvoke() {
		j["invoke"] = c.Method.Name()
		j["recv"] = value(c.Value)
	} else {
		j["fn"] = value(c.Value)
	}
	return j
}

func instr(i ssa.Instruction) J {
	j := J{}
	if v, ok := i.(ssa.Value); ok {
		j["d"] = v.Name()
		j["t"] = typ(v.Type())
	}
	switch x := i.(type) {
	case *ssa.Alloc:
		j["o"] = "alloc"
		j["e"] = typ(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		j["o"] = "bin"
		j["op"] = x.Op.String()
		j["x"] = value(x.X)
		j["y"] = value(x.Y)
		j["xt"] = typ(x.X.Type())
	case *ssa.UnOp:
		j["o"] = "un"
		j["op"] = x.Op.String()
		j["x"] = value(x.X)
		j["ok"] = x.CommaOk
	case *ssa.Call:
		j["o"] = "call"
		j["call"] = call(&x.Call)
	case *ssa.Defer:
		j["o"] = "defer"
		j["call"] = call(&x.Call)
	case *ssa.RunDefers:
		j["o"] = "rundefers"
	case *ssa.ChangeInterface:
		j["o"] = "copy"
		j["x"] = value(x.X)
	case *ssa.ChangeType:
		j["o"] = "copy"
		j["x"] = value(x.X)
	case *ssa.Convert:
		j["o"] = "convert"
		j["x"] = value(x.X)
		j["xt"] = typ(x.X.Type())
	case *ssa.Extract:
		j["o"] = "extract"
		j["x"] = value(x.Tuple)
		j["i"] = x.Index
	case *ssa.Field:
		j["o"] = "field"
		j["x"] = value(x.X)
		j["i"] = x.Field
	case *ssa.FieldAddr:
		j["o"] = "fieldaddr"
		j["x"] = value(x.X)
		j["i"] = x.Field
	case *ssa.If:
		j["o"] = "if"
		j["x"] = value(x.Cond)
	case *ssa.Index:
		j["o"] = "index"
		j["x"] = value(x.X)
		j["i"] = value(x.Index)
	case *ssa.IndexAddr:
		j["o"] = "indexaddr"
		j["x"] = value(x.X)
		j["i"] = value(x.Index)
	case *ssa.Jump:
		j["o"] = "jump"
	case *ssa.Lookup:
		j["o"] = "lookup"
		j["x"] = value(x.X)
		j["i"] = value(x.Index)
		j["ok"] = x.CommaOk
		j["xt"] = typ(x.X.Type())
	case *ssa.MakeClosure:
		j["o"] = "closure"
		j["fn"] = value(x.Fn)
		j["b"] = values(x.Bindings)
	case *ssa.MakeInterface:
		j["o"] = "mkiface"
		j["x"] = value(x.X)
		j["xt"] = typ(x.X.Type())
		methods(x.X.Type())
	case *ssa.MakeMap:
		j["o"] = "mkmap"
	case *ssa.MakeSlice:
		j["o"] = "mkslice"
		j["l"] = value(x.Len)
		j["c"] = value(x.Cap)
	case *ssa.MapUpdate:
		j["o"] = "mapset"
		j["x"] = value(x.Map)
		j["k"] = value(x.Key)
		j["v"] = value(x.Value)
	case *ssa.Next:
		j["o"] = "next"
		j["x"] = value(x.Iter)
		j["str"] = x.IsString
	case *ssa.Panic:
		j["o"] = "panic"
		j["x"] = value(x.X)
	case *ssa.Phi:
		j["o"] = "phi"
		j["e"] = values(x.Edges)
	case *ssa.Range:
		j["o"] = "range"
		j["x"] = value(x.X)
	case *ssa.Return:
		j["o"] = "ret"
		j["r"] = values(x.Results)
	case *ssa.Slice:
		j["o"] = "slice"
		j["x"] = value(x.X)
		j["xt"] = typ(x.X.Type())
		j["lo"] = value2(x.Low)
		j["hi"] = value2(x.High)
		j["max"] = value2(x.Max)
	case *ssa.SliceToArrayPointer:
		j["o"] = "?slice2array"
	case *ssa.Store:
		j["o"] = "store"
		j["a"] = value(x.Addr)
		j["v"] = value(x.Val)
	case *ssa.TypeAssert:
		j["o"] = "assert"
		j["x"] = value(x.X)
		j["to"] = typ(x.AssertedType)
		j["ok"] = x.CommaOk
	case *ssa.DebugRef:
		return nil
	default:
		j["o"] = "?" + fmt.Sprintf("%T", i)
	}
	return j
}

func value2(v ssa.Value) J {
	if v == nil {
		return nil
	}
	return value(v)
}

var prog *ssa.Program
var methodTab = map[string]J{}

func methods(t types.Type) {
	key := types.TypeString(types.Unalias(t), nil)
	if _, ok := methodTab[key]; ok {
		return
	}
	m := J{}
	methodTab[key] = m
	ms := prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f := prog.MethodValue(ms.At(i))
		if f != nil && len(ms.At(i).Obj().Name()) < 40 {
			m[ms.At(i).Obj().Name()] = f.String()
			if wanted(f) {
				need(f)
			}
		}
	}
}

// methods are dumped for the packages the executor may have to follow into
func wanted(f *ssa.Function) bool {
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p == nil {
		return true
	}
	return pkgOK(p.Pkg.Path())
}

var deep = map[string]bool{"sort": true, "math/bits": true, "unicode/utf8": true, "slices": true, "cmp": true, "strings": true,
	"internal/stringslite": true, "internal/bytealg": true, "strconv": true, "maps": true, "iter": true, "unicode": true, "math": true,
	"container/heap": true, "internal/strconv": true, "image": true, "image/color": true}

func pkgOK(p string) bool {
	return root[p] || deep[p]
}

var root = map[string]bool{}

func main() {
	dir := os.Args[1]
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0")}
	pkgs, err := packages.Load(cfg, os.Args[2:]...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(1)
	}
	prog, _ = ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	for _, p := range pkgs {
		root[p.PkgPath] = true
	}
	for _, p := range prog.AllPackages() {
		if pkgOK(p.Pkg.Path()) {
			p.Build()
		}
	}
	for _, p := range prog.AllPackages() {
		if !root[p.Pkg.Path()] {
			continue
		}
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				need(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						need(prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	fns := J{}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		name := f.String()
		j := J{"pkg": ""}
		if f.Pkg != nil {
			j["pkg"] = f.Pkg.Pkg.Path()
		}
		if f.Origin() == nil && f.Pkg != nil && !pkgOK(f.Pkg.Pkg.Path()) {
			continue
		}
		if len(f.Blocks) == 0 {
			continue
		}
		ps := []string{}
		pt := []int{}
		for _, p := range f.Params {
			ps = append(ps, p.Name())
			pt = append(pt, typ(p.Type()))
		}
		fv := []string{}
		for _, p := range f.FreeVars {
			fv = append(fv, p.Name())
		}
		j["params"] = ps
		j["ptypes"] = pt
		j["free"] = fv
		j["res"] = typ(f.Signature.Results())
		bs := []J{}
		for _, b := range f.Blocks {
			is := []J{}
			for _, i := range b.Instrs {
				if x := instr(i); x != nil {
					is = append(is, x)
				}
			}
			ss := []int{}
			for _, s := range b.Succs {
				ss = append(ss, s.Index)
			}
			pr := []int{}
			for _, s := range b.Preds {
				pr = append(pr, s.Index)
			}
			bs = append(bs, J{"i": is, "s": ss, "p": pr})
		}
		j["blocks"] = bs
		for _, a := range f.AnonFuncs {
			need(a)
		}
		fns[name] = j
	}
	json.NewEncoder(os.Stdout).Encode(J{"types": typeList, "fns": fns, "methods": methodTab})
}
