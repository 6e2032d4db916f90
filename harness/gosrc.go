package main

import (
	"fmt"
	goast "go/ast"
	goparser "go/parser"
	gotoken "go/token"
	"reflect"
	"strconv"
)

// This file evaluates the part of Go in which GoString writes a tree:
// function literals that build a value field by field.

type goEval struct{ types map[string]reflect.Type }

// goTypes collects the named types that are reachable from a type.
func goTypes(t reflect.Type, out map[string]reflect.Type) {
	if t.PkgPath() != "" {
		if _, ok := out[t.String()]; ok {
			return
		}
		out[t.String()] = t
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice:
		goTypes(t.Elem(), out)
	case reflect.Map:
		goTypes(t.Key(), out)
		goTypes(t.Elem(), out)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			goTypes(t.Field(i).Type, out)
		}
	}
}

type goErr string

func (e *goEval) bad(n goast.Node, why string) {
	panic(goErr(fmt.Sprintf("%s (%T at %d)", why, n, n.Pos())))
}

// goValue evaluates a source text that denotes a value of the type of like.
func goValue(src string, like interface{}) (v interface{}, err error) {
	defer func() {
		if r := recover(); r != nil {
			v, err = nil, fmt.Errorf("%v", r)
		}
	}()
	x, err := goparser.ParseExpr(src)
	if err != nil {
		return nil, err
	}
	e := &goEval{types: map[string]reflect.Type{}}
	want := reflect.TypeOf(like)
	goTypes(want, e.types)
	return e.eval(x, nil, want).Interface(), nil
}

var goBasic = map[string]reflect.Type{"string": reflect.TypeOf(""), "int64": reflect.TypeOf(int64(0)), "uint64": reflect.TypeOf(uint64(0)), "float64": reflect.TypeOf(0.0), "bool": reflect.TypeOf(false), "byte": reflect.TypeOf(byte(0)), "uint8": reflect.TypeOf(byte(0)), "int": reflect.TypeOf(0), "int32": reflect.TypeOf(int32(0))}

func (e *goEval) typ(x goast.Expr) reflect.Type {
	switch n := x.(type) {
	case *goast.StarExpr:
		return reflect.PtrTo(e.typ(n.X))
	case *goast.ParenExpr:
		return e.typ(n.X)
	case *goast.ArrayType:
		if n.Len != nil {
			e.bad(x, "array")
		}
		return reflect.SliceOf(e.typ(n.Elt))
	case *goast.MapType:
		return reflect.MapOf(e.typ(n.Key), e.typ(n.Value))
	case *goast.Ident:
		if t, ok := goBasic[n.Name]; ok {
			return t
		}
		e.bad(x, "unknown type "+n.Name)
	case *goast.SelectorExpr:
		name := n.X.(*goast.Ident).Name + "." + n.Sel.Name
		if t, ok := e.types[name]; ok {
			return t
		}
		e.bad(x, "unknown type "+name)
	}
	e.bad(x, "not a type")
	return nil
}

func (e *goEval) isType(x goast.Expr) bool {
	switch n := x.(type) {
	case *goast.ArrayType, *goast.MapType, *goast.StarExpr:
		return true
	case *goast.ParenExpr:
		return e.isType(n.X)
	case *goast.Ident:
		_, ok := goBasic[n.Name]
		return ok
	case *goast.SelectorExpr:
		id, ok := n.X.(*goast.Ident)
		if ok {
			_, ok = e.types[id.Name+"."+n.Sel.Name]
		}
		return ok
	}
	return false
}

// eval gives the value of an expression; want is the type that untyped
// constants and nil take, or nil.
func (e *goEval) eval(x goast.Expr, env map[string]reflect.Value, want reflect.Type) reflect.Value {
	switch n := x.(type) {
	case *goast.ParenExpr:
		return e.eval(n.X, env, want)
	case *goast.BasicLit:
		return e.lit(n, n.Value, want)
	case *goast.Ident:
		if v, ok := env[n.Name]; ok {
			return v
		}
		switch n.Name {
		case "true", "false":
			if want == nil {
				want = goBasic["bool"]
			}
			return reflect.ValueOf(n.Name == "true").Convert(want)
		case "nil":
			if want == nil {
				e.bad(x, "nil without a type")
			}
			switch want.Kind() {
			case reflect.Ptr, reflect.Slice, reflect.Map:
			default:
				e.bad(x, "nil for a "+want.String())
			}
			return reflect.Zero(want)
		}
		e.bad(x, "undefined: "+n.Name)
	case *goast.UnaryExpr:
		switch n.Op {
		case gotoken.SUB:
			if l, ok := n.X.(*goast.BasicLit); ok {
				return e.lit(l, "-"+l.Value, want)
			}
		case gotoken.AND:
			switch n.X.(type) {
			case *goast.CompositeLit:
				v := e.eval(n.X, env, nil)
				p := reflect.New(v.Type())
				p.Elem().Set(v)
				return p
			case *goast.Ident:
				v := e.eval(n.X, env, nil)
				if !v.CanAddr() {
					e.bad(x, "not addressable")
				}
				return v.Addr()
			}
		}
		e.bad(x, "operator "+n.Op.String())
	case *goast.CompositeLit:
		t := e.typ(n.Type)
		v := reflect.New(t).Elem()
		switch t.Kind() {
		case reflect.Struct:
			for _, el := range n.Elts {
				kv := el.(*goast.KeyValueExpr)
				f := v.FieldByName(kv.Key.(*goast.Ident).Name)
				f.Set(e.eval(kv.Value, env, f.Type()))
			}
		case reflect.Slice:
			v.Set(reflect.MakeSlice(t, len(n.Elts), len(n.Elts)))
			for i, el := range n.Elts {
				v.Index(i).Set(e.eval(el, env, t.Elem()))
			}
		case reflect.Map:
			v.Set(reflect.MakeMap(t))
			for _, el := range n.Elts {
				kv := el.(*goast.KeyValueExpr)
				v.SetMapIndex(e.eval(kv.Key, env, t.Key()), e.eval(kv.Value, env, t.Elem()))
			}
		default:
			e.bad(x, "literal of "+t.String())
		}
		return v
	case *goast.CallExpr:
		if f, ok := n.Fun.(*goast.FuncLit); ok {
			return e.call(f, n.Args, env)
		}
		if id, ok := n.Fun.(*goast.Ident); ok && id.Name == "make" {
			t := e.typ(n.Args[0])
			if t.Kind() == reflect.Map {
				return reflect.MakeMap(t)
			}
			size := int(e.eval(n.Args[1], env, goBasic["int"]).Int())
			return reflect.MakeSlice(t, size, size)
		}
		if e.isType(n.Fun) && len(n.Args) == 1 {
			t := e.typ(n.Fun)
			return e.eval(n.Args[0], env, t).Convert(t)
		}
		e.bad(x, "call")
	}
	e.bad(x, "expression")
	return reflect.Value{}
}

func (e *goEval) lit(n *goast.BasicLit, s string, want reflect.Type) reflect.Value {
	switch n.Kind {
	case gotoken.STRING:
		u, err := strconv.Unquote(s)
		if err != nil {
			e.bad(n, err.Error())
		}
		if want == nil {
			want = goBasic["string"]
		}
		if want.Kind() != reflect.String {
			e.bad(n, "a string for a "+want.String())
		}
		return reflect.ValueOf(u).Convert(want)
	case gotoken.INT, gotoken.FLOAT:
		if want == nil {
			want = goBasic["int"]
			if n.Kind == gotoken.FLOAT {
				want = goBasic["float64"]
			}
		}
		v := reflect.New(want).Elem()
		var err error
		switch want.Kind() {
		case reflect.Int, reflect.Int32, reflect.Int64:
			var i int64
			i, err = strconv.ParseInt(s, 0, want.Bits())
			v.SetInt(i)
		case reflect.Uint8, reflect.Uint64:
			var u uint64
			u, err = strconv.ParseUint(s, 0, want.Bits())
			v.SetUint(u)
		case reflect.Float64:
			var f float64
			f, err = strconv.ParseFloat(s, 64)
			v.SetFloat(f)
		default:
			e.bad(n, "a number for a "+want.String())
		}
		if err != nil {
			e.bad(n, err.Error())
		}
		return v
	}
	e.bad(n, "literal")
	return reflect.Value{}
}

func (e *goEval) call(f *goast.FuncLit, args []goast.Expr, outer map[string]reflect.Value) reflect.Value {
	env := map[string]reflect.Value{}
	for k, v := range outer {
		env[k] = v
	}
	i := 0
	for _, p := range f.Type.Params.List {
		t := e.typ(p.Type)
		for _, name := range p.Names {
			v := reflect.New(t).Elem()
			v.Set(e.eval(args[i], outer, t))
			env[name.Name] = v
			i++
		}
	}
	if i != len(args) || len(f.Type.Results.List) != 1 {
		e.bad(f, "arguments")
	}
	res := e.typ(f.Type.Results.List[0].Type)
	for _, s := range f.Body.List {
		switch n := s.(type) {
		case *goast.ReturnStmt:
			v := e.eval(n.Results[0], env, res)
			if v.Type() != res {
				e.bad(n, "returns a "+v.Type().String()+" for a "+res.String())
			}
			return v
		case *goast.AssignStmt:
			if n.Tok == gotoken.DEFINE {
				v := e.eval(n.Rhs[0], env, nil)
				l := reflect.New(v.Type()).Elem()
				l.Set(v)
				env[n.Lhs[0].(*goast.Ident).Name] = l
				continue
			}
			switch l := n.Lhs[0].(type) {
			case *goast.SelectorExpr:
				fld := reflect.Indirect(e.eval(l.X, env, nil)).FieldByName(l.Sel.Name)
				if !fld.IsValid() {
					e.bad(l, "no field "+l.Sel.Name)
				}
				fld.Set(e.eval(n.Rhs[0], env, fld.Type()))
			case *goast.IndexExpr:
				b := e.eval(l.X, env, nil)
				if b.Kind() == reflect.Map {
					b.SetMapIndex(e.eval(l.Index, env, b.Type().Key()), e.eval(n.Rhs[0], env, b.Type().Elem()))
					continue
				}
				b.Index(int(e.eval(l.Index, env, goBasic["int"]).Int())).Set(e.eval(n.Rhs[0], env, b.Type().Elem()))
			default:
				e.bad(n, "assignment")
			}
		default:
			e.bad(s, "statement")
		}
	}
	e.bad(f, "no return")
	return reflect.Value{}
}
