package main

// Shared instrumentation for the checks of the sqlparser package: reflection over syntax trees,
// a formatter that marks the extent of every expression, and guarded calls.

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"

	sp "github.com/k0kubun/sqldef/sqlparser"
)

// guard runs f and turns a panic into a message.
func guard(f func()) (pan string) {
	defer func() {
		if e := recover(); e != nil {
			pan = fmt.Sprintf("panic: %v\n%s", e, trimStack(string(debug.Stack())))
		}
	}()
	f()
	return ""
}

func trimStack(s string) string {
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

// composite: expressions that have inner structure.
func composite(n sp.SQLNode) bool {
	if v := reflect.ValueOf(n); v.Kind() == reflect.Ptr && v.IsNil() {
		return false
	}
	if _, ok := n.(*sp.JoinTableExpr); ok {
		return true
	}
	e, ok := n.(sp.Expr)
	if !ok {
		return false
	}
	switch e.(type) {
	case *sp.SQLVal, *sp.NullVal, sp.BoolVal, *sp.ColName, sp.ListArg, *sp.Default:
		return false
	}
	return true
}

// grouped prints a tree with every composite expression bracketed.
func grouped(n sp.SQLNode) string {
	f := func(buf *sp.TrackedBuffer, node sp.SQLNode) {
		if composite(node) {
			buf.WriteString("⟦")
			node.Format(buf)
			buf.WriteString("⟧")
			return
		}
		node.Format(buf)
	}
	buf := sp.NewTrackedBuffer(f)
	f(buf, n)
	return buf.String()
}

// diffTree describes the first structural difference of two trees ("" if equal). Unexported
// caches are ignored; byte slices compare by content; nil and empty slices are the same.
func diffTree(a, b interface{}) string { return diffVal(reflect.ValueOf(a), reflect.ValueOf(b), "") }

func diffVal(a, b reflect.Value, path string) string {
	if a.IsValid() != b.IsValid() {
		return path + ": one is missing"
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %s vs %s", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Interface, reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return path + ": one is nil"
		}
		if a.IsNil() {
			return ""
		}
		return diffVal(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if a.Type().Name() == "ColIdent" && (f.Name == "lowered" || f.Name == "at") {
				continue
			}
			if f.Name == "_" {
				continue
			}
			if d := diffVal(a.Field(i), b.Field(i), path+"."+f.Name); d != "" {
				return d
			}
		}
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d vs %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diffVal(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return path + ": map size"
		}
		for _, k := range a.MapKeys() {
			if d := diffVal(a.MapIndex(k), b.MapIndex(k), fmt.Sprintf("%s[%v]", path, k)); d != "" {
				return d
			}
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q vs %q", path, a.String(), b.String())
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Bool(), b.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Int(), b.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Uint(), b.Uint())
		}
	case reflect.Float64, reflect.Float32:
		if a.Float() != b.Float() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Float(), b.Float())
		}
	}
	return ""
}

// visitAll calls f for every value of the tree reachable through exported structure, with the
// value itself when it is addressable through a pointer or interface.
func visitAll(n interface{}, f func(v reflect.Value)) { visitVal(reflect.ValueOf(n), f, 0) }

func visitVal(v reflect.Value, f func(v reflect.Value), d int) {
	if !v.IsValid() || d > 400 {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			visitVal(v.Elem(), f, d+1)
		}
		return
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		f(v)
		if e := v.Elem(); e.Kind() == reflect.Struct {
			for i := 0; i < e.NumField(); i++ {
				visitVal(e.Field(i), f, d+1)
			}
		}
		return
	}
	f(v)
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			visitVal(v.Field(i), f, d+1)
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			visitVal(v.Index(i), f, d+1)
		}
	}
}

// literals lists the SQLVal nodes of a tree by kind name and content.
func literals(n sp.SQLNode) []string {
	var out []string
	visitAll(n, func(v reflect.Value) {
		if v.CanInterface() {
			if s, ok := v.Interface().(*sp.SQLVal); ok {
				out = append(out, fmt.Sprintf("%d:%q", s.Type, s.Val))
			}
		}
	})
	sort.Strings(out)
	return out
}

func typeName(n interface{}) string { return strings.TrimPrefix(fmt.Sprintf("%T", n), "*sqlparser.") }

// nodeTypes records the kinds of nodes seen.
func (r *Run) nodeTypes(n sp.SQLNode) int {
	c := 0
	visitAll(n, func(v reflect.Value) {
		if v.CanInterface() {
			if x, ok := v.Interface().(sp.SQLNode); ok {
				c++
				r.State("kinds of syntax nodes", typeName(x))
			}
		}
	})
	return c
}

// alone reports how to parse text strictly in MySQL mode, guarding panics.
func parse1(sql string) (st sp.Statement, err error, pan string) {
	pan = guard(func() { st, err = sp.ParseStrictDDLWithMode(sql, sp.ParserModeMysql) })
	return
}

// countName counts the identifiers of a tree with exactly this name.
func countName(n sp.SQLNode, name string) int {
	c := 0
	visitAll(n, func(v reflect.Value) {
		if v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		switch v.Type().Name() {
		case "ColIdent":
			if v.FieldByName("val").String() == name {
				c++
			}
		case "TableIdent":
			if v.FieldByName("v").String() == name {
				c++
			}
		case "Default":
			if v.FieldByName("ColName").String() == name {
				c++
			}
		case "ShowTablesOpt":
			if v.FieldByName("DbName").String() == name {
				c++
			}
		}
	})
	return c
}

type reflectValue = reflect.Value
