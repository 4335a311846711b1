package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	sp "github.com/k0kubun/sqldef/sqlparser"
	"github.com/k0kubun/sqldef/sqlparser/dependency/bytes2"
	"github.com/k0kubun/sqldef/sqlparser/dependency/hack"
	qp "github.com/k0kubun/sqldef/sqlparser/dependency/querypb"
	"github.com/k0kubun/sqldef/sqlparser/dependency/sqltypes"
)

// C17: values and bind variables survive conversion unchanged.

func init() { register("C17", "exploration", checkC17) }

func checkC17(r *Run) {
	r.rule = "a case is one value (type and bytes), native Go value or plan; it counts when every conversion of it was compared with an independent model, distinct by value"
	n := r.N(60000, 1500000)
	r.minEvals = n
	r.typeTables()
	r.Cases("value", n, r.valueCase)
	r.Cases("accept", n, r.acceptCase)
	r.Cases("native", n, r.nativeCase)
	r.Cases("json", n/2, r.jsonCase)
	r.Cases("plan", n, r.planCase)
	r.Cases("arena", n/20, r.arenaCase)
	r.Cases("buffer", n/20, r.bufferCase)
}

func (r *Run) typeTables() {
	bad := func(what string, t qp.Type) {
		r.Violation("type-"+what, "type:"+t.String(), fmt.Sprintf("%s of %v is wrong", what, t), nil)
	}
	for _, ti := range typeTable {
		t := ti.t
		for what, ok := range map[string]bool{
			"IsSigned":   sqltypes.IsSigned(t) == (ti.cat == catSigned),
			"IsUnsigned": sqltypes.IsUnsigned(t) == (ti.cat == catUnsigned),
			"IsIntegral": sqltypes.IsIntegral(t) == (ti.cat == catSigned || ti.cat == catUnsigned),
			"IsFloat":    sqltypes.IsFloat(t) == (ti.cat == catFloat),
			"IsQuoted":   sqltypes.IsQuoted(t) == (ti.cat == catQuoted),
			"IsText":     sqltypes.IsText(t) == ti.text,
			"IsBinary":   sqltypes.IsBinary(t) == ti.binary,
		} {
			if !ok {
				bad(what, t)
			}
		}
		r.Eval("type "+t.String(), true)
		if ti.cat == catTuple || ti.cat == catExpr {
			continue
		}
		// the MySQL type and flags identify the type, whatever stray flags come with it
		my, fl := sqltypes.TypeToMySQL(t)
		for _, extra := range []int64{0, 1, 2, 4, 64, 512, 1024, 32768} {
			got, err := sqltypes.MySQLToType(my, fl|extra)
			if err != nil || got != t {
				bad("MySQL type", t)
			}
			r.Eval(fmt.Sprint("mysql ", t, extra), true)
		}
	}
	for i := int64(-5); i < 600; i++ {
		got, err := sqltypes.MySQLToType(i, 0)
		known := i >= 1 && i <= 13 || i == 16 || i >= 245 && i <= 255 && i != 247 && i != 248
		if known != (err == nil) {
			r.Violation("mysql-type", fmt.Sprint("mysql:", i), fmt.Sprintf("MySQL type %d gives %v %v", i, got, err), nil)
		}
	}
	for i := 0; i < 256; i++ {
		e := sqltypes.SQLEncodeMap[byte(i)]
		if e != sqltypes.DontEscape && sqltypes.SQLDecodeMap[e] != byte(i) {
			r.Violation("escape-table", fmt.Sprint("byte:", i), "decoding an escaped byte gives another one", nil)
		}
		d := sqltypes.SQLDecodeMap[byte(i)]
		if d != sqltypes.DontEscape && sqltypes.SQLEncodeMap[d] != byte(i) {
			r.Violation("escape-table", fmt.Sprint("byte:", i), "encoding a decoded byte gives another one", nil)
		}
	}
}

func clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

func (r *Run) valueCase(id string, g *rand.Rand) {
	ty, raw, enc := randScalar(g)
	orig := clone(raw)
	var cat tcat
	var text, binary bool
	for _, ti := range typeTable {
		if ti.t == ty {
			cat, text, binary = ti.cat, ti.text, ti.binary
		}
	}
	data := map[string]interface{}{"type": ty.String(), "value": fmt.Sprintf("%q", raw)}
	fail := func(k, w string) { r.Violation(k, id, fmt.Sprintf("%v %q: %s", ty, raw, w), data) }
	lead0 := cat != catQuoted && regexp.MustCompile(`^[-+]?0[0-9]`).Match(raw)
	v, err := sqltypes.NewValue(ty, raw)
	if err != nil {
		if !lead0 {
			fail("refused", err.Error())
		}
		return
	}
	if v.Type() != ty || !bytes.Equal(v.Raw(), orig) || !bytes.Equal(v.ToBytes(), orig) || v.ToString() != string(orig) || v.Len() != len(orig) {
		fail("new", fmt.Sprintf("NewValue gives %v", v))
	}
	if v.IsNull() != (cat == catNull) || v.IsSigned() != (cat == catSigned) || v.IsUnsigned() != (cat == catUnsigned) || v.IsIntegral() != (cat == catSigned || cat == catUnsigned) ||
		v.IsFloat() != (cat == catFloat) || v.IsQuoted() != (cat == catQuoted) || v.IsText() != text || v.IsBinary() != binary {
		fail("category", "wrong category")
	}
	want := fmt.Sprintf("%v(%s)", ty, orig)
	if cat == catNull {
		want = "NULL"
	} else if cat == catQuoted {
		want = fmt.Sprintf("%v(%q)", ty, orig)
	}
	if v.String() != want {
		fail("string", v.String())
	}
	var b bytes.Buffer
	v.EncodeSQL(&b)
	if b.String() != enc {
		fail("encode", fmt.Sprintf("EncodeSQL gives %q, expected %q", b.String(), enc))
	}
	var a bytes.Buffer
	v.EncodeASCII(&a)
	wantA := enc
	if cat == catQuoted {
		wantA = "'" + base64.StdEncoding.EncodeToString(orig) + "'"
	}
	if a.String() != wantA {
		fail("ascii", fmt.Sprintf("EncodeASCII gives %q, expected %q", a.String(), wantA))
	}
	var b2 bytes2.Buffer
	v.EncodeSQL(&b2)
	if b2.String() != b.String() {
		fail("encode-buffer", "EncodeSQL depends on the buffer")
	}
	// read back by the tokenizer
	if cat == catQuoted {
		tk := sp.NewStringTokenizer(b.String(), sp.ParserModeMysql)
		typ, val := tk.Scan()
		end, _ := tk.Scan()
		if typ != sp.STRING || !bytes.Equal(val, orig) || end != 0 {
			fail("decode", fmt.Sprintf("literal %s reads back as %q", b.String(), val))
		}
	}
	// bind variables and messages
	bv := sqltypes.ValueBindVariable(v)
	v2, err := sqltypes.BindVariableToValue(bv)
	if err != nil || !sameValue(v2, v) {
		fail("bindvar", fmt.Sprintf("through a bind variable: %v %v", v2, err))
	}
	if v3 := sqltypes.ProtoToValue(sqltypes.ValueToProto(v)); !sameValue(v3, v) {
		fail("proto", fmt.Sprintf("through a message: %v", v3))
	}
	if bv2, err := sqltypes.BuildBindVariable(v); err != nil || bv2.Type != ty || !bytes.Equal(bv2.Value, orig) {
		fail("build", fmt.Sprintf("BuildBindVariable(Value): %v %v", bv2, err))
	}
	if err := sqltypes.ValidateBindVariable(bv); err != nil {
		fail("validate", err.Error())
	}
	if !bytes.Equal(raw, orig) {
		fail("modified", "the caller's bytes were modified")
	}
	r.State("types", ty.String())
	r.Eval(ty.String()+string(orig), true)
}

func sameValue(a, b sqltypes.Value) bool {
	return a.Type() == b.Type() && bytes.Equal(a.Raw(), b.Raw())
}

var reInt = regexp.MustCompile(`^[+-]?(0|[1-9][0-9]*)$`)
var reUint = regexp.MustCompile(`^(0|[1-9][0-9]*)$`)
var reFloat = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
var reGoNum = regexp.MustCompile(`(?i)^[+-]?(0[xbo0-9_].*|[0-9]+_.*|inf|infinity|nan)`)

// acceptCase: NewValue and ValidateBindVariable accept a number exactly when it is one of the type's family.
func (r *Run) acceptCase(id string, g *rand.Rand) {
	ti := typeTable[g.Intn(len(typeTable))]
	var s string
	switch g.Intn(6) {
	case 0:
		s = hostileBytes(g)
	case 1: // around the limits
		b, _ := new(big.Int).SetString(pick(g, []string{"9223372036854775807", "-9223372036854775808", "18446744073709551615", "0", "2147483647", "340282366920938463463374607431768211455"}), 10)
		b.Add(b, big.NewInt(int64(g.Intn(7)-3)))
		s = b.String()
	case 2:
		s = randNumber(g, catSigned)
	case 3:
		s = randNumber(g, catFloat)
	case 4:
		b := []byte(randNumber(g, pick1(g, catSigned, catUnsigned, catFloat, catDecimal)))
		if len(b) > 0 {
			b[g.Intn(len(b))] = byte(pickN(g, " ", "a", "e", ".", "-", "+", ",", "\x00", "'", "1", "9")[0])
		}
		s = string(b)
	case 5:
		s = pick(g, []string{"", " 1", "1 ", "1.0", "-", "+", ".", "e5", "1e", "--1", "1e999", "-1e999", "1e-999", "１", "1,5", "1\n", "0.5.5", "+7", "1e5"})
	}
	want, decided := false, true
	switch ti.cat {
	case catQuoted, catNull:
		want = true
	case catExpr, catTuple:
	case catSigned:
		if reInt.MatchString(s) {
			b, _ := new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10)
			want = b.IsInt64()
		} else {
			decided = !reGoNum.MatchString(s)
		}
	case catUnsigned:
		if reUint.MatchString(s) {
			b, _ := new(big.Int).SetString(s, 10)
			want = b.IsUint64()
		} else {
			decided = !reGoNum.MatchString(s)
		}
	default:
		if reFloat.MatchString(s) {
			b, _, err := big.ParseFloat(s, 10, 200, big.ToNearestEven)
			max := new(big.Float).SetPrec(200).SetFloat64(math.MaxFloat64)
			want = err == nil && new(big.Float).Abs(b).Cmp(max) <= 0
			lim := new(big.Float).Mul(max, big.NewFloat(1.0000001))
			decided = want || err == nil && new(big.Float).Abs(b).Cmp(lim) > 0
		} else {
			decided = !reGoNum.MatchString(s)
		}
	}
	if !decided {
		return
	}
	data := map[string]interface{}{"type": ti.t.String(), "value": fmt.Sprintf("%q", s)}
	fail := func(k, w string) { r.Violation(k, id, fmt.Sprintf("%v %q: %s", ti.t, s, w), data) }
	v, err := sqltypes.NewValue(ti.t, []byte(s))
	if (err == nil) != want {
		fail("accept", fmt.Sprintf("accepted=%v, expected %v", err == nil, want))
	}
	if err != nil && !v.IsNull() {
		fail("error-value", "an error comes with the value "+v.String())
	}
	bv := &qp.BindVariable{Type: ti.t, Value: []byte(s)}
	if ti.cat != catTuple {
		if (sqltypes.ValidateBindVariable(bv) == nil) != want {
			fail("validate", fmt.Sprintf("valid=%v, expected %v", !want, want))
		}
		tup := &qp.BindVariable{Type: qp.Type_TUPLE, Values: []*qp.Value{{Type: qp.Type_INT64, Value: []byte("1")}, {Type: ti.t, Value: []byte(s)}}}
		if (sqltypes.ValidateBindVariable(tup) == nil) != want {
			fail("validate-tuple", fmt.Sprintf("valid=%v, expected %v", !want, want))
		}
		if (sqltypes.ValidateBindVariables(map[string]*qp.BindVariable{"a": {Type: qp.Type_VARCHAR}, "b": bv}) == nil) != want {
			fail("validate-map", fmt.Sprintf("valid=%v, expected %v", !want, want))
		}
	} else {
		if sqltypes.ValidateBindVariable(bv) == nil {
			fail("validate-empty", "an empty tuple is valid")
		}
		in := &qp.BindVariable{Type: qp.Type_TUPLE, Values: []*qp.Value{{Type: qp.Type_TUPLE}}}
		if sqltypes.ValidateBindVariable(in) == nil {
			fail("validate-nested", "a nested tuple is valid")
		}
		if _, err := sqltypes.BindVariableToValue(bv); err == nil {
			fail("tuple-value", "a tuple was converted to one value")
		}
	}
	// NewIntegral
	if g.Intn(4) == 0 {
		got, err := sqltypes.NewIntegral(s)
		if reInt.MatchString(s) && !strings.HasPrefix(s, "+") {
			b, _ := new(big.Int).SetString(s, 10)
			switch {
			case b.IsInt64():
				if err != nil || got.Type() != qp.Type_INT64 || got.ToString() != b.String() {
					fail("integral", fmt.Sprint(got, err))
				}
			case b.IsUint64():
				if err != nil || got.Type() != qp.Type_UINT64 || got.ToString() != b.String() {
					fail("integral", fmt.Sprint(got, err))
				}
			default:
				if err == nil {
					fail("integral", "out of range accepted as "+got.String())
				}
			}
		} else if err == nil && !reGoNum.MatchString(s) && !strings.HasPrefix(s, "+") {
			fail("integral", "accepted as "+got.String())
		}
	}
	r.Count(fmt.Sprintf("accepted=%v", want), 1)
	r.Eval("acc"+ti.t.String()+s, true)
}

func pick1(g *rand.Rand, xs ...tcat) tcat { return xs[g.Intn(len(xs))] }

type protoWant struct {
	t qp.Type
	v string
}

// nativeValue returns a Go value and its expected type and text.
func nativeValue(g *rand.Rand) (interface{}, protoWant) {
	switch g.Intn(9) {
	case 0:
		s := hostileBytes(g)
		return s, protoWant{qp.Type_VARCHAR, s}
	case 1:
		s := hostileBytes(g)
		return []byte(s), protoWant{qp.Type_VARBINARY, s}
	case 2:
		n := int(g.Uint64()) >> uint(g.Intn(64))
		return n, protoWant{qp.Type_INT64, big.NewInt(int64(n)).String()}
	case 3:
		n := int64(g.Uint64()) >> uint(g.Intn(64))
		if g.Intn(8) == 0 {
			n = math.MinInt64
		}
		return n, protoWant{qp.Type_INT64, big.NewInt(n).String()}
	case 4:
		n := g.Uint64() >> uint(g.Intn(64))
		if g.Intn(8) == 0 {
			n = math.MaxUint64
		}
		return n, protoWant{qp.Type_UINT64, new(big.Int).SetUint64(n).String()}
	case 5:
		f := math.Float64frombits(g.Uint64())
		if math.IsNaN(f) || math.IsInf(f, 0) || g.Intn(3) == 0 {
			f = g.NormFloat64()
		}
		return f, protoWant{qp.Type_FLOAT64, "f"}
	case 6:
		return nil, protoWant{qp.Type_NULL_TYPE, ""}
	case 7:
		t, v, _ := randScalar(g)
		return sqltypes.MakeTrusted(t, v), protoWant{t, string(v)}
	}
	t, v, _ := randScalar(g)
	return &qp.BindVariable{Type: t, Value: v}, protoWant{t, string(v)}
}

func matches(x interface{}, w protoWant, t qp.Type, v []byte) bool {
	if t != w.t {
		return false
	}
	if f, ok := x.(float64); ok {
		g, err := strconv.ParseFloat(string(v), 64)
		return err == nil && g == f && math.Signbit(g) == math.Signbit(f)
	}
	return string(v) == w.v
}

type customString string

func (r *Run) nativeCase(id string, g *rand.Rand) {
	fail := func(k, w string) { r.Violation(k, id, w, nil) }
	x, w := nativeValue(g)
	bv, err := sqltypes.BuildBindVariable(x)
	if err != nil || !matches(x, w, bv.Type, bv.Value) || len(bv.Values) != 0 {
		fail("build", fmt.Sprintf("%T %v gives %v %v", x, x, bv, err))
		return
	}
	switch y := x.(type) {
	case string:
		if !matches(x, w, sqltypes.StringBindVariable(y).Type, sqltypes.StringBindVariable(y).Value) || sqltypes.NewVarChar(y).ToString() != y || sqltypes.NewVarBinary(y).Type() != qp.Type_VARBINARY {
			fail("string", fmt.Sprintf("%q", y))
		}
	case int64:
		if !matches(x, w, sqltypes.Int64BindVariable(y).Type, sqltypes.Int64BindVariable(y).Value) || sqltypes.NewInt64(y).ToString() != w.v {
			fail("int64", w.v)
		}
		n := int32(y)
		if v := sqltypes.NewInt32(n); v.Type() != qp.Type_INT32 || v.ToString() != big.NewInt(int64(n)).String() {
			fail("int32", v.String())
		}
		if v := sqltypes.Int32BindVariable(n); v.Type != qp.Type_INT32 || string(v.Value) != big.NewInt(int64(n)).String() {
			fail("int32", v.String())
		}
	case uint64:
		if !matches(x, w, sqltypes.Uint64BindVariable(y).Type, sqltypes.Uint64BindVariable(y).Value) || sqltypes.NewUint64(y).ToString() != w.v {
			fail("uint64", w.v)
		}
	case float64:
		if !matches(x, w, sqltypes.Float64BindVariable(y).Type, sqltypes.Float64BindVariable(y).Value) || !matches(x, w, sqltypes.NewFloat64(y).Type(), sqltypes.NewFloat64(y).Raw()) {
			fail("float64", fmt.Sprint(y))
		}
	case []byte:
		if b := sqltypes.BytesBindVariable(y); !matches(x, w, b.Type, b.Value) {
			fail("bytes", fmt.Sprintf("%q", y))
		}
	}
	switch x.(type) {
	case int, sqltypes.Value, *qp.BindVariable:
		if _, err := sqltypes.InterfaceToValue(x); err == nil {
			if _, ok := x.(int); !ok {
				fail("interface", fmt.Sprintf("%T accepted", x))
			}
		}
	default:
		v, err := sqltypes.InterfaceToValue(x)
		if err != nil || !matches(x, w, v.Type(), v.Raw()) {
			fail("interface", fmt.Sprintf("%T %v gives %v %v", x, x, v, err))
		}
	}
	// lists
	n := g.Intn(5)
	var list interface{}
	var ws []protoWant
	var xs []interface{}
	switch g.Intn(7) {
	case 0:
		l := []interface{}{}
		for i := 0; i < n; i++ {
			x, w := nativeValue(g)
			l, ws = append(l, x), append(ws, w)
		}
		list, xs = l, l
	case 1:
		l := []string{}
		for i := 0; i < n; i++ {
			s := hostileBytes(g)
			l, ws, xs = append(l, s), append(ws, protoWant{qp.Type_VARCHAR, s}), append(xs, s)
		}
		list = l
	case 2:
		l := [][]byte{}
		for i := 0; i < n; i++ {
			s := hostileBytes(g)
			l, ws, xs = append(l, []byte(s)), append(ws, protoWant{qp.Type_VARBINARY, s}), append(xs, []byte(s))
		}
		list = l
	case 3:
		l := []int{}
		for i := 0; i < n; i++ {
			s := int(g.Uint64()) >> uint(g.Intn(64))
			l, ws, xs = append(l, s), append(ws, protoWant{qp.Type_INT64, big.NewInt(int64(s)).String()}), append(xs, s)
		}
		list = l
	case 4:
		l := []int64{}
		for i := 0; i < n; i++ {
			s := int64(g.Uint64()) >> uint(g.Intn(64))
			l, ws, xs = append(l, s), append(ws, protoWant{qp.Type_INT64, big.NewInt(s).String()}), append(xs, s)
		}
		list = l
	case 5:
		l := []uint64{}
		for i := 0; i < n; i++ {
			s := g.Uint64() >> uint(g.Intn(64))
			l, ws, xs = append(l, s), append(ws, protoWant{qp.Type_UINT64, new(big.Int).SetUint64(s).String()}), append(xs, s)
		}
		list = l
	case 6:
		l := []float64{}
		for i := 0; i < n; i++ {
			s := g.NormFloat64() * math.Pow(10, float64(g.Intn(600)-300))
			l, ws, xs = append(l, s), append(ws, protoWant{qp.Type_FLOAT64, ""}), append(xs, s)
		}
		list = l
	}
	lv, err := sqltypes.BuildBindVariable(list)
	ok := err == nil && lv.Type == qp.Type_TUPLE && len(lv.Values) == n
	for i := 0; ok && i < n; i++ {
		ok = matches(xs[i], ws[i], lv.Values[i].Type, lv.Values[i].Value)
	}
	if !ok {
		fail("list", fmt.Sprintf("%T %v gives %v %v", list, list, lv, err))
		return
	}
	// maps and copies
	m := map[string]interface{}{"a": x, "l": list}
	bvs, err := sqltypes.BuildBindVariables(m)
	if err != nil || len(bvs) != 2 || !matches(x, w, bvs["a"].Type, bvs["a"].Value) || !reflect.DeepEqual(bvs["l"], lv) {
		fail("map", fmt.Sprintf("%v %v", bvs, err))
		return
	}
	cp := sqltypes.CopyBindVariables(bvs)
	if !sqltypes.BindVariablesEqual(cp, bvs) || cp["a"] != bvs["a"] {
		fail("copy", "a copy differs")
	}
	delete(cp, "a")
	cp["z"] = bv
	if len(bvs) != 2 || bvs["a"] == nil || bvs["z"] != nil || sqltypes.BindVariablesEqual(cp, bvs) {
		fail("copy-shared", "changing a copy changes the original")
	}
	other, _ := sqltypes.BuildBindVariables(m)
	if !sqltypes.BindVariablesEqual(other, bvs) {
		fail("equal", "equal variables are reported as different")
	}
	other["a"] = &qp.BindVariable{Type: bv.Type, Value: append(clone(bv.Value), '0')}
	if sqltypes.BindVariablesEqual(other, bvs) {
		fail("equal", "different variables are reported as equal")
	}
	for _, u := range []interface{}{int32(1), int8(1), uint(1), uint8(3), float32(1), true, struct{}{}, map[string]int{}, []bool{true}, &x, customString("a"), []interface{}{1, true}, [2]int{}} {
		if b, err := sqltypes.BuildBindVariable(u); err == nil {
			fail("unsupported", fmt.Sprintf("%T gives %v", u, b))
		}
		if b, err := sqltypes.BuildBindVariables(map[string]interface{}{"ok": 1, "bad": u}); err == nil {
			fail("unsupported-map", fmt.Sprintf("%T gives %v", u, b))
		}
	}
	r.State("native types", fmt.Sprintf("%T", x))
	r.State("native types", fmt.Sprintf("%T", list))
	r.Eval(fmt.Sprintf("%T%v%T%v", x, x, list, list), true)
}

// jsonCase: the JSON form of numbers, null and valid text shows the value.
func (r *Run) jsonCase(id string, g *rand.Rand) {
	t, raw, _ := randScalar(g)
	v := sqltypes.MakeTrusted(t, raw)
	fail := func(k, w string) { r.Violation(k, id, fmt.Sprintf("%v: %s", v, w), nil) }
	var out []byte
	var err error
	switch {
	case v.IsNull():
		out, err = json.Marshal(v)
		var back sqltypes.Value
		if err != nil || string(out) != "null" || json.Unmarshal(out, &back) != nil || !back.IsNull() {
			fail("null", string(out))
		}
	case v.IsQuoted():
		if !utf8.Valid(raw) {
			return
		}
		out, err = json.Marshal(v)
		var s string
		if err != nil || json.Unmarshal(out, &s) != nil || s != string(raw) {
			fail("text", fmt.Sprintf("%s %v", out, err))
		}
	case v.IsIntegral():
		b, ok := new(big.Int).SetString(string(raw), 10)
		if !ok || b.String() != string(raw) {
			return // -0, leading zeros
		}
		out, err = json.Marshal(v)
		if err != nil || string(out) != string(raw) {
			fail("integer", fmt.Sprintf("%s %v", out, err))
			return
		}
		var back sqltypes.Value
		err := json.Unmarshal(out, &back)
		wt := qp.Type_UINT64
		if b.Sign() < 0 {
			wt = qp.Type_INT64
		}
		if err != nil || back.Type() != wt || back.ToString() != b.String() {
			fail("integer-back", fmt.Sprintf("%v %v", back, err))
		}
	default:
		if !json.Valid(raw) {
			return
		}
		out, err = v.MarshalJSON()
		if err != nil || string(out) != string(raw) {
			fail("float", fmt.Sprintf("%s %v", out, err))
		}
		var back sqltypes.Value
		if err := json.Unmarshal(out, &back); err == nil {
			// whatever is read must be the same number
			f1, _, _ := big.ParseFloat(string(raw), 10, 400, big.ToNearestEven)
			f2, _, err := big.ParseFloat(back.ToString(), 10, 400, big.ToNearestEven)
			if err != nil || f1.Cmp(f2) != 0 {
				fail("float-back", "reads back as "+back.String())
			}
		}
	}
	// integers out of range and other JSON are refused
	for _, s := range []string{"18446744073709551616", "-9223372036854775809", "{}", "[]", "1.5", "true", "-", "\"\x00"} {
		var back sqltypes.Value
		if err := back.UnmarshalJSON([]byte(s)); err == nil {
			fail("json-accept", s+" is read as "+back.String())
		}
	}
	var back sqltypes.Value
	if back.UnmarshalJSON(nil) == nil {
		fail("json-empty", "nothing is read as a value")
	}
	r.Eval("json"+t.String()+string(raw), true)
}

func (r *Run) planCase(id string, g *rand.Rand) {
	vars := map[string]*qp.BindVariable{}
	type sc struct {
		t qp.Type
		v string
	}
	scal := map[string]sc{}
	lists := map[string][]sc{}
	for i := 0; i < 4; i++ {
		t, v, _ := randScalar(g)
		k := fmt.Sprintf("s%d", i)
		vars[k] = &qp.BindVariable{Type: t, Value: v}
		scal[k] = sc{t, string(v)}
		k = fmt.Sprintf("l%d", i)
		bv := &qp.BindVariable{Type: qp.Type_TUPLE}
		for j := 0; j < 1+i/2+g.Intn(2); j++ {
			t, v, _ := randScalar(g)
			bv.Values = append(bv.Values, &qp.Value{Type: t, Value: v})
			lists[k] = append(lists[k], sc{t, string(v)})
		}
		vars[k] = bv
	}
	const errv = "ERR"
	show := func(v sqltypes.Value) string { return fmt.Sprintf("%v:%q", v.Type(), v.Raw()) }
	shows := func(s sc) string { return fmt.Sprintf("%v:%q", s.t, []byte(s.v)) }
	null := show(sqltypes.NULL)
	// a single plan value: itself, expected value, expected list
	single := func() (sqltypes.PlanValue, string) {
		switch g.Intn(10) {
		case 0:
			return sqltypes.PlanValue{Key: "missing"}, errv
		case 1:
			return sqltypes.PlanValue{Key: fmt.Sprintf("l%d", g.Intn(4))}, errv
		case 2:
			return sqltypes.PlanValue{}, null
		case 3, 4, 5:
			k := fmt.Sprintf("s%d", g.Intn(4))
			return sqltypes.PlanValue{Key: k}, shows(scal[k])
		}
		for {
			t, v, _ := randScalar(g)
			if t != qp.Type_NULL_TYPE {
				return sqltypes.PlanValue{Value: sqltypes.MakeTrusted(t, v)}, shows(sc{t, string(v)})
			}
		}
	}
	list := func() (sqltypes.PlanValue, []string) {
		switch g.Intn(10) {
		case 0:
			return sqltypes.PlanValue{ListKey: "missing"}, nil
		case 1:
			return sqltypes.PlanValue{ListKey: "s1"}, nil
		case 2, 3, 4:
			k := fmt.Sprintf("l%d", g.Intn(4))
			var w []string
			for _, s := range lists[k] {
				w = append(w, shows(s))
			}
			return sqltypes.PlanValue{ListKey: k}, w
		}
		var pv sqltypes.PlanValue
		var w []string
		bad := false
		for i := 0; i < 1+g.Intn(3); i++ {
			p, s := single()
			pv.Values = append(pv.Values, p)
			w = append(w, s)
			bad = bad || s == errv
		}
		if bad {
			w = append([]string{errv}, w...)
		}
		return pv, w
	}
	fail := func(k, w string) { r.Violation(k, id, w, map[string]interface{}{"vars": fmt.Sprint(vars)}) }
	p, w := single()
	got, err := p.ResolveValue(vars)
	if (err != nil) != (w == errv) || err == nil && show(got) != w {
		fail("value", fmt.Sprintf("%+v resolves to %v %v, expected %s", p, got, err, w))
	}
	if p.IsList() || p.IsNull() != (p.Key == "" && p.Value.IsNull()) {
		fail("kind", fmt.Sprintf("%+v", p))
	}
	if _, err := p.ResolveList(vars); err == nil {
		fail("value-as-list", fmt.Sprintf("%+v resolves to a list", p))
	}
	l, lw := list()
	if !l.IsList() || l.IsNull() {
		fail("kind", fmt.Sprintf("%+v", l))
	}
	if _, err := l.ResolveValue(vars); err == nil {
		fail("list-as-value", fmt.Sprintf("%+v resolves to a value", l))
	}
	gl, err := l.ResolveList(vars)
	lbad := lw == nil || lw[0] == errv
	var gs []string
	for _, v := range gl {
		gs = append(gs, show(v))
	}
	if (err != nil) != lbad || !lbad && strings.Join(gs, ",") != strings.Join(lw, ",") {
		fail("list", fmt.Sprintf("%+v resolves to %v %v, expected %v", l, gs, err, lw))
	}
	// rows
	var pvs []sqltypes.PlanValue
	var cols [][]string // expected column: one value (single) or many
	var isList []bool
	bad := false
	count := -1
	for i := 0; i < 1+g.Intn(4); i++ {
		if g.Intn(2) == 0 {
			p, w := single()
			pvs, cols, isList = append(pvs, p), append(cols, []string{w}), append(isList, false)
			bad = bad || w == errv
			continue
		}
		p, w := list()
		if w == nil || w[0] == errv {
			bad = true
		} else if count == -1 {
			count = len(w)
		} else if count != len(w) {
			bad = true
		}
		pvs, cols, isList = append(pvs, p), append(cols, w), append(isList, true)
	}
	if count == -1 {
		count = 1
	}
	rows, err := sqltypes.ResolveRows(pvs, vars)
	if (err != nil) != bad {
		fail("rows", fmt.Sprintf("%+v resolves to %v %v, expected error: %v", pvs, rows, err, bad))
		return
	}
	if !bad {
		ok := len(rows) == count
		for i := 0; ok && i < count; i++ {
			ok = len(rows[i]) == len(pvs)
			for j := 0; ok && j < len(pvs); j++ {
				w := cols[j][0]
				if isList[j] {
					w = cols[j][i]
				}
				ok = show(rows[i][j]) == w
			}
		}
		if !ok {
			fail("rows", fmt.Sprintf("%+v resolves to %v, expected columns %v", pvs, rows, cols))
			return
		}
	}
	r.Count(fmt.Sprintf("plans resolved (error %v)", bad), 1)
	r.Eval(fmt.Sprintf("%+v%v", pvs, vars), true)
}

func (r *Run) arenaCase(id string, g *rand.Rand) {
	size := g.Intn(60)
	a := hack.NewStringArena(size)
	if a.SpaceLeft() != size {
		r.Violation("arena-space", id, fmt.Sprintf("space %d of %d", a.SpaceLeft(), size), nil)
	}
	var got, want []string
	left := size
	for i := 0; i < g.Intn(30); i++ {
		b := []byte(hostileBytes(g))
		w := string(b)
		s := a.NewString(b)
		for j := range b {
			b[j] = 'Z' // the caller's buffer is his own
		}
		got, want = append(got, s), append(want, w)
		if len(w) <= left {
			left -= len(w)
		}
		if a.SpaceLeft() != left {
			r.Violation("arena-space", id, fmt.Sprintf("space %d, expected %d", a.SpaceLeft(), left), nil)
			return
		}
		for j := range got {
			if got[j] != want[j] {
				r.Violation("arena", id, fmt.Sprintf("string %d was %q and is now %q", j, want[j], got[j]), nil)
				return
			}
		}
	}
	b := []byte(hostileBytes(g))
	if hack.String(b) != string(b) || hack.String(nil) != "" {
		r.Violation("hack-string", id, fmt.Sprintf("%q", b), nil)
	}
	r.Eval(fmt.Sprint("arena", want, size), len(want) > 0)
}

func (r *Run) bufferCase(id string, g *rand.Rand) {
	var m []byte
	b := &bytes2.Buffer{}
	if g.Intn(2) == 0 {
		m = []byte(hostileBytes(g))
		b = bytes2.NewBuffer(clone(m))
	}
	for i := 0; i < g.Intn(20); i++ {
		s := hostileBytes(g)
		switch g.Intn(3) {
		case 0:
			x := []byte(s)
			n, err := b.Write(x)
			if n != len(s) || err != nil {
				r.Violation("buffer", id, "Write reports another length", nil)
			}
			for j := range x {
				x[j] = 'Q'
			}
			m = append(m, s...)
		case 1:
			n, err := b.WriteString(s)
			if n != len(s) || err != nil {
				r.Violation("buffer", id, "WriteString reports another length", nil)
			}
			m = append(m, s...)
		case 2:
			b.WriteByte(byte(i))
			m = append(m, byte(i))
		}
		if !bytes.Equal(b.Bytes(), m) || b.String() != string(m) || b.Len() != len(m) {
			r.Violation("buffer", id, fmt.Sprintf("buffer holds %q, expected %q", b.Bytes(), m), nil)
			return
		}
	}
	r.Eval("buf"+string(m), len(m) > 0)
}
