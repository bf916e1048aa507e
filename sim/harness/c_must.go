package harness

import (
	"fmt"
	"io"
	"math"
	"math/big"
	"net/http"
	"reflect"
	"strings"

	"github.com/bantling/micro/conv"
	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/encoding/json/write"
	"github.com/bantling/micro/io/writer"
	mmath "github.com/bantling/micro/math"
	mreflect "github.com/bantling/micro/reflect"
	"github.com/bantling/micro/rest"
)

// The Must forms of the library's own operations, each compared with its plain form (part of C20)

type mustPair struct {
	name  string
	plain func() (any, error)
	must  func() any
	fail  error // injected: the very error is to be seen
}

func convPair[I, O any](name string, in I, plain func(I, *O) error, must func(I, *O)) mustPair {
	return mustPair{name: fmt.Sprintf("%s of %v", name, in), plain: func() (any, error) {
		var o O
		err := plain(in, &o)
		return o, err
	}, must: func() any {
		var o O
		must(in, &o)
		return o
	}}
}

func dec(e *E) mmath.Decimal {
	v := []int64{0, 1, -1, 5, 100, 123456, -99999, 999999999999999999, -999999999999999999, 100000000000000000}[e.Draw(10)]
	d, err := mmath.OfDecimal(v, uint(e.Draw(18)))
	if err != nil {
		d, _ = mmath.OfDecimal(7, 1)
	}
	return d
}

func drawMust(e *E) mustPair {
	ints := []int64{0, 1, -1, 127, 128, -129, 32768, 1 << 31, -1 << 40, math.MaxInt64, math.MinInt64}
	floats := []float64{0, 1, -2.5, 1e10, 1e300, math.NaN(), math.Inf(1), math.Inf(-1), 0.1, 255, 9.3e18}
	texts := []string{"", "0", "-1", "12x", "99999999999999999999", "1.25", "1/3", "1e400", "-7.5", "nope", " 1", "18446744073709551615"}
	i, f, s := ints[e.Draw(len(ints))], floats[e.Draw(len(floats))], texts[e.Draw(len(texts))]
	rat := big.NewRat(i/2+1, int64(1+e.Draw(4)))
	switch e.Draw(34) {
	case 0:
		return convPair("conv.To int8", i, conv.To[int64, int8], conv.MustTo[int64, int8])
	case 1:
		return convPair("conv.To uint", s, conv.To[string, uint], conv.MustTo[string, uint])
	case 2:
		return convPair("conv.To int", f, conv.To[float64, int], conv.MustTo[float64, int])
	case 3:
		return convPair("conv.IntToInt", i, conv.IntToInt[int64, int16], conv.MustIntToInt[int64, int16])
	case 4:
		return convPair("conv.IntToUint", i, conv.IntToUint[int64, uint32], conv.MustIntToUint[int64, uint32])
	case 5:
		return convPair("conv.UintToInt", uint64(i), conv.UintToInt[uint64, int8], conv.MustUintToInt[uint64, int8])
	case 6:
		return convPair("conv.UintToUint", uint64(i), conv.UintToUint[uint64, uint8], conv.MustUintToUint[uint64, uint8])
	case 7:
		return convPair("conv.FloatToInt", f, conv.FloatToInt[float64, int32], conv.MustFloatToInt[float64, int32])
	case 8:
		return convPair("conv.FloatToUint", f, conv.FloatToUint[float64, uint16], conv.MustFloatToUint[float64, uint16])
	case 9:
		return convPair("conv.StringToInt64", s, conv.StringToInt64, conv.MustStringToInt64)
	case 10:
		return convPair("conv.StringToUint64", s, conv.StringToUint64, conv.MustStringToUint64)
	case 11:
		return convPair("conv.BigIntToInt64", new(big.Int).Mul(big.NewInt(i), big.NewInt(int64(e.Draw(3)))), conv.BigIntToInt64, conv.MustBigIntToInt64)
	case 12:
		return convPair("conv.BigRatToUint64", rat, conv.BigRatToUint64, conv.MustBigRatToUint64)
	case 13:
		return convPair("conv.IntToFloat", i, conv.IntToFloat[int64, float32], conv.MustIntToFloat[int64, float32])
	case 14:
		return convPair("conv.FloatToFloat", f, conv.FloatToFloat[float64, float32], conv.MustFloatToFloat[float64, float32])
	case 15:
		return convPair("conv.StringToFloat64", s, conv.StringToFloat64, conv.MustStringToFloat64)
	case 16:
		return convPair("conv.FloatToBigInt", f, conv.FloatToBigInt[float64], conv.MustFloatToBigInt[float64])
	case 17:
		return convPair("conv.StringToBigInt", s, conv.StringToBigInt, conv.MustStringToBigInt)
	case 18:
		return convPair("conv.StringToBigRat", s, conv.StringToBigRat, conv.MustStringToBigRat)
	case 19:
		return convPair("conv.BigRatToBigInt", rat, conv.BigRatToBigInt, conv.MustBigRatToBigInt)
	case 20:
		return convPair("conv.ToBigOps", s, conv.ToBigOps[string, *big.Int], conv.MustToBigOps[string, *big.Int])
	case 21:
		return mustPair{name: "conv.ReflectTo", plain: func() (any, error) {
			var o int8
			err := conv.ReflectTo(reflect.ValueOf(i), reflect.ValueOf(&o))
			return o, err
		}, must: func() any { var o int8; conv.MustReflectTo(reflect.ValueOf(i), reflect.ValueOf(&o)); return o }}
	case 22:
		sc := uint(e.Draw(21))
		return mustPair{name: fmt.Sprint("math.OfDecimal ", i, " ", sc), plain: func() (any, error) { return mmath.OfDecimal(i, sc) }, must: func() any { return mmath.MustDecimal(i, sc) }}
	case 23:
		return mustPair{name: "math.StringToDecimal " + s, plain: func() (any, error) { return mmath.StringToDecimal(s) }, must: func() any { return mmath.MustStringToDecimal(s) }}
	case 24:
		a, b := dec(e), dec(e)
		switch e.Draw(5) {
		case 0:
			return mustPair{name: "Decimal.Add", plain: func() (any, error) { return a.Add(b) }, must: func() any { return a.MustAdd(b) }}
		case 1:
			return mustPair{name: "Decimal.Sub", plain: func() (any, error) { return a.Sub(b) }, must: func() any { return a.MustSub(b) }}
		case 2:
			return mustPair{name: "Decimal.Mul", plain: func() (any, error) { return a.Mul(b) }, must: func() any { return a.MustMul(b) }}
		case 3:
			return mustPair{name: "Decimal.Div", plain: func() (any, error) { return a.Div(b) }, must: func() any { return a.MustDiv(b) }}
		}
		return mustPair{name: "AdjustDecimalScale", plain: func() (any, error) {
			c, d := a, b
			err := mmath.AdjustDecimalScale(&c, &d)
			return fmt.Sprint(c, d), err
		}, must: func() any { c, d := a, b; mmath.MustAdjustDecimalScale(&c, &d); return fmt.Sprint(c, d) }}
	case 25:
		a, k := dec(e), uint(e.Draw(6))
		if e.Bool() {
			return mustPair{name: "Decimal.DivIntAdd", plain: func() (any, error) { return a.DivIntAdd(k) }, must: func() any { return a.MustDivIntAdd(k) }}
		}
		return mustPair{name: "Decimal.DivIntQuoRem", plain: func() (any, error) { q, r, err := a.DivIntQuoRem(k); return [2]mmath.Decimal{q, r}, err },
			must: func() any { q, r := a.MustDivIntQuoRem(k); return [2]mmath.Decimal{q, r} }}
	case 26:
		v := []any{f, "x", nil, struct{}{}, true}[e.Draw(5)]
		if e.Bool() {
			return mustPair{name: "json.MapToValue", plain: func() (any, error) { return json.MapToValue(map[string]any{"a": v}) }, must: func() any { return json.MustMapToValue(map[string]any{"a": v}) }}
		}
		return mustPair{name: "json.SliceToValue", plain: func() (any, error) { return json.SliceToValue([]any{1, v}) }, must: func() any { return json.MustSliceToValue([]any{1, v}) }}
	case 27:
		if e.Bool() {
			return mustPair{name: "json.NumberToValue", plain: func() (any, error) { return json.NumberToValue(f) }, must: func() any { return json.MustNumberToValue(f) }}
		}
		return mustPair{name: "json.ToValue", plain: func() (any, error) { return json.ToValue(json.NumberString(s)) }, must: func() any { return json.MustToValue(json.NumberString(s)) }}
	case 28:
		pattern := []string{"/a", "/(a", "/[", "(?P<x>a)", "a{2,1}", ""}[e.Draw(6)]
		method := []string{"GET", "", "nope"}[e.Draw(3)]
		h := mustHandler{}
		return mustPair{name: "rest.Handle " + method + " " + pattern, plain: func() (any, error) { return nil, new(rest.ServeMux).Handle(method, pattern, h) },
			must: func() any { new(rest.ServeMux).MustHandle(method, pattern, h); return nil }}
	case 29:
		typ := []reflect.Type{reflect.TypeFor[int64](), reflect.TypeFor[string]()}[e.Draw(2)]
		msg := [][]string{nil, {"here"}}[e.Draw(2)]
		return mustPair{name: "reflect.TypeAssert", plain: func() (any, error) { return nil, mreflect.TypeAssert(reflect.ValueOf(i), typ, msg...) },
			must: func() any { mreflect.MustTypeAssert(reflect.ValueOf(i), typ, msg...); return nil }}
	case 30, 31: // a reader that fails
		doc := []string{`{"a":[1,"b",null]}`, `[]`, `[1,`, ``, `{"a" 1}`}[e.Draw(5)]
		var fail error = io.EOF
		if e.Bool() {
			doc, fail = doc[:e.Draw(len(doc)+1)], drawErr(e, "the reader failed")
		}
		open := func() io.Reader { return &mustReader{strings.NewReader(doc), fail} }
		return mustPair{name: "parse.Parse " + doc, fail: fail, plain: func() (any, error) { return parse.Parse(open()) }, must: func() any { return parse.MustParse(open()) }}
	}
	v := json.MustToValue([]any{1, "b", nil, map[string]any{"k": true}})
	fail := drawErr(e, "the destination failed")
	at := e.Draw(25)
	dst := func() writer.Writer[rune] { return writer.OfIOWriterAsRunes(&mustWriter{at: at, err: fail}) }
	switch e.Draw(3) {
	case 0:
		return mustPair{name: "write.Write", fail: fail, plain: func() (any, error) { return nil, write.Write(v, dst()) }, must: func() any { write.MustWrite(v, dst()); return nil }}
	case 1:
		return mustPair{name: "write.WriteArray", fail: fail, plain: func() (any, error) { return nil, write.WriteArray(v, dst()) }, must: func() any { write.MustWriteArray(v, dst()); return nil }}
	}
	v = json.MustToValue(map[string]any{"key": []any{1}})
	return mustPair{name: "write.WriteObject", fail: fail, plain: func() (any, error) { return nil, write.WriteObject(v, dst()) }, must: func() any { write.MustWriteObject(v, dst()); return nil }}
}

type mustHandler struct{}

func (mustHandler) Serve(http.ResponseWriter, *http.Request, []string) {}

type mustReader struct {
	io.Reader
	end error
}

func (r *mustReader) Read(p []byte) (int, error) {
	n, err := r.Reader.Read(p)
	if err == io.EOF {
		err = r.end
	}
	return n, err
}

type mustWriter struct {
	at  int
	err error
}

func (w *mustWriter) Write(p []byte) (int, error) {
	if w.at--; w.at < 0 {
		return 0, w.err
	}
	return len(p), nil
}

func checkMust(e *E) {
	p := drawMust(e)
	var want, got any
	var err error
	pv, ppan := Catch(func() { want, err = p.plain() })
	mv, mpan := Catch(func() { got = p.must() })
	e.Trace("%s: %v %v, Must form panics %v with %v", p.name, want, err, mpan, mv)
	if ppan { // the plain form itself panics
		e.Assert(mpan && fmt.Sprint(mv) == fmt.Sprint(pv), "must-form", "%s: the plain form panics with %v, the Must form with %v", p.name, pv, mv)
		return
	}
	e.Assert(mpan == (err != nil), "must-form", "%s: the plain form returns the error %v, but the Must form panics: %v", p.name, err, mpan)
	if mpan {
		e.Fault("operation under a Must form failed")
		merr, ok := mv.(error)
		e.Assert(ok, "must-form", "%s: the Must form panics with %T %v instead of its error", p.name, mv, mv)
		if err == p.fail {
			e.Assert(merr == err, "must-form", "%s: the Must form panics with %v instead of the very error %v", p.name, merr, err)
		}
		e.Assert(merr.Error() == err.Error() && reflect.TypeOf(merr) == reflect.TypeOf(err), "must-form", "%s: the Must form panics with %v instead of %v", p.name, merr, err)
		return
	}
	e.Assert(fmt.Sprint(got) == fmt.Sprint(want), "must-form", "%s: the Must form returns %v instead of %v", p.name, got, want)
}
