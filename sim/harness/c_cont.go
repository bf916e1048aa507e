package harness

import (
	"reflect"

	"github.com/bantling/micro/io/writer"
	"github.com/bantling/micro/tuple"
)

// containers checks the writers to slices and maps
func containers(e *E) {
	e.NonTrivial()
	each, keys := 4, 6
	if e.OneIn(200) {
		each, keys = 1500, 5000
	}
	if e.Bool() {
		var got, want []int
		if e.Bool() {
			got = make([]int, e.Draw(3), 5)
			want = append(want, got...)
		}
		w := writer.OfSliceWriter(&got)
		g := writer.SliceWriterGen(&got)
		for n := e.Draw(12); n > 0; n-- {
			if e.Bool() {
				vals := items(e, e.Draw(each))
				err := w.Write(vals...)
				e.Assert(err == nil, "write-error-made-up", "slice writer: %v", err)
				want = append(want, vals...)
			} else {
				v := e.Draw(100)
				e.Assert(g(v) == nil, "write-error-made-up", "slice writer failed")
				want = append(want, v)
			}
			e.Assert(len(got) == len(want) && (len(got) == 0 || reflect.DeepEqual(got, want)), "write-garbled", "slice %v instead of %v", got, want)
		}
		e.State(want)
		return
	}
	got, want := map[string]int{}, map[string]int{}
	w := writer.OfMapWriter(got)
	g := writer.MapWriterGen(got)
	for n := e.Draw(12); n > 0; n-- {
		var vals []tuple.Two[string, int]
		for k := e.Draw(each); k > 0; k-- {
			vals = append(vals, tuple.Of2(string(rune('a'+e.Draw(keys))), e.Draw(4)))
		}
		for _, v := range vals {
			want[v.T] = v.U
		}
		if e.Bool() {
			e.Assert(w.Write(vals...) == nil, "write-error-made-up", "map writer failed")
		} else {
			for _, v := range vals {
				e.Assert(g(v) == nil, "write-error-made-up", "map writer failed")
			}
		}
		e.Assert(reflect.DeepEqual(got, want), "write-garbled", "map %v instead of %v", got, want)
	}
	e.State(want)
}
