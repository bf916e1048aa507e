package vsim

import (
	"fmt"
	"strconv"
	"syscall"
)

// fmt and os synchronise inside (pools, file locks). Writing a trace must not order the accesses of the tasks that write
// it, or the race detector would not see their races; so the texts of traces are made without them where possible.

func plainText(format string, args []any) (string, bool) {
	out := make([]byte, 0, 64)
	k := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			out = append(out, c)
			continue
		}
		i++
		if i == len(format) {
			return "", false
		}
		verb := format[i]
		if verb == '%' {
			out = append(out, '%')
			continue
		}
		if k == len(args) {
			return "", false
		}
		a := args[k]
		k++
		switch x := a.(type) {
		case string:
			switch verb {
			case 's', 'v':
				out = append(out, x...)
			case 'q':
				out = strconv.AppendQuote(out, x)
			default:
				return "", false
			}
		case int:
			if verb != 'd' && verb != 'v' {
				return "", false
			}
			out = strconv.AppendInt(out, int64(x), 10)
		case bool:
			if verb != 't' && verb != 'v' {
				return "", false
			}
			out = strconv.AppendBool(out, x)
		case nil:
			out = append(out, "<nil>"...)
		default:
			return "", false
		}
	}
	return string(out), k == len(args)
}

func text(format string, args []any) string {
	if s, ok := plainText(format, args); ok {
		return s
	}
	return fmt.Sprintf(format, args...)
}

func pad(s string, n int) string {
	for len(s) < n {
		s = " " + s
	}
	return s
}

func stamp(s string) string {
	return pad(strconv.FormatInt(steps, 10), 6) + " t" + strconv.Itoa(TaskID()) + " " + pad(Now().String(), 8) + "  " + s
}

// Sink, if not 0, is the descriptor that receives choices and events as they happen, for runs that may crash the process
var Sink int

func sink(s string) {
	if Sink != 0 {
		syscall.Write(Sink, []byte(s))
	}
}
