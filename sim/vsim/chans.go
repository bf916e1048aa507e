package vsim

// Operations on the channels of package-level variables, which exist before the run: blocking on them natively would be
// invisible to the simulator.

type chans struct{}

// ChanWake lets all tasks that wait for such a channel try again
func ChanWake() {
	if on {
		Wake(chans{})
	}
}

// Send is ch <- v
func Send[T any](ch chan<- T) func(v T) {
	return func(v T) {
		for on && cap(ch) > 0 {
			select {
			case ch <- v:
				ChanWake()
				return
			default:
				Block(chans{})
			}
		}
		ch <- v
	}
}

// Recv is <-ch
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch
func Recv2[T any](ch <-chan T) (T, bool) {
	for on && cap(ch) > 0 {
		select {
		case v, ok := <-ch:
			ChanWake()
			return v, ok
		default:
			Block(chans{})
		}
	}
	v, ok := <-ch
	return v, ok
}

// Close is close(ch)
func Close[T any](ch chan<- T) {
	close(ch)
	ChanWake()
}
