package simrt

import "unsafe"

// Timer is an entry of the discrete-event clock.
type Timer struct {
	at, seq int64
	Fired   bool
	Stopped bool
	f       func()
	tok     byte
}

//go:norace
func AddTimer(d int64, f func()) *Timer {
	if d < 0 {
		d = 0
	}
	t := &Timer{at: clock + d, seq: timSeq, f: f}
	timSeq++
	if int(nTim) >= len(timers) {
		fireTimers() // time passes
	}
	Release(unsafe.Pointer(&t.tok))
	timers[nTim] = t
	nTim++
	return t
}

//go:norace
func (t *Timer) Stop() bool {
	for i := int32(0); i < nTim; i++ {
		if timers[i] == t {
			for j := i + 1; j < nTim; j++ {
				timers[j-1] = timers[j]
			}
			nTim--
			t.Stopped = true
			return true
		}
	}
	return false
}

//go:norace
func timerDue() bool {
	for i := int32(0); i < nTim; i++ {
		if timers[i].at <= clock {
			return true
		}
	}
	return false
}

// fireTimers jumps the clock to the next timer when nothing is runnable.
//
//go:norace
func fireTimers() bool {
	if nTim == 0 {
		return false
	}
	b := int32(0)
	for i := int32(1); i < nTim; i++ {
		if timers[i].at < timers[b].at || (timers[i].at == timers[b].at && timers[i].seq < timers[b].seq) {
			b = i
		}
	}
	t := timers[b]
	for j := b + 1; j < nTim; j++ {
		timers[j-1] = timers[j]
	}
	nTim--
	if t.at > clock {
		clock = t.at
	}
	t.Fired = true
	if t.f != nil {
		Acquire(unsafe.Pointer(&t.tok))
		t.f()
	}
	return true
}

//go:norace
func (t *Timer) SimReady(*Task) bool { return t.Fired }

// Sleep blocks the current task for d simulated nanoseconds.
func Sleep(d int64) {
	if !isActive() {
		return
	}
	Park(AddTimer(d, nil), "sleep")
}
