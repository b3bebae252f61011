package sim

import (
	"syscall"
	"time"

	"verif/h"
)

func cpu() time.Duration {
	var u syscall.Rusage
	h.Must(syscall.Getrusage(syscall.RUSAGE_SELF, &u))
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// BusyAtTheEnd runs a ceremony and tells whether its nodes were still computing, not waiting, shortly before it
// ended: then the time they were given was too short for this machine, now.
func BusyAtTheEnd(run func()) bool {
	const step, back, window = 250 * time.Millisecond, 6, 10 // the 2.5 s that ended 1.5 s before the end
	done, out := make(chan struct{}), make(chan bool)
	go func() {
		used := []time.Duration{cpu()}
		for {
			select {
			case <-done:
				k := len(used) - 1 - back
				if k < 1 {
					out <- false
					return
				}
				from := k - window
				if from < 0 {
					from = 0
				}
				// a waiting ceremony takes about 1% of a processor
				out <- float64(used[k]-used[from])/float64(time.Duration(k-from)*step) > 0.25
				return
			case <-time.After(step):
				used = append(used, cpu())
			}
		}
	}()
	run()
	close(done)
	return <-out
}
