// Package zsched holds the run-time half of the schedule instrumentation: every
// statement of the code under test calls P first. P counts steps, perturbs the
// schedule and detects busy-waiting. It adds no synchronisation the race detector
// could mistake for the program's own (all its state is touched in norace code).
package zsched

import (
	"runtime"
	"time"
)

// Sites describes the instrumentation points ("file:line func"); filled by a generated file.
var Sites []string

const maxSites = 1 << 14

type Mode int

const (
	Off    Mode = iota // count only
	Yield              // random Gosched
	Jitter             // random short virtual sleeps + Gosched
	Stall              // a few sites stall for long, everything else runs
)

type config struct {
	on     bool
	mode   Mode
	seed   uint64
	budget int64 // ns of injected delay left
	long   int64 // ns, longest single delay
	stallN uint64
}

var (
	cfg      config
	cnt      uint64
	injected int64
	delays   uint64
	yields   uint64
	hits     [maxSites]uint32

	spinLast   int64
	spinMark   uint64
	spinLimit  uint64 = 400_000
	spinSleeps uint64
	spinSite   uint32
)

// Configure sets the perturbation of the following case.
//
//go:norace
func Configure(mode Mode, seed uint64, budget, long time.Duration) {
	// goroutines of the case before may still be running
	cfg = config{on: true, mode: mode, seed: seed, budget: int64(budget), long: int64(long), stallN: 20 + seed%200}
	cnt = 0
	injected = 0
	spinLast, spinMark, spinLimit, spinSleeps = 0, 0, 400_000, 0
}

//go:norace
func Disable() { cfg.on = false }

// Injected is the total virtual delay injected since Configure.
//
//go:norace
func Injected() time.Duration { return time.Duration(injected) }

//go:norace
func Steps() uint64 { return cnt }

//go:norace
func Spins() (uint64, string) {
	s := ""
	if int(spinSite) < len(Sites) {
		s = Sites[spinSite]
	}
	return spinSleeps, s
}

// Stats reports sites hit so far, delays and yields injected over the process.
//
//go:norace
func Stats() (sitesHit, sites int, delays_, yields_ uint64) {
	for i := range Sites {
		if i < maxSites && hits[i] != 0 {
			sitesHit++
		}
	}
	return sitesHit, len(Sites), delays, yields
}

// HitSites lists the sites executed at least once.
//
//go:norace
func HitSites() []string {
	var out []string
	for i, s := range Sites {
		if i < maxSites && hits[i] != 0 {
			out = append(out, s)
		}
	}
	return out
}

//go:norace
func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

//go:norace
func sleep(d int64) {
	if d > cfg.budget {
		d = cfg.budget
	}
	if d <= 0 {
		runtime.Gosched()
		return
	}
	cfg.budget -= d
	injected += d
	delays++
	time.Sleep(time.Duration(d))
}

//go:norace
func P(site uint32) {
	if !cfg.on {
		return
	}
	if site < maxSites {
		hits[site]++
	}
	cnt++
	if cnt&0x3ff == 0 {
		spin(site)
	}
	x := mix(cfg.seed + cnt*0x9e3779b97f4a7c15 + uint64(site)<<40)
	switch cfg.mode {
	case Yield:
		if x&7 == 0 {
			yields++
			runtime.Gosched()
		}
	case Jitter:
		switch {
		case x&15 == 0:
			// 1us .. 512us, log distributed
			sleep(int64(1000) << ((x >> 8) % 10))
		case x&15 < 4:
			yields++
			runtime.Gosched()
		}
	case Stall:
		if n, long := cfg.stallN, cfg.long; n > 0 && long > 0 && x%n == 0 {
			sleep(long/8 + int64((x>>8)%uint64(long)))
		} else if x&7 == 0 {
			yields++
			runtime.Gosched()
		}
	}
}

// spin detects a component executing statements without bound at one instant of
// virtual time (busy waiting), and lets time pass so that the run can go on.
//
//go:norace
func spin(site uint32) {
	now := time.Now().UnixNano()
	if now != spinLast {
		spinLast, spinMark = now, cnt
		return
	}
	if cnt-spinMark > spinLimit {
		spinSleeps++
		spinSite = site
		spinLimit = 20_000
		time.Sleep(5 * time.Millisecond)
	}
}
