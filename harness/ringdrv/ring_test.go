// Package ringdrv executes ring buffer scenarios and records them as the events
// of spec/Ring.tla.
package ringdrv

import (
	"encoding/json"
	"math/rand"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"

	"verifharness/common"

	"github.com/savaki/kafka/ring"
)

type op struct {
	K string `json:"k"`
	N int    `json:"n"`
}

type scenario struct {
	ID    int    `json:"id"`
	Size  int    `json:"size"`
	Ops   []op   `json:"ops"` // macro mode: each run to quiescence
	W     []int  `json:"w"`   // free mode: write sizes
	R     []int  `json:"r"`   // free mode: read sizes
	Close bool   `json:"close"`
	Sched string `json:"sched"` // none, rand, sweep
	N     int    `json:"n"`     // number of schedules
	Seed  int64  `json:"seed"`
}

type event map[string]interface{}

type result struct {
	ID     int       `json:"id"`
	Size   int       `json:"size"`
	Runs   int       `json:"runs"`
	Traces [][]event `json:"traces"`
}

type recorder struct {
	mu         sync.Mutex
	ev         []event
	ract, wact bool
	closed     bool
	late       bool // a write was in progress at, or made after, the close
}

func (r *recorder) locked(fn func()) {
	r.mu.Lock()
	fn()
	r.mu.Unlock()
}

func TestRing(t *testing.T) {
	common.Run(func(raw json.RawMessage) interface{} {
		var s scenario
		if err := json.Unmarshal(raw, &s); err != nil {
			t.Fatal(err)
		}
		var (
			res  = result{ID: s.ID, Size: s.Size}
			seen = map[string]bool{}
			rng  = rand.New(rand.NewSource(s.Seed))
			do   = func(sc common.Sched, closeAt int) int {
				var ev []event
				var steps int
				synctest.Test(t, func(t *testing.T) {
					ev, steps = run(s, sc, closeAt, func(ev []event) {
						res.Traces = append(res.Traces, ev)
						res.Runs++
						common.Emit(res)
						common.Stop()
					})
				})
				res.Runs++
				key, _ := json.Marshal(ev)
				if !seen[string(key)] {
					seen[string(key)] = true
					res.Traces = append(res.Traces, ev)
				}
				return steps
			}
			closeAt = func(max int) int {
				if !s.Close {
					return -1
				}
				return rng.Intn(max)
			}
		)
		total := do(common.Sched{}, -1)
		switch s.Sched {
		case "rand":
			for i := 1; i < s.N; i++ {
				p := []float64{0.01, 0.05, 0.2, 0.5, 0.9}[rng.Intn(5)]
				long := []int{1, 3, 20, 100}[rng.Intn(4)]
				do(common.Sched{Seed: rng.Int63(), P: p, Long: long}, closeAt(int(float64(total)*p*float64(long))+3))
			}
		case "sweep": // all placements of one, then of two preemptions (up to N)
			for i := 1; i <= total+4; i++ {
				do(common.Sched{At: []int{i}, Long: 300}, closeAt(900))
			}
			pairs := [][2]int{}
			for i := 1; i <= total+4; i++ {
				for j := i + 1; j <= total+8; j++ {
					pairs = append(pairs, [2]int{i, j})
				}
			}
			rng.Shuffle(len(pairs), func(a, b int) { pairs[a], pairs[b] = pairs[b], pairs[a] })
			if len(pairs) > s.N {
				pairs = pairs[:s.N]
			}
			for _, p := range pairs {
				do(common.Sched{At: p[:], Long: 300}, closeAt(900))
			}
		}
		return res
	})
}

// TestRingFree runs reader and writer truly in parallel, without a bubble; meant for
// the race detector.
func TestRingFree(t *testing.T) {
	common.Run(func(raw json.RawMessage) interface{} {
		var s scenario
		if err := json.Unmarshal(raw, &s); err != nil {
			t.Fatal(err)
		}
		common.Uninstall()
		res := result{ID: s.ID, Size: s.Size}
		for i := 0; i < s.N; i++ {
			res.Traces = append(res.Traces, free(s, i))
			res.Runs++
		}
		return res
	})
}

func free(s scenario, i int) []event {
	var (
		rb     = ring.New(s.Size)
		mu     sync.Mutex
		ev     []event
		closed bool
		wg     sync.WaitGroup
		pos    int
		add    = func(e event) {
			mu.Lock()
			ev = append(ev, e)
			mu.Unlock()
		}
	)
	wg.Add(2)
	go func() {
		defer wg.Done()
		for _, n := range s.W {
			data := make([]byte, n)
			for i := range data {
				data[i] = byte((pos + i) % 251)
			}
			pos += n
			mu.Lock()
			stop := closed
			if !stop {
				ev = append(ev, event{"k": "cw", "n": n})
			}
			mu.Unlock()
			if stop {
				return
			}
			rb.WriteN(data, n)
			add(event{"k": "rw"})
		}
	}()
	go func() {
		defer wg.Done()
		for _, n := range s.R {
			data := make([]byte, n)
			add(event{"k": "cr", "n": n})
			ok := rb.ReadN(data, n)
			add(event{"k": "rr", "ok": ok, "data": common.Ints(data)})
			if !ok {
				return
			}
		}
	}()
	if s.Close {
		for j := 0; j < i*7; j++ {
			runtime.Gosched()
		}
		mu.Lock()
		closed = true
		ev = append(ev, event{"k": "cl"})
		mu.Unlock()
		rb.Close()
	}
	wg.Wait()
	rb.Close()
	return ev
}

func run(s scenario, sc common.Sched, closeAt int, stuck func([]event)) ([]event, int) {
	var (
		rec   = &recorder{}
		rb    = ring.New(s.Size)
		pos   = 0 // stream position of the next byte to write
		steps = common.Install(sc)
		wch   = make(chan int)
		rch   = make(chan int)
		wg    sync.WaitGroup
	)
	defer common.Uninstall()

	write := func(n int) {
		data := make([]byte, n+3)
		for i := range data {
			if i < n {
				data[i] = byte((pos + i) % 251)
			} else {
				data[i] = 255 // never part of the stream
			}
		}
		ok := true
		rec.locked(func() {
			if rec.closed && rec.late {
				ok = false // what an interrupted write left behind is unspecified
				return
			}
			rec.late = rec.closed
			rec.wact = true
			rec.ev = append(rec.ev, event{"k": "cw", "n": n})
		})
		if !ok {
			return
		}
		pos += n
		rb.WriteN(data, n)
		rec.locked(func() {
			rec.wact = false
			rec.ev = append(rec.ev, event{"k": "rw"})
		})
	}
	read := func(n int) {
		data := make([]byte, n+3)
		for i := range data {
			data[i] = 253
		}
		rec.locked(func() {
			rec.ract = true
			rec.ev = append(rec.ev, event{"k": "cr", "n": n})
		})
		ok := rb.ReadN(data, n)
		got := data[:n]
		if data[n] != 253 || data[n+1] != 253 || data[n+2] != 253 {
			got = data // wrote past n
		}
		rec.locked(func() {
			rec.ract = false
			rec.ev = append(rec.ev, event{"k": "rr", "ok": ok, "data": common.Ints(got)})
		})
	}
	closeRing := func() {
		rec.locked(func() {
			rec.closed = true
			rec.late = rec.late || rec.wact
			rec.ev = append(rec.ev, event{"k": "cl"})
		})
		rb.Close()
	}
	quiet := func() {
		common.Quiesce()
		rec.locked(func() {
			rec.ev = append(rec.ev, event{"k": "q", "r": rec.ract, "w": rec.wact})
		})
	}
	wg.Add(2)
	go func() {
		defer wg.Done()
		for _, n := range s.W {
			write(n)
		}
		for n := range wch {
			write(n)
		}
	}()
	go func() {
		defer wg.Done()
		for _, n := range s.R {
			read(n)
		}
		for n := range rch {
			read(n)
		}
	}()

	for _, o := range s.Ops {
		switch {
		case o.K == "w" && !rec.wact: // otherwise still blocked: skip rather than hang
			wch <- o.N
		case o.K == "r" && !rec.ract:
			rch <- o.N
		case o.K == "c":
			closeRing()
		default:
			continue
		}
		quiet()
	}
	for i := 0; i < closeAt; i++ {
		runtime.Gosched()
	}
	if closeAt >= 0 {
		closeRing()
	}
	quiet()
	if !rec.closed {
		closeRing()
		quiet()
	}
	// what was written before the close can still be read; calls made after it return
	for i := 1; i <= 3 && !rec.ract; i++ {
		rch <- i
		quiet()
	}
	if !rec.wact && !rec.late {
		wch <- s.Size + 1
		quiet()
	}
	closeRing() // closing twice is harmless
	quiet()
	if rec.ract || rec.wact {
		stuck(rec.ev) // the bubble cannot end with goroutines stuck in the library
	}
	close(wch)
	close(rch)
	wg.Wait()
	return rec.ev, steps()
}
