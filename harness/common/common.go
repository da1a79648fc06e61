// Package common holds the parts shared by all drivers: scenario input, trace
// output and the choice of preemption points.
package common

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/savaki/kafka/verifsched"
)

// Run reads scenarios (one JSON object per line) from $VERIF_IN, skipping the
// first $VERIF_START, calls fn for each and appends what it returns to
// $VERIF_OUT, one line per scenario.
func Run(fn func(raw json.RawMessage) interface{}) {
	in, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR", err)
		os.Exit(4)
	}
	start, _ := strconv.Atoi(os.Getenv("VERIF_START"))
	r := bufio.NewReaderSize(in, 1<<20)
	for i := 0; ; i++ {
		line, err := r.ReadBytes('\n')
		if len(line) == 0 || err != nil {
			break
		}
		if i < start {
			continue
		}
		v := fn(json.RawMessage(line))
		Emit(v)
	}
}

var (
	outOnce sync.Once
	outFile *os.File
)

// Emit writes one line to $VERIF_OUT.
func Emit(v interface{}) {
	outOnce.Do(func() {
		f, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS-ERROR", err)
			os.Exit(4)
		}
		outFile = f
	})
	b, err := json.Marshal(v)
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR", err)
		os.Exit(4)
	}
	if _, err := outFile.Write(append(b, '\n')); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR", err)
		os.Exit(4)
	}
}

// Stop ends the process after Emit: goroutines of the library are stuck and the
// next scenario needs a fresh process.
func Stop() {
	os.Exit(3)
}

// Sched says where goroutines are preempted.
type Sched struct {
	Seed int64   `json:"seed"`
	P    float64 `json:"p"`    // probability of a yield at each point
	Long int     `json:"long"` // a yield lasts 1..Long rounds
	At   []int   `json:"at"`   // or: yield (Long rounds) at exactly these points
	At2  [][2]int
}

// Install activates s and returns a function giving the number of points passed.
func Install(s Sched) func() int {
	n := 0
	if s.Long < 1 {
		s.Long = 1
	}
	if len(s.At) > 0 {
		at := map[int]bool{}
		for _, i := range s.At {
			at[i] = true
		}
		verifsched.Hook = func() {
			n++
			if at[n] {
				for i := 0; i < s.Long; i++ {
					runtime.Gosched()
				}
			}
		}
	} else if s.P > 0 {
		rng := rand.New(rand.NewSource(s.Seed))
		th := uint32(s.P * float64(1<<32-1))
		verifsched.Hook = func() {
			n++
			if rng.Uint32() <= th {
				k := 1 + rng.Intn(s.Long)
				for i := 0; i < k; i++ {
					runtime.Gosched()
				}
			}
		}
	} else {
		verifsched.Hook = func() { n++ }
	}
	return func() int { return n }
}

// Yield lets other goroutines go first.
func Yield() { runtime.Gosched() }

// Uninstall removes the hook.
func Uninstall() { verifsched.Hook = nil }

func dump() []string {
	buf := make([]byte, 1<<18)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return strings.Split(string(buf[:n]), "\n\n")
		}
		buf = make([]byte, 2*len(buf))
	}
}

// Quiesce returns when no goroutine but the caller can move: all are blocked on
// channels, locks or conditions.  It must be called on one P in a synctest bubble;
// timers are given two (virtual) hours to fire.
func Quiesce() {
	if verifsched.Durable {
		synctest.Wait()
		time.Sleep(2 * time.Hour)
		synctest.Wait()
		return
	}
	if locked := settle(); !locked {
		time.Sleep(2 * time.Hour)
		settle()
	}
}

func settle() (locked bool) {
	for n := 0; ; n++ {
		for i := 0; i < 10; i++ {
			runtime.Gosched()
		}
		busy := false
		locked = false
		for i, g := range dump() {
			if i == 0 {
				continue // the caller
			}
			a, b := strings.IndexByte(g, '['), strings.IndexByte(g, ']')
			if a < 0 || b < a {
				continue
			}
			st := g[a+1 : b]
			switch {
			case strings.HasPrefix(st, "runnable"), strings.HasPrefix(st, "running"), strings.HasPrefix(st, "syscall"),
				strings.HasPrefix(st, "preempted"), strings.HasPrefix(st, "copystack"):
				busy = true
			case strings.Contains(st, "Mutex"), strings.HasPrefix(st, "semacquire"):
				locked = true
			}
		}
		if !busy {
			return locked
		}
	}
}

// LibGoroutines counts live goroutines that were started by library code (or run it
// without having been started by a driver), and returns their stacks.
func LibGoroutines() (int, string) {
	var out []string
	for _, g := range dump() {
		i := strings.Index(g, "created by ")
		if i < 0 {
			continue
		}
		by := g[i+11:]
		if strings.HasPrefix(by, "github.com/savaki/kafka") || (strings.Contains(g[:i], "\ngithub.com/savaki/kafka") && !strings.HasPrefix(by, "verifharness/") && !strings.HasPrefix(by, "testing")) {
			out = append(out, g)
		}
	}
	return len(out), strings.Join(out, "\n\n")
}

// Ints turns bytes into JSON numbers.
func Ints(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}
