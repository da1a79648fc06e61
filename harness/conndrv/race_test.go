package conndrv

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"testing"

	"verifharness/common"
	"verifharness/wire"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

type raceScenario struct {
	ID     int   `json:"id"`
	Calls  int   `json:"calls"`
	Rounds int   `json:"rounds"`
	Close  int   `json:"close"`
	Oneway bool  `json:"oneway"`
	Frag   int   `json:"frag"`
	Size   int   `json:"size"`
	Seed   int64 `json:"seed"`
	Conns  int   `json:"conns"` // several connections at a time
	Base   int   `json:"-"`
}

type raceResult struct {
	ID    int      `json:"id"`
	Calls int      `json:"calls"`
	Wrong []string `json:"wrong"`
	Stray string   `json:"stray"`
}

// TestConnRace runs calls in parallel over loopback TCP against a peer that
// answers in random order, echoing what was asked.
func TestConnRace(t *testing.T) {
	common.Run(func(raw json.RawMessage) interface{} {
		var s raceScenario
		if err := json.Unmarshal(raw, &s); err != nil {
			t.Fatal(err)
		}
		common.Uninstall()
		kafka.DialHook = nil
		if s.Conns < 2 {
			return raceRun(s)
		}
		all := make([]raceResult, s.Conns)
		var wg sync.WaitGroup
		for i := range all {
			x := s
			x.Base, x.Seed = i*200000, s.Seed+int64(i)
			if i%2 == 1 { // only some of them are closed early
				x.Close = 0
			}
			wg.Add(1)
			go func() { defer wg.Done(); all[i] = raceRun(x) }()
		}
		wg.Wait()
		res := raceResult{ID: s.ID}
		for _, r := range all {
			res.Calls += r.Calls
			res.Wrong = append(res.Wrong, r.Wrong...)
			if r.Stray != "" {
				res.Stray = r.Stray
			}
		}
		return res
	})
}

func raceRun(s raceScenario) raceResult {
	res := raceResult{ID: s.ID}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	defer ln.Close()
	stray := make(chan string, 1)
	go peer(ln, s, stray)

	b, err := kafka.NewBroker(ln.Addr().String())
	if err != nil {
		res.Stray = "negotiation failed: " + err.Error()
		return res
	}
	var wg sync.WaitGroup
	wrong := make([][]string, s.Calls)
	for i := 0; i < s.Calls; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var kept []message.SaslAuthenticateResponse
			var tags []int
			for k := 0; k < s.Rounds; k++ {
				tag := s.Base + i*10000 + k
				if s.Oneway && k%3 == 1 {
					b.Produce(produceReq(0)(tag, s.Size).(message.ProduceRequest))
				}
				r, err := b.SaslAuthenticate(message.SaslAuthenticateRequest{AuthBytes: fill(tag, s.Size)})
				if err != nil {
					if s.Close == 0 {
						wrong[i] = append(wrong[i], fmt.Sprintf("call %d: %v", tag, err))
					}
					break
				}
				kept, tags = append(kept, r), append(tags, tag)
				if got := tagOf(r.AuthBytes); got != tag {
					wrong[i] = append(wrong[i], fmt.Sprintf("call %d got %d", tag, got))
				}
			}
			for k, r := range kept {
				if got := tagOf(r.AuthBytes); got != tags[k] {
					wrong[i] = append(wrong[i], fmt.Sprintf("response of call %d changed to %d", tags[k], got))
				}
			}
		}(i)
	}
	for i := 0; i < s.Close; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); b.Close() }()
	}
	wg.Wait()
	b.Close()
	for _, w := range wrong {
		res.Wrong = append(res.Wrong, w...)
	}
	res.Calls = s.Calls * s.Rounds
	select {
	case res.Stray = <-stray:
	default:
	}
	return res
}

func peer(ln net.Listener, s raceScenario, stray chan<- string) {
	conn, err := ln.Accept()
	if err != nil {
		return
	}
	defer conn.Close()
	rng := rand.New(rand.NewSource(s.Seed))
	frames := make(chan wire.Frame, 100)
	go func() {
		defer close(frames)
		var p wire.Parser
		buf := make([]byte, 1<<16)
		for {
			n, err := conn.Read(buf)
			for _, f := range p.Feed(buf[:n]) {
				frames <- f
			}
			if p.Bad != "" {
				select {
				case stray <- p.Bad:
				default:
				}
				conn.Close()
				return
			}
			if err != nil {
				return
			}
		}
	}()
	answer := func(f wire.Frame) error {
		var body []byte
		switch f.Key {
		case 18:
			body = wire.ApiVersions(f.Version, 0, wire.All(0, 0))
		case 36:
			n := int(binary.BigEndian.Uint32(f.Body))
			body = (&wire.Buf{}).I16(0).Str("").Bytes(f.Body[4 : 4+n]).B
		default:
			return nil
		}
		b := wire.Response(f.Corr, body)
		if s.Frag == 0 {
			_, err := conn.Write(b)
			return err
		}
		for i := 0; len(b) > 0; i++ {
			n := s.Frag
			if n > len(b) || i > 50 {
				n = len(b)
			}
			if _, err := conn.Write(b[:n]); err != nil {
				return err
			}
			b = b[n:]
		}
		return nil
	}
	var held []wire.Frame
	for {
		var f wire.Frame
		var ok bool
		if len(held) == 0 {
			f, ok = <-frames
			if !ok {
				return
			}
			held = append(held, f)
			continue
		}
		select {
		case f, ok = <-frames:
			if !ok {
				return
			}
			held = append(held, f)
			continue
		default:
		}
		i := rng.Intn(len(held))
		if answer(held[i]) != nil {
			io.Copy(io.Discard, conn)
			return
		}
		held = append(held[:i], held[i+1:]...)
	}
}
