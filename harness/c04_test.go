package harness

import (
	"sync"
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C04"] = scenario{run: c04} }

// c04: several goroutines write to the same channel at once, from one or both
// ends; messages identify their writer and number.
func c04(t *Trial) {
	r := t.R
	s, c := t.NewEP(0), t.NewEP(0)
	max := r.Range(24, 400)
	if r.Bool(0.15) {
		max = 0
	} else {
		s.T.SetMaxDataLen(max)
		c.T.SetMaxDataLen(max)
	}
	cch, sch := t.Pair(s, c)
	if cch == nil {
		return
	}
	plan := &FaultPlan{Name: "clean", Lat: r.Lat(time.Millisecond)}
	if r.Bool(0.6) {
		plan = DrawFaults(r, t.Net.Now()+2*time.Second)
		plan.Black = nil
	}
	t.Net.SetPolicy(plan.Fates)
	writers, msgs := r.Range(2, 8), r.Range(3, 25)
	step := max
	if step == 0 {
		step = 500
	}
	t.Desc("max=%d writers=%d msgs=%d %v", max, writers, msgs, plan)
	type key struct{ fl, w, s uint32 }
	var mu sync.Mutex
	ids := map[key]int{}
	var wg sync.WaitGroup
	for fl, ch := range []*tru.Channel{cch, sch} {
		if fl == 1 && r.Bool(0.4) {
			break
		}
		for w := 0; w < writers; w++ {
			rr := NewRand(r.U64())
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < msgs; i++ {
					n := hdrLen + rr.Intn(step*4)
					if rr.Bool(0.3) {
						n = step*rr.Range(1, 4) + rr.Range(-1, 1)
					}
					if n < hdrLen {
						n = hdrLen
					}
					var opt []any
					if rr.Bool(0.2) {
						opt = []any{func(*tru.Packet, error) {}, time.Second}
					}
					id, err := ch.WriteTo(Msg(uint32(fl), uint32(w), uint32(i), n), opt...)
					if err != nil {
						t.Violate("write failed: %v", err)
						return
					}
					mu.Lock()
					ids[key{uint32(fl), uint32(w), uint32(i)}] = id
					mu.Unlock()
					if rr.Bool(0.2) {
						time.Sleep(rr.Dur(0, 5*time.Millisecond))
					}
				}
			}()
		}
	}
	wg.Wait()
	want := len(ids)
	t.WaitFor(20*time.Second, func() bool { return s.NMsgs(sch, "ep")+c.NMsgs(cch, "ep") >= want })
	time.Sleep(100 * time.Millisecond)
	seen := map[key]bool{}
	mixed := 0
	for fl, got := range [][]Ev{s.Msgs(nil, "ep"), c.Msgs(nil, "ep")} {
		next := map[uint32]uint32{}
		var last uint32 = 1 << 31
		for i, g := range got {
			f, w, q, ok := ParseMsg(g.Data)
			if !ok || int(f) != fl {
				t.Violate("message %d handed over is torn or mixed: %s", i, short(g.Data))
				break
			}
			k := key{f, w, q}
			if seen[k] {
				t.Violate("message %d of writer %d handed over twice", q, w)
				break
			}
			seen[k] = true
			if q != next[w] {
				t.Violate("messages of writer %d out of order: got %d, expected %d", w, q, next[w])
				break
			}
			next[w]++
			if w != last {
				mixed++
			}
			last = w
			if ids[k] != g.ID {
				t.Violate("message %d of writer %d: write returned id %d, packet has id %d", q, w, ids[k], g.ID)
				break
			}
		}
	}
	if len(seen) != want && !t.Violated() {
		t.Violate("%d messages written, %d handed over", want, len(seen))
	}
	t.Count("msgs", len(seen))
	t.Count("writer_switches", mixed)
	t.Sig(writers, msgs, mixed, want, t.Net.Sends())
}
