package harness

import (
	"sync"
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C01"] = scenario{run: c01} }

// c01: both directions of one or more channels under a drawn fault plan; the
// handed-over sequence must be a prefix of the written one at all times.
func c01(t *Trial) {
	r := t.R
	if t.Index%40 == 11 {
		if f, _, to, _ := burst(t, t.Index%120 == 11); f != nil {
			f.CheckPrefix(t, "burst", to.Msgs(nil, "ep"))
			t.Count("msgs", to.NMsgs(nil, "ep"))
			t.Count("datagrams", t.Net.Sends())
		}
		return
	}
	maxPac := 0
	if r.Bool(0.6) {
		maxPac = r.Range(30, 1400)
	}
	s, c := t.NewEP(0), t.NewEP(0)
	if maxPac > 0 {
		s.T.SetMaxDataLen(maxPac)
		c.T.SetMaxDataLen(maxPac)
	}
	cch, sch := t.Pair(s, c)
	if cch == nil {
		return
	}
	base := t.Net.Now()
	plan := DrawFaults(r, base+3*time.Second)
	for i := range plan.Black {
		plan.Black[i][0] += base
		plan.Black[i][1] += base
	}
	n := r.Range(5, 120)
	maxLen := 3000
	if maxPac > 0 {
		maxLen = maxPac * 6
	}
	t.Desc("maxpac=%d msgs=%d %v", maxPac, n, plan)
	t.Net.SetPolicy(plan.Fates)
	var fc, fs Flow
	write := func(f *Flow, ch *tru.Channel, rr *Rand, fl uint32) func() {
		return func() {
			for i := 0; i < n; i++ {
				if err := f.Write(ch, Msg(fl, 0, uint32(i), DrawLen(rr, maxLen))); err != nil {
					return
				}
				if rr.Bool(0.1) {
					time.Sleep(rr.Dur(0, 50*time.Millisecond))
				}
			}
		}
	}
	slow := time.Duration(0)
	if r.Bool(0.15) {
		// now and then the application takes seconds over a message; others pile up
		slow = r.Dur(2*time.Second, 9*time.Second)
		for _, e := range []*EP{s, c} {
			left, pos := r.Range(1, 3), r.Intn(n)
			var mu sync.Mutex
			e.OnMsg = func(ch *tru.Channel, data []byte) {
				mu.Lock()
				pos--
				hold := pos < 0 && left > 0
				if hold {
					left--
				}
				mu.Unlock()
				if hold {
					t.Count("slow_readers", 1)
					time.Sleep(slow)
				}
			}
		}
	}
	done := make(chan bool, 2)
	r1, r2 := NewRand(r.U64()), NewRand(r.U64())
	go func() { write(&fc, cch, r1, 1)(); done <- true }()
	go func() { write(&fs, sch, r2, 2)(); done <- true }()
	<-done
	<-done
	t.WaitFor(20*time.Second, func() bool { return s.NMsgs(sch, "ep") >= fc.N() && c.NMsgs(cch, "ep") >= fs.N() })
	time.Sleep(time.Second)
	fc.CheckPrefix(t, "client to server", s.Msgs(nil, "ep"))
	fs.CheckPrefix(t, "server to client", c.Msgs(nil, "ep"))
	if s.NMsgs(sch, "ep") < fc.N() || c.NMsgs(cch, "ep") < fs.N() {
		t.Count("incomplete", 1)
	}
	if slow > 0 {
		t.CloseAll()
		time.Sleep(slow)
	}
	t.Count("msgs", s.NMsgs(nil, "ep")+c.NMsgs(nil, "ep"))
	t.Count("datagrams", t.Net.Sends())
	t.Sig(t.Net.Sends(), n, plan.Name)
}
