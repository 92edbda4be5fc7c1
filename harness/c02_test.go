package harness

import (
	"fmt"
	"time"
)

func init() { scenarios["C02"] = scenario{run: c02} }

// c02: losses of every kind that end at a known instant, then a clean network;
// within one longest retransmission interval everything accepted must have been
// handed over, nothing may stay unacknowledged and both channels must be open.
func c02(t *Trial) {
	r := t.R
	if t.Index%40 == 11 {
		if f, from, to, rch := burst(t, t.Index%120 == 11); f != nil {
			if got := to.NMsgs(rch, "ep"); got < f.N() {
				t.Violate("10s after the network recovered %d of %d messages have been handed over", got, f.N())
			}
			f.CheckPrefix(t, "burst", to.Msgs(nil, "ep"))
			time.Sleep(4 * time.Second)
			for _, e := range []*EP{from, to} {
				if st := e.T.Statistic(); len(st) != 1 || st[0].SQ != 0 || st[0].RQ != 0 {
					t.Violate("the statistics after the recovery are %+v", st)
				}
			}
			t.Count("msgs", f.N())
		}
		return
	}
	maxPac := 0
	if r.Bool(0.5) {
		maxPac = r.Range(20, 1400)
	}
	s, c := t.NewEP(0), t.NewEP(0)
	if maxPac > 0 {
		s.T.SetMaxDataLen(maxPac)
		c.T.SetMaxDataLen(maxPac)
	}
	cch, sch := t.Pair(s, c)
	if cch == nil {
		return
	}
	lat := r.Lat(30 * time.Millisecond)
	base := t.Net.Now()
	seed := r.U64()
	// at most 4.2 s of trouble, so that an outage plus the retransmission gap it
	// caused stays below the inactivity limit
	trouble := r.Dur(300*time.Millisecond, 4200*time.Millisecond)
	kind := r.Intn(10)
	if kind == 0 {
		trouble = r.Dur(4200*time.Millisecond, 5200*time.Millisecond) // total outage: pings bring it back
	}
	// keep-alives pass while data is lost: the channel stays (when acknowledgements
	// are lost an end that still gets data sends none, so that the other hears nothing)
	if (kind == 1 || kind == 3 || kind == 5 || kind == 7 || kind == 8) && r.Bool(0.2) {
		trouble = r.Dur(4200*time.Millisecond, 40*time.Second)
		lat = min(lat, 5*time.Millisecond)
	}
	end := base + trouble
	oneway := ""
	if kind != 0 && r.Bool(0.3) {
		oneway = []string{s.Addr, c.Addr}[r.Intn(2)]
	}
	mod := uint64(r.Range(2, 6))
	k := r.Range(1, 5)
	tail := r.Range(1, 4)
	var fc, fs Flow
	n := r.Range(1, 50)
	p := 0.1 + 0.85*r.Float()
	dupP := 0.0
	if r.Bool(0.3) {
		dupP = 0.5
	}
	lost := 0
	lossAck := 0
	var lastLost time.Duration
	drop := func(d *Dgram) bool {
		if d.T >= end || oneway != "" && d.From != oneway {
			return false
		}
		rr := NewRand(seed, hashOf(d.From, d.Status, d.ID, d.Copy))
		switch kind {
		case 0: // everything
			return true
		case 1: // every data packet
			return isData(d.Status)
		case 2: // every acknowledgement
			return d.Status == stAck
		case 3: // some numbers never get through
			return isData(d.Status) && hashOf(seed, d.ID)%mod == 0
		case 4: // acknowledgements of some numbers never get through
			return d.Status == stAck && hashOf(seed, d.ID)%mod == 0
		case 5: // first copies
			return isData(d.Status) && d.Copy < k
		case 6: // the first copy gets through, its acknowledgement and the repeats do not
			return d.Status == stAck || isData(d.Status) && d.Copy > 0
		case 7: // the tail of the flow
			return isData(d.Status) && int(d.ID) >= n-tail
		case 8: // the head
			return isData(d.Status) && int(d.ID) < tail
		}
		return rr.Bool(p)
	}
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		if drop(d) {
			lost++
			lastLost = d.T
			if d.Status == stAck {
				lossAck++
			}
			return nil
		}
		f := []Fate{{Delay: lat}}
		if rr := NewRand(seed, 7, hashOf(d.From, d.Status, d.ID, d.Copy)); dupP > 0 && rr.Bool(dupP) {
			f = append(f, Fate{Delay: lat + rr.Dur(0, 200*time.Millisecond)})
		}
		return f
	})
	t.Desc("kind=%d trouble=%v oneway=%q mod=%d k=%d tail=%d p=%.2f lat=%v msgs=%d maxpac=%d dup=%.1f", kind, trouble, oneway, mod, k, tail, p, lat, n, maxPac, dupP)
	maxLen := 2000
	if maxPac > 0 {
		maxLen = maxPac * 4
	}
	gap := r.Dur(0, min(trouble, 4*time.Second)/time.Duration(n+1))
	both := r.Bool(0.7)
	done := make(chan bool, 2)
	write := func(f *Flow, w func(b []byte) error, rr *Rand, fl uint32) {
		for i := 0; i < n; i++ {
			if err := w(Msg(fl, 0, uint32(i), DrawLen(rr, maxLen))); err != nil {
				t.Violate("write %d failed during an outage shorter than the inactivity limit: %v", i, err)
				break
			}
			time.Sleep(rr.Dur(0, gap))
		}
		done <- true
	}
	go write(&fc, func(b []byte) error { return fc.Write(cch, b) }, NewRand(r.U64()), 1)
	if both {
		go write(&fs, func(b []byte) error { return fs.Write(sch, b) }, NewRand(r.U64()), 2)
		<-done
	}
	<-done
	if d := end - t.Net.Now(); d > 0 {
		time.Sleep(d)
	}
	// 3 s is the longest retransmission interval, 100 ms its granularity, then
	// there and back
	bound := 3*time.Second + 100*time.Millisecond + 2*lat + 250*time.Millisecond
	ok := t.WaitFor(bound, func() bool { return s.NMsgs(sch, "ep") >= fc.N() && c.NMsgs(cch, "ep") >= fs.N() })
	rec := t.Net.Now() - end
	if !ok {
		t.Violate("%v after the network recovered %d of %d and %d of %d messages have been handed over", bound, s.NMsgs(sch, "ep"), fc.N(), c.NMsgs(cch, "ep"), fs.N())
	}
	if d := end + bound - t.Net.Now(); d > 0 {
		time.Sleep(d)
	}
	fc.CheckPrefix(t, "client to server", s.Msgs(nil, "ep"))
	fs.CheckPrefix(t, "server to client", c.Msgs(nil, "ep"))
	for _, e := range []*EP{s, c} {
		st := e.T.Statistic()
		if len(st) != 1 {
			t.Violate("%s lists %d channels after a short outage", e.Addr, len(st))
			continue
		}
		if st[0].SQ != 0 {
			t.Violate("%s still holds %d unacknowledged packets %v after the network recovered", e.Addr, st[0].SQ, bound)
		}
	}
	if cch.Destroyed() || sch.Destroyed() {
		t.Violate("a channel was destroyed by an outage of %v (client %v, server %v)", trouble, cch.Destroyed(), sch.Destroyed())
	}
	// and the channel still works
	if !t.Violated() {
		fc.Write(cch, Msg(1, 0, 9999, 100))
		if !t.WaitFor(2*time.Second, func() bool { return s.NMsgs(sch, "ep") == fc.N() }) {
			t.Violate("a message written after the recovery did not arrive")
		}
	}
	_ = lastLost
	t.Count("msgs", fc.N()+fs.N())
	t.Count("lost", lost)
	t.Count("lost_acks", lossAck)
	t.Count(fmt.Sprintf("kind%d", kind), 1)
	if rec > 500*time.Millisecond {
		t.Count("slow_recoveries", 1)
	}
	t.Sig(kind, lost, n, t.Net.Sends())
}
