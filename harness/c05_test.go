package harness

import (
	"sort"
	"sync"
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C05"] = scenario{run: c05} }

type cbCall struct {
	t   time.Duration
	err error
}
type c05msg struct {
	start, end time.Duration
	timeout    time.Duration
	id, last   int // packet numbers of the message
	calls      []cbCall
	side       int
}

// c05: delivery callbacks under losses, duplicates and channel ends; the truth is
// what the network carried: every part must have reached the peer endpoint and an
// acknowledgement of every part must have reached the sender.
func c05(t *Trial) {
	r := t.R
	s, c := t.NewEP(0), t.NewEP(0)
	max := r.Range(24, 300)
	s.T.SetMaxDataLen(max)
	c.T.SetMaxDataLen(max)
	cch, sch := t.Pair(s, c)
	if cch == nil {
		return
	}
	wire := t.Net.Record()
	base := t.Net.Now()
	seed := r.U64()
	lat := r.Lat(20 * time.Millisecond)
	kind := r.Intn(8)
	hold := r.Dur(0, 3*time.Second)
	long := r.Bool(0.25) // timeouts longer than anything else in the code
	if long && r.Bool(0.7) {
		hold = r.Dur(5*time.Second, 14*time.Second)
	}
	p := r.Float() * 0.8
	mod := uint64(r.Range(2, 5))
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		if d.Status == stPing || d.Status == stPong || d.Status == stDisconnect {
			return []Fate{{Delay: lat}}
		}
		rr := NewRand(seed, hashOf(d.From, d.Status, d.ID, d.Copy))
		pick := hashOf(seed, d.From, d.ID)%mod == 0
		switch kind {
		case 1: // acknowledgements of some packets are lost for a while
			if d.Status == stAck && hashOf(seed, d.To, d.ID)%mod == 0 && d.T < base+hold {
				return nil
			}
		case 2: // some packets are lost for a while
			if isData(d.Status) && pick && d.T < base+hold {
				return nil
			}
		case 3:
			if rr.Bool(p) {
				return nil
			}
		case 4: // late and repeated acknowledgements
			if d.Status == stAck {
				return []Fate{{Delay: lat + rr.Dur(0, hold)}, {Delay: lat + rr.Dur(0, hold)}, {Delay: lat + rr.Dur(0, 6*time.Second)}}
			}
		case 5: // some never get through
			if isData(d.Status) && pick {
				return nil
			}
		case 6: // some are never acknowledged
			if d.Status == stAck && hashOf(seed, d.To, d.ID)%mod == 0 {
				return nil
			}
		case 7:
			if rr.Bool(p / 2) {
				return nil
			}
			return []Fate{{Delay: lat + rr.Dur(0, 300*time.Millisecond)}, {Delay: lat + rr.Dur(0, 2*time.Second)}}
		}
		return []Fate{{Delay: lat}}
	})
	n := r.Range(3, 25)
	endAt := time.Duration(-1)
	endKind := r.Intn(6)
	if endKind < 4 {
		endAt = r.Dur(0, 3*time.Second)
		if long {
			endAt = r.Dur(0, 20*time.Second)
		}
	}
	conc := r.Range(1, 3)
	t.Desc("kind=%d hold=%v p=%.2f mod=%d lat=%v msgs=%d max=%d writers=%d end=%d at %v", kind, hold, p, mod, lat, n, max, conc, endKind, endAt)
	var mu sync.Mutex
	var all []*c05msg
	var plain [2][]int // ids of messages without callback
	var wg sync.WaitGroup
	for side, ch := range []*tru.Channel{cch, sch} {
		if side == 1 && r.Bool(0.3) {
			break
		}
		for w := 0; w < conc; w++ {
			rr := NewRand(r.U64())
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					m := &c05msg{side: side, start: t.Net.Now(), timeout: 5 * time.Second}
					data := Msg(uint32(side), uint32(w), uint32(i), rr.Intn(max*4))
					if rr.Bool(0.2) {
						id, err := ch.WriteTo(data)
						if err == nil {
							mu.Lock()
							plain[side] = append(plain[side], id)
							mu.Unlock()
						}
						continue
					}
					cb := func(_ *tru.Packet, err error) {
						mu.Lock()
						m.calls = append(m.calls, cbCall{t.Net.Now(), err})
						mu.Unlock()
					}
					var opt []any
					if rr.Bool(0.5) {
						opt = append(opt, cb)
					} else {
						opt = append(opt, tru.PacketDeliveryFunc(cb))
					}
					if rr.Bool(0.7) {
						m.timeout = rr.Dur(time.Millisecond, 4*time.Second)
						if rr.Bool(0.3) {
							m.timeout = rr.Dur(lat, 3*lat)
						}
						if long && rr.Bool(0.6) {
							m.timeout = rr.Dur(4*time.Second, 25*time.Second)
						}
						opt = append(opt, m.timeout)
						if rr.Bool(0.3) {
							opt[0], opt[1] = opt[1], opt[0]
						}
					}
					id, err := ch.WriteTo(data, opt...)
					m.end = t.Net.Now()
					if err != nil {
						continue
					}
					m.id = id
					mu.Lock()
					all = append(all, m)
					mu.Unlock()
					if rr.Bool(0.5) {
						time.Sleep(rr.Dur(0, 100*time.Millisecond))
					}
				}
			}()
		}
	}
	if endAt >= 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(endAt)
			switch endKind {
			case 0:
				cch.Close()
			case 1:
				sch.Close()
			case 2:
				cch.Close()
				sch.Close()
			case 3:
				c.T.Close()
			}
		}()
	}
	wg.Wait()
	time.Sleep(14 * time.Second)
	if long {
		time.Sleep(18 * time.Second)
	}
	// parts of a message are the numbers from its id to the next message's
	sent, recv := t.Net.Snapshot(wire)
	addr := [2]string{c.Addr, s.Addr}
	for side := 0; side < 2; side++ {
		starts := append([]int{}, plain[side]...)
		for _, m := range all {
			if m.side == side {
				starts = append(starts, m.id)
			}
		}
		sort.Ints(starts)
		lastOf := map[int]int{} // first number -> last number, from the split mark on the wire
		final := map[int]bool{}
		for _, d := range sent {
			if d.From == addr[side] && d.Status == stData {
				final[int(d.ID)] = true
			}
		}
		for _, st := range starts {
			e := st
			for !final[e] && e < st+50 {
				e++
			}
			lastOf[st] = e
		}
		for _, m := range all {
			if m.side == side {
				m.last = lastOf[m.id]
			}
		}
	}
	peerGot := [2]map[uint32]time.Duration{{}, {}}
	ackGot := [2]map[uint32]time.Duration{{}, {}}
	first := func(m map[uint32]time.Duration, d *Dgram) {
		if _, ok := m[d.ID]; !ok {
			m[d.ID] = d.T
		}
	}
	for _, d := range recv {
		for side := 0; side < 2; side++ {
			if isData(d.Status) && d.From == addr[side] {
				first(peerGot[side], d)
			}
			if d.Status == stAck && d.To == addr[side] {
				first(ackGot[side], d)
			}
		}
	}
	var end [2]time.Duration // when the sender's channel ended
	for side, e := range []*EP{c, s} {
		end[side] = -1
		for _, v := range e.Evs(func(v *Ev) bool { return v.Err == tru.ErrChannelDestroyed }) {
			end[side] = v.T
		}
	}
	mu.Lock()
	defer mu.Unlock()
	const tol = 2 * time.Millisecond
	okN, toN, lateAck := 0, 0, 0
	for i, m := range all {
		if len(m.calls) != 1 {
			t.Violate("message %d (numbers %d-%d, timeout %v): the delivery callback was called %d times", i, m.id, m.last, m.timeout, len(m.calls))
			break
		}
		call := m.calls[0]
		var ackAll time.Duration = -1
		complete := true
		for id := m.id; id <= m.last; id++ {
			a, ok1 := ackGot[m.side][uint32(id)]
			g, ok2 := peerGot[m.side][uint32(id)]
			if !ok1 || !ok2 {
				complete = false
				if call.err == nil {
					t.Violate("message %d (numbers %d-%d) reported delivered, but number %d was received=%v acknowledged=%v", i, m.id, m.last, id, ok2, ok1)
				}
				break
			}
			if call.err == nil && (a > call.t || g > call.t) {
				t.Violate("message %d (numbers %d-%d) reported delivered at %v, but number %d was received at %v and its acknowledgement arrived at %v", i, m.id, m.last, call.t, id, g, a)
				break
			}
			if a > ackAll {
				ackAll = a
			}
		}
		if call.err != nil {
			toN++
			if call.t < m.start+m.timeout-tol || call.t > m.end+m.timeout+100*time.Millisecond {
				t.Violate("message %d written at %v..%v with timeout %v: the timeout was reported at %v", i, m.start, m.end, m.timeout, call.t)
			}
			if complete && ackAll < m.start+m.timeout-tol && (end[m.side] < 0 || ackAll < end[m.side]-tol) {
				t.Violate("message %d (numbers %d-%d) was acknowledged at %v, but a timeout was reported at %v", i, m.id, m.last, ackAll, call.t)
			}
			if complete {
				lateAck++
			}
		} else {
			okN++
			if call.t > m.end+m.timeout+tol {
				t.Violate("message %d written at %v with timeout %v: success was reported at %v", i, m.start, m.timeout, call.t)
			}
		}
	}
	t.Count("callbacks", len(all))
	t.Count("delivered", okN)
	t.Count("timeouts", toN)
	t.Count("acked_after_timeout", lateAck)
	t.Sig(kind, okN, toN, lateAck, endKind)
}
