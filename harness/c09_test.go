package harness

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C09"] = scenario{run: c09} }

// deadChecks verifies what must hold for a channel that has ended: one notice to
// each reader, no data afterwards, refused writes, not listed.
func deadChecks(t *Trial, name string, e *EP, ch *tru.Channel, hasReader bool) (at time.Duration) {
	at = -1
	for _, where := range []string{"ch", "ep"} {
		if where == "ch" && !hasReader {
			continue
		}
		evs := e.Evs(func(v *Ev) bool { return v.Err != nil && v.Ch == ch && v.Where == where })
		if len(evs) != 1 || evs[0].Err != tru.ErrChannelDestroyed {
			t.Violate("%s: the %s reader was told %d times that the channel was destroyed (%v)", name, where, len(evs), evs)
			continue
		}
		if at < 0 || evs[0].T < at {
			at = evs[0].T
		}
	}
	if at >= 0 {
		for _, v := range e.Evs(func(v *Ev) bool { return v.Err == nil && v.Ch == ch && v.T > at }) {
			t.Violate("%s: a message was handed over %v after the channel ended: %s", name, v.T-at, short(v.Data))
			break
		}
	}
	if !ch.Destroyed() {
		t.Violate("%s: the channel ended but does not report itself destroyed", name)
	}
	for _, b := range [][]byte{nil, []byte("x"), make([]byte, 70000)} {
		if _, err := ch.WriteTo(b); err != tru.ErrChannelDestroyed {
			t.Violate("%s: a write of %d bytes to the ended channel answered %v", name, len(b), err)
			break
		}
	}
	for _, c := range e.Channels() {
		if c == ch {
			t.Violate("%s: the ended channel is still listed", name)
		}
	}
	return
}

// c09Limit: packets are never acknowledged while keep-alives pass, until the
// limit of repeats ends the channel; the application goes on using the endpoint.
func c09Limit(t *Trial) {
	r := t.R
	s, c := t.NewEP(0), t.NewEP(0)
	cch, sch := t.Pair(s, c)
	if cch == nil {
		return
	}
	x := t.NewEP(0) // a second peer, to be left alone
	xch, _ := t.Pair(s, x)
	y := t.NewEP(0)
	ych, _ := t.Pair(c, y)
	if xch == nil || ych == nil {
		return
	}
	wire := t.Net.Record()
	from, to, ch, och := c, s, cch, sch
	if r.Bool(0.5) {
		from, to, ch, och = s, c, sch, cch
	}
	lat := r.Lat(40 * time.Millisecond)
	acks := r.Bool(0.4) // the acknowledgements are lost, not the data
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		if d.From == from.Addr && d.To == to.Addr && isData(d.Status) && !acks || d.From == to.Addr && d.To == from.Addr && d.Status == stAck && acks {
			return nil
		}
		return []Fate{{Delay: lat}}
	})
	n := r.Range(1, 5)
	t.Desc("retransmission limit lat=%v packets=%d acks lost=%v by server=%v", lat, n, acks, from == s)
	for i := 0; i < n; i++ {
		if _, err := ch.WriteTo(Msg(1, 0, uint32(i), 30+r.Intn(100))); err != nil {
			t.Violate("write failed: %v", err)
			return
		}
		time.Sleep(r.Dur(0, time.Second))
	}
	// other things the application does meanwhile
	stop := make(chan bool)
	var wg sync.WaitGroup
	if r.Bool(0.6) {
		rr := NewRand(r.U64())
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(rr.Dur(20*time.Millisecond, 3*time.Second)):
				}
				switch rr.Intn(3) {
				case 0:
					from.T.Statistic()
				case 1:
					from.T.ForEachChannel(func(ch *tru.Channel) { ch.Triptime() })
				case 2:
					ch.Triptime()
				}
			}
		}()
	}
	end := t.WaitFor(330*time.Second, ch.Destroyed)
	at := t.Net.Now()
	close(stop)
	wg.Wait()
	if !end {
		t.Violate("packets were not acknowledged for %v, but the channel is still open", at)
		return
	}
	time.Sleep(10 * time.Second)
	for _, z := range []struct {
		name string
		e, o *EP
		ch   *tru.Channel
	}{{"sender", from, to, ch}, {"receiver", to, from, och}} {
		at := deadChecks(t, z.name, z.e, z.ch, false)
		sent, _ := t.Net.Snapshot(wire)
		for _, d := range sent {
			if at >= 0 && d.From == z.e.Addr && d.To == z.o.Addr && d.T > at+time.Millisecond {
				t.Violate("%s: the channel ended at %v but the endpoint sent %v", z.name, at, d)
				break
			}
		}
		if st := z.e.T.Statistic(); len(st) != 1 {
			t.Violate("%s: %d rows of statistics, one channel is open", z.name, len(st))
		}
	}
	// the endpoints serve their other channels and a new connection
	t.Net.SetPolicy(func(d *Dgram) []Fate { return []Fate{{Delay: lat}} })
	for _, z := range []struct {
		e, o *EP
		ch   *tru.Channel
	}{{x, s, xch}, {y, c, ych}} {
		n := z.o.NMsgs(nil, "ep")
		if _, err := z.ch.WriteTo([]byte("other")); err != nil || !t.WaitFor(2*time.Second, func() bool { return z.o.NMsgs(nil, "ep") == n+1 }) {
			t.Violate("another channel of the endpoint no longer works (%v)", err)
		}
	}
	if !t.Violated() {
		t.Pair(s, c)
	}
	t.Count("ended_channels", 2)
	t.Count("causes", 1)
	t.Count("retransmission_limits", 1)
	t.Sig("limit", lat, n, acks)
}

// c09: several causes end a channel at once or one after another, with traffic
// under way.
func c09(t *Trial) {
	if t.Index%20 == 3 {
		c09Limit(t)
		return
	}
	r := t.R
	s := t.NewEP(0)
	c := t.NewEP(0)
	s.T.SetMaxDataLen(200)
	c.T.SetMaxDataLen(200)
	chr := r.Bool(0.6)
	var rd []tru.ReaderFunc
	if chr {
		rd = append(rd, c.ChReader(r.Bool(0.5)))
	}
	// some applications close the channel when they are told it was destroyed
	if r.Bool(0.3) {
		s.OnErr = func(ch *tru.Channel, err error) {
			if ch != nil {
				ch.Close()
			}
		}
		c.OnErr = s.OnErr
	}
	cch, sch := t.Pair(s, c, rd...)
	if cch == nil {
		return
	}
	wire := t.Net.Record()
	base := t.Net.Now()
	lat := r.Lat(3 * time.Millisecond)
	var cutAt atomic.Int64
	cutAt.Store(-1)
	seed := r.U64()
	discLost := r.Bool(0.25)
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		if cut := time.Duration(cutAt.Load()); cut >= 0 && d.T >= cut || discLost && d.Status == stDisconnect {
			return nil
		}
		rr := NewRand(seed, hashOf(d.From, d.Status, d.ID, d.Copy))
		if d.Status == stDisconnect && rr.Bool(0.3) { // a repeated disconnect
			return []Fate{{Delay: lat}, {Delay: lat}, {Delay: lat + rr.Dur(0, time.Second)}}
		}
		if isData(d.Status) && d.Copy < 3 && rr.Bool(0.15) {
			return nil
		}
		return []Fate{{Delay: lat}}
	})
	stop := make(chan bool)
	var tw sync.WaitGroup
	for i, ch := range []*tru.Channel{cch, sch} {
		for w := 0; w < r.Range(1, 2); w++ {
			rr := NewRand(r.U64())
			tw.Add(1)
			go func() {
				defer tw.Done()
				for k := 0; ; k++ {
					select {
					case <-stop:
						return
					default:
					}
					if _, err := ch.WriteTo(Msg(uint32(i), uint32(w), uint32(k), rr.Intn(500))); err != nil && err != tru.ErrChannelDestroyed {
						t.Violate("a write failed with %v", err)
						return
					}
					time.Sleep(rr.Dur(0, 30*time.Millisecond))
				}
			}()
		}
	}
	// causes
	kinds := []string{"close c", "close s", "inject disconnect to c", "inject disconnect to s", "silence", "close endpoint c", "close endpoint s", "close c many", "close s many"}
	ncause := r.Range(1, 4)
	when := r.Dur(0, 400*time.Millisecond)
	if r.Bool(0.2) {
		// around the instant at which silence ends the channel
		cutAt.Store(int64(base))
		when = r.Dur(5900*time.Millisecond, 6800*time.Millisecond)
	}
	spread := time.Duration(0)
	if r.Bool(0.4) {
		spread = r.Dur(0, 2*lat+time.Millisecond)
	}
	desc := ""
	var wg sync.WaitGroup
	epClosed := map[*EP]bool{}
	localClose := map[string]bool{}
	for i := 0; i < ncause; i++ {
		k := r.Intn(len(kinds))
		at := when + r.Dur(0, spread)
		desc += fmt.Sprintf(" [%s %v]", kinds[k], at)
		many := r.Range(2, 5)
		switch k {
		case 5:
			epClosed[c] = true
		case 6:
			epClosed[s] = true
		}
		localClose[kinds[k]] = true
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(at)
			switch k {
			case 0:
				cch.Close()
			case 1:
				sch.Close()
			case 2:
				t.Net.Inject(s.Addr, c.Addr, Pack(stDisconnect, 0, nil))
			case 3:
				t.Net.Inject(c.Addr, s.Addr, Pack(stDisconnect, 0, nil))
			case 4:
				cutAt.Store(int64(t.Net.Now()))
			case 5:
				c.T.Close()
			case 6:
				s.T.Close()
			case 7, 8:
				ch := cch
				if k == 8 {
					ch = sch
				}
				for j := 0; j < many; j++ {
					wg.Add(1)
					go func() { defer wg.Done(); ch.Close() }()
				}
			}
		}()
	}
	t.Desc("causes%s lat=%v disconnectsLost=%v chreader=%v", desc, lat, discLost, chr)
	wg.Wait()
	ended := t.Net.Now()
	time.Sleep(200 * time.Millisecond)
	close(stop)
	tw.Wait()
	// a local close ends the peer's channel too, at once when its notice arrives
	soon := !discLost && cutAt.Load() < 0
	for k := range localClose {
		soon = soon && k != kinds[2] && k != kinds[3] && k != kinds[4] && k != kinds[5] && k != kinds[6]
	}
	if soon && (!cch.Destroyed() || !sch.Destroyed()) {
		t.Violate("one end was closed at %v but at %v the other is still open (client %v, server %v)", ended, t.Net.Now(), cch.Destroyed(), sch.Destroyed())
	}
	time.Sleep(8 * time.Second)
	nd := 0
	for _, x := range []struct {
		name string
		e, o *EP
		ch   *tru.Channel
		rd   bool
	}{{"client", c, s, cch, chr}, {"server", s, c, sch, false}} {
		at := deadChecks(t, x.name, x.e, x.ch, x.rd)
		if at < 0 {
			continue
		}
		nd++
		sent, _ := t.Net.Snapshot(wire)
		for _, d := range sent {
			if !d.Raw && d.From == x.e.Addr && d.To == x.o.Addr && d.T > at+time.Millisecond {
				t.Violate("%s: the channel ended at %v but the endpoint sent %v", x.name, at, d)
				break
			}
		}
		if len(x.e.T.Statistic()) != 0 {
			t.Violate("%s: the ended channel is still in the statistics", x.name)
		}
	}
	if !epClosed[s] && !epClosed[c] && !t.Violated() {
		// a new connection works
		cutAt.Store(-1)
		discLost = false
		a, _ := t.Pair(s, c)
		if a != nil {
			before := s.NMsgs(nil, "ep")
			a.WriteTo([]byte("again"))
			if !t.WaitFor(3*time.Second, func() bool { return s.NMsgs(nil, "ep") == before+1 }) {
				t.Violate("after the channel ended a new connection does not work")
			}
		}
	}
	t.Count("ended_channels", nd)
	t.Count("causes", ncause)
	t.Sig(desc, t.Net.Sends())
}
