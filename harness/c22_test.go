package harness

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C22"] = scenario{run: c22} }

// c22: endpoints connect again and again to a peer they have a channel with.
func c22(t *Trial) {
	if t.Index < 3 {
		c22stale(t, t.Index)
		return
	}
	if t.Index%12 == 5 {
		c22unheard(t)
		return
	}
	r := t.R
	lat := r.Lat(20 * time.Millisecond)
	a, b := t.NewEP(0), t.NewEP(0)
	max := []int{0, 30, 100, 400}[r.Intn(4)]
	if max > 0 {
		a.T.SetMaxDataLen(max)
		b.T.SetMaxDataLen(max)
	}
	swap := r.Bool(0.3) // either endpoint may be the one that connects again
	var lossy atomic.Int64
	seed := r.U64()
	t.Net.SetPolicy(func(d *Dgram) []Fate { // order is kept, so that nothing old arrives late
		if p := float64(lossy.Load()) / 100; d.Status >= stData && d.Status != stDisconnect && NewRand(seed, hashOf(d.From, d.Status, d.ID, d.Copy)).Bool(p) {
			return nil
		}
		return []Fate{{Delay: lat}}
	})
	wire := t.Net.Record()
	rounds := r.Range(2, 6)
	stall := r.Bool(0.5)
	if stall {
		// a disconnect datagram on its way to the socket is overtaken by the
		// next handshake, if that is possible at all
		t.Net.Before = func(from string, b []byte) {
			if len(b) < 4 || b[3] != stDisconnect {
				return
			}
			answers := func() (n int) {
				sent, _ := t.Net.Snapshot(wire)
				for _, d := range sent {
					if d.From == from && d.Status == stClientAnswer {
						n++
					}
				}
				return
			}
			for k, n := 0, answers(); k < 400 && answers() == n; k++ {
				for i := 0; i < 10; i++ {
					runtime.Gosched()
				}
			}
			for i := 0; i < 100; i++ {
				runtime.Gosched()
			}
		}
	}
	t.Desc("rounds=%d lat=%v max=%d swap=%v stall=%v", rounds, lat, max, swap, stall)
	type gen struct {
		from, to *EP
		ch, far  *tru.Channel // the connecting end, the other
		ff, fb   Flow         // from connecting end, back
		at       time.Duration
		calls    [2]atomic.Int64 // delivery callbacks and writes that asked for one
		early    int             // messages the far end wrote in its connect callback
	}
	var gens []*gen
	var wg sync.WaitGroup
	probes := map[string]int{}
	probe := []byte("0123456789abcdef01234567") // the first message of every connection
	for g := 0; g < rounds && !t.Violated(); g++ {
		x := &gen{from: a, to: b}
		if swap && r.Bool(0.5) {
			x.from, x.to = b, a
		}
		var old *gen
		if g > 0 {
			old = gens[g-1]
		}
		stop := make(chan bool)
		if old != nil && r.Bool(0.5) { // traffic on the old channel goes on during the connect
			for side, ch := range []*tru.Channel{old.ch, old.far} {
				f := []*Flow{&old.ff, &old.fb}[side]
				rr := NewRand(r.U64())
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 200; k++ {
						select {
						case <-stop:
							return
						default:
						}
						if err := f.Write(ch, Msg(uint32(g), uint32(side+10), uint32(k), DrawLen(rr, 300))); err != nil {
							if err != tru.ErrChannelDestroyed {
								t.Violate("write on a channel being replaced: %v", err)
							}
							return
						}
						time.Sleep(rr.Dur(0, 2*lat/10+100*time.Microsecond))
					}
				}()
			}
		}
		if old != nil && r.Bool(0.5) { // the application closes the old channel at about the same moment, or later
			ch := old.ch
			if r.Bool(0.5) {
				ch = old.far
			}
			d := r.Dur(0, 6*lat+time.Millisecond)
			if r.Bool(0.4) {
				d = 2 * lat // exactly when the answer arrives
			}
			wg.Add(1)
			go func() { defer wg.Done(); time.Sleep(d); ch.Close() }()
		}
		n0, m0 := len(x.to.News()), t.Net.Now()
		ch, err := x.from.T.Connect(x.to.Addr)
		if err != nil {
			t.Violate("round %d: connecting again over a network that loses no handshake failed: %v", g, err)
			return
		}
		x.at = t.Net.Now()
		_ = m0
		x.ch = ch
		if !t.WaitFor(time.Second, func() bool { return len(x.to.News()) > n0 }) {
			t.Violate("round %d: the peer was not told of the connection", g)
			return
		}
		x.far = x.to.News()[n0].Ch
		if ev := x.to.News()[n0]; ev.Err != nil || x.far == nil {
			t.Violate("round %d: the connect callback got %v, %v", g, x.far, ev.Err)
			return
		}
		gens = append(gens, x)
		close(stop)
		time.Sleep(2*lat + time.Millisecond)
		wg.Wait()
		if old != nil {
			if x.ch == old.ch || x.far == old.far || x.ch == old.far || x.far == old.ch {
				t.Violate("round %d: the old channel is used again", g)
				return
			}
			// the old channel is finished at both ends
			for _, o := range []struct {
				n  string
				e  *EP
				ch *tru.Channel
			}{{"connecting", old.from, old.ch}, {"other", old.to, old.far}} {
				if !o.ch.Destroyed() {
					t.Violate("round %d: the old channel of the %s end is not reported destroyed", g, o.n)
				}
				if k := len(o.e.Evs(func(v *Ev) bool { return v.Ch == o.ch && v.Err == tru.ErrChannelDestroyed })); k != 1 {
					t.Violate("round %d: the reader of the %s end was told %d times that the old channel was destroyed", g, o.n, k)
				}
				if _, err := o.ch.WriteTo([]byte("late")); err != tru.ErrChannelDestroyed {
					t.Violate("round %d: a write to the old channel of the %s end returned %v", g, o.n, err)
				}
				if r.Bool(0.5) {
					o.ch.Close()
				}
			}
			t.Count("replaced", 1)
		}
		// the new one is the only one, and empty
		for _, o := range []struct {
			n  string
			e  *EP
			ch *tru.Channel
		}{{"connecting", x.from, x.ch}, {"other", x.to, x.far}} {
			l := o.e.Channels()
			if len(l) != 1 || l[0] != o.ch {
				t.Violate("round %d: the %s end lists the channels %v instead of the new one (destroyed: %v)", g, o.n, l, o.ch.Destroyed())
				return
			}
			st := o.e.T.Statistic()
			if len(st) != 1 {
				t.Violate("round %d: the statistics of the %s end have %d rows", g, o.n, len(st))
				return
			}
			if s := st[0]; s.Send != 0 || s.Recv != 0 || s.Rsnd != 0 || s.Ack != 0 || s.AckD != 0 || s.Drop != 0 || s.SQ != 0 || s.RQ != 0 || s.Ssec != 0 || s.Rsec != 0 || s.TT != 0 {
				t.Violate("round %d: the new channel of the %s end starts with the statistics %+v", g, o.n, s)
			}
		}
		before, _ := t.Net.Snapshot(wire)
		// traffic, part of which may stay unacknowledged until the next round
		for side, c := range []*tru.Channel{x.ch, x.far} {
			f := []*Flow{&x.ff, &x.fb}[side]
			if err := f.Write(c, probe); err != nil {
				t.Violate("round %d: the first write failed: %v", g, err)
				return
			}
		}
		n := r.Range(0, 25)
		lossy.Store(int64([]int{0, 0, 20, 60}[r.Intn(4)]))
		if r.Bool(0.3) {
			lossy.Store(100)
		}
		for k := 0; k < n; k++ {
			for side, c := range []*tru.Channel{x.ch, x.far} {
				f := []*Flow{&x.ff, &x.fb}[side]
				var opt []any
				if r.Bool(0.4) {
					opt = append(opt, func(*tru.Packet, error) { x.calls[0].Add(1) }, r.Dur(100*time.Millisecond, 5*time.Second))
					x.calls[1].Add(1)
				}
				if err := f.Write(c, Msg(uint32(g), uint32(side), uint32(k), DrawLen(r, 600)), opt...); err != nil {
					t.Violate("round %d: a write failed: %v", g, err)
					return
				}
			}
			if r.Bool(0.2) {
				time.Sleep(r.Dur(0, 20*time.Millisecond))
			}
		}
		last := g == rounds-1
		wait := r.Dur(0, 1500*time.Millisecond)
		loss := lossy.Load()
		if last || r.Bool(0.3) {
			lossy.Store(0)
			loss = 0
			wait = 4*time.Second + 4*lat
			if last {
				wait = r.Dur(6*time.Second, 16*time.Second)
			}
		}
		time.Sleep(wait)
		if x.ch.Destroyed() || x.far.Destroyed() {
			t.Violate("round %d: the new channel ended %v after it was made", g, t.Net.Now()-x.at)
			return
		}
		if loss == 0 && wait > 4*time.Second {
			if k, j := x.to.NMsgs(x.far, "ep"), x.from.NMsgs(x.ch, "ep"); k != x.ff.N() || j != x.fb.N() {
				t.Violate("round %d: %d of %d and %d of %d messages arrived on the new channel", g, k, x.ff.N(), j, x.fb.N())
			}
		}
		lossy.Store(0)
		// the first data packets have number 0, and other keys
		sent, _ := t.Net.Snapshot(wire)
		for _, e := range []*EP{x.from, x.to} {
			var first *Dgram
			for _, d := range sent[len(before):] {
				if d.From == e.Addr && isData(d.Status) && d.T >= x.at && len(d.Data) == 4+len(probe) {
					first = d
					break
				}
			}
			if first == nil || first.ID != 0 {
				t.Violate("round %d: the first packet on the new channel is %v, it should have number 0", g, first)
				return
			}
			k := string(first.Data)
			if o, ok := probes[k]; ok && !(o == g) {
				t.Violate("round %d: the same message was encrypted as in round %d: the session key is the same", g, o)
			}
			probes[k] = g
		}
	}
	// prefix oracle per channel: nothing of another generation
	for g, x := range gens {
		x.ff.CheckPrefix(t, fmt.Sprintf("connection %d, forth", g), x.to.Msgs(x.far, "ep"))
		x.fb.CheckPrefix(t, fmt.Sprintf("connection %d, back", g), x.from.Msgs(x.ch, "ep"))
		t.Count("msgs", x.to.NMsgs(x.far, "ep")+x.from.NMsgs(x.ch, "ep"))
	}
	if got, want := len(a.Evs(func(v *Ev) bool { return v.Err == nil }))+len(b.Evs(func(v *Ev) bool { return v.Err == nil })), 0; got > 0 {
		for g, x := range gens {
			_ = g
			want += x.to.NMsgs(x.far, "ep") + x.from.NMsgs(x.ch, "ep")
		}
		if got != want {
			t.Violate("%d messages were handed over on channels nobody connected", got-want)
		}
	}
	// no copy of an old packet is sent once the channel was replaced at its sender
	sent, _ := t.Net.Snapshot(wire)
	for g := 1; g < len(gens); g++ {
		o, x := gens[g-1], gens[g]
		for _, e := range []*EP{o.from, o.to} {
			olds := map[string]bool{}
			for _, d := range sent {
				if d.From != e.Addr || !isData(d.Status) {
					continue
				}
				if d.T < x.at-4*lat-time.Millisecond {
					olds[string(d.Data)] = true
				} else if d.T > x.at+2*lat && olds[string(d.Data)] && len(d.Data) > 4+8 {
					t.Violate("packet %d of connection %d was sent again %v after connection %d was made", d.ID, g-1, d.T-x.at, g)
					return
				}
			}
		}
	}
	time.Sleep(6 * time.Second)
	for g, x := range gens {
		if x.calls[0].Load() != x.calls[1].Load() {
			t.Violate("connection %d: %d delivery callbacks for %d writes", g, x.calls[0].Load(), x.calls[1].Load())
		}
	}
	if len(gens) > 0 {
		x := gens[len(gens)-1]
		if x.ch.Destroyed() || x.far.Destroyed() {
			t.Violate("the last channel ended although the peers are reachable")
		}
	}
	t.Sig(rounds, lat, max, t.Net.Sends())
}

// c22unheard: an attempt to connect again of which the peer hears nothing fails
// and leaves the channel as it was.
func c22unheard(t *Trial) {
	r := t.R
	lat := r.Lat(20 * time.Millisecond)
	a, b := t.NewEP(0), t.NewEP(0)
	var lost atomic.Bool
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		if d.Status == stConnect && lost.Load() {
			return nil
		}
		return []Fate{{Delay: lat}}
	})
	ch, far := t.Pair(b, a)
	if ch == nil || far == nil {
		return
	}
	lost.Store(true)
	tries, back, busy := r.Range(1, 3), r.Bool(0.4), r.Bool(0.6)
	t.Desc("unheard tries=%d back=%v busy=%v lat=%v", tries, back, busy, lat)
	var ff, fb Flow
	stop := make(chan bool)
	var wg sync.WaitGroup
	write := func(c *tru.Channel, f *Flow, side uint32, rr *Rand) {
		defer wg.Done()
		for k := uint32(0); ; k++ {
			select {
			case <-stop:
				return
			default:
			}
			if err := f.Write(c, Msg(22, side, k, DrawLen(rr, 800))); err != nil {
				t.Violate("a write on the channel failed during an attempt nobody heard: %v", err)
				return
			}
			time.Sleep(rr.Dur(0, 500*time.Millisecond))
		}
	}
	if busy {
		wg.Add(2)
		go write(ch, &ff, 0, NewRand(r.U64()))
		go write(far, &fb, 1, NewRand(r.U64()))
	}
	news := len(a.News()) + len(b.News())
	for i := 0; i < tries; i++ {
		from, to := a, b
		if back {
			from, to = b, a
		}
		var atts sync.WaitGroup
		for k := r.Range(1, 2); k > 0; k-- {
			atts.Add(1)
			go func() {
				defer atts.Done()
				if c, err := from.T.Connect(to.Addr); err == nil {
					t.Violate("an attempt nobody heard gave channel %v", c)
				}
				t.Count("unheard", 1)
			}()
		}
		atts.Wait()
		time.Sleep(r.Dur(0, 3*time.Second))
	}
	close(stop)
	wg.Wait()
	rr := NewRand(r.U64())
	for k := uint32(0); k < 5; k++ {
		if ff.Write(ch, Msg(22, 2, k, DrawLen(rr, 800))) != nil || fb.Write(far, Msg(22, 3, k, DrawLen(rr, 800))) != nil {
			t.Violate("the channel cannot be written after an attempt to connect again that nobody heard")
			break
		}
	}
	time.Sleep(time.Second)
	if ch.Destroyed() || far.Destroyed() || a.Peer(b.Addr) != ch || b.Peer(a.Addr) != far {
		t.Violate("the channel did not survive an attempt to connect again that nobody heard")
	}
	for _, e := range []*EP{a, b} {
		if n := len(e.Evs(func(v *Ev) bool { return v.Err != nil })); n > 0 {
			t.Violate("a reader was told of %d ends though no channel ended", n)
		}
	}
	if n := len(a.News()) + len(b.News()); n != news {
		t.Violate("%d connections were announced for attempts nobody heard", n-news)
	}
	g1, g2 := b.Msgs(far, "ep"), a.Msgs(ch, "ep")
	if ff.CheckPrefix(t, "forth", g1) && len(g1) != ff.N() || fb.CheckPrefix(t, "back", g2) && len(g2) != fb.N() {
		t.Violate("%d of %d and %d of %d messages arrived", len(g1), ff.N(), len(g2), fb.N())
	}
	t.Count("msgs", len(g1)+len(g2))
	t.Sig(tries, back, busy, t.Net.Sends())
}

// c22stale: datagrams of the old connection that the network delivers after the
// new one was made. Recorded as a finding: nothing in the packet format tells
// the connections apart.
func c22stale(t *Trial, kind int) {
	a, b := t.NewEP(0), t.NewEP(0)
	ch, _ := t.Pair(b, a)
	if ch == nil {
		return
	}
	var held *Dgram
	var mu sync.Mutex
	want := map[int]uint8{0: stData, 1: stAck, 2: stDisconnect}[kind]
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		mu.Lock()
		defer mu.Unlock()
		if held == nil && d.Status == want {
			c := *d
			held = &c
			return nil
		}
		return []Fate{{Delay: time.Millisecond}}
	})
	ch.WriteTo([]byte("a message of the old channel"))
	time.Sleep(20 * time.Millisecond)
	if kind == 2 {
		ch.Close()
		time.Sleep(20 * time.Millisecond)
	}
	c2, far := t.Pair(b, a)
	if c2 == nil {
		return
	}
	t.Desc("a datagram of the old connection (%v) arrives after the new one was made", held)
	t.Sig("stale", kind)
	if held == nil {
		return
	}
	var first sync.Once
	if kind == 1 { // the new packet with the same number is lost once
		t.Net.SetPolicy(func(d *Dgram) (f []Fate) {
			f = []Fate{{Delay: time.Millisecond}}
			if d.Status == stData && d.From == a.Addr {
				first.Do(func() { f = nil })
			}
			return
		})
	}
	if kind == 1 {
		c2.WriteTo([]byte("a message of the new channel"))
		time.Sleep(5 * time.Millisecond)
	}
	t.Net.Inject(held.From, held.To, held.Data)
	time.Sleep(5 * time.Millisecond)
	if kind != 1 {
		c2.WriteTo([]byte("a message of the new channel"))
	}
	time.Sleep(5 * time.Second)
	m := b.Msgs(far, "ep")
	if c2.Destroyed() || far.Destroyed() || len(m) != 1 || !bytes.Equal(m[0].Data, []byte("a message of the new channel")) {
		what := map[int]string{0: "data", 1: "acknowledgement", 2: "disconnect"}[kind]
		got := "no message"
		if len(m) > 0 {
			got = short(m[0].Data)
		}
		t.Violate("stale datagram: a delayed %s datagram of the replaced connection acted on the new one (channel ended: %v, handed over: %s, %d messages)", what, c2.Destroyed() || far.Destroyed(), got, len(m))
	}
}
