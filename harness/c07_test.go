package harness

import (
	"bytes"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C07"] = scenario{run: c07} }

// c07: one endpoint with several peers. Some of the channels are disturbed
// (loss, silence, closing, reconnecting, failed connects); the others must not
// notice, and nothing may be handed over on the wrong channel.
func c07(t *Trial) {
	r := t.R
	hub := t.NewEP(0)
	n := r.Range(3, 7)
	max := r.Range(40, 500)
	hub.T.SetMaxDataLen(max)
	type peer struct {
		ep       *EP
		pch, hch *tru.Channel // peer's and hub's end
		bad      int
		own      bool // the hub's end has a reader of its own
		out, in  Flow // hub to peer, peer to hub
	}
	var ps []*peer
	var chReader func(ch *tru.Channel, data []byte)
	for i := 0; i < n; i++ {
		p := &peer{ep: t.NewEP(0)}
		p.ep.T.SetMaxDataLen(max)
		if r.Bool(0.35) { // the hub connects
			var rd []tru.ReaderFunc
			if p.own = r.Bool(0.6); p.own {
				// a reader of the channel that leaves the message to the endpoint's reader
				rd = append(rd, func(ch *tru.Channel, pac *tru.Packet, err error) bool {
					if err == nil {
						chReader(ch, pac.Data())
					}
					return false
				})
			}
			p.hch, p.pch = t.Pair(p.ep, hub, rd...)
		} else {
			p.pch, p.hch = t.Pair(hub, p.ep)
		}
		if p.pch == nil {
			return
		}
		ps = append(ps, p)
	}
	nbad := r.Range(1, n-1)
	desc := ""
	seed := r.U64()
	badOf := map[string]int{}
	for i := 0; i < nbad; i++ {
		ps[i].bad = r.Range(1, 9)
		badOf[ps[i].ep.Addr] = ps[i].bad
		desc += fmt.Sprint(" ", ps[i].bad)
	}
	// a disturbed channel may be closed by the reader it hands a message to
	var hits atomic.Int64
	closeAt := int64(r.Range(1, 8))
	closer := func(ch *tru.Channel, _ []byte) {
		if b := badOf[ch.Addr().String()]; b == 8 && hits.Add(1)%closeAt == 0 {
			ch.Close()
		}
	}
	chReader = closer
	hub.OnMsg = func(ch *tru.Channel, b []byte) {
		for _, p := range ps {
			if p.hch == ch && p.own {
				return
			}
		}
		closer(ch, b)
	}
	for _, p := range ps {
		if p.bad == 9 {
			p.ep.OnMsg = func(ch *tru.Channel, _ []byte) {
				if hits.Add(1)%closeAt == 0 {
					ch.Close()
				}
			}
		}
	}
	base := t.Net.Now()
	lossy := r.Bool(0.3) // mild loss for everybody
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		b := badOf[d.From] + badOf[d.To]
		rr := NewRand(seed, hashOf(d.From, d.To, d.Status, d.ID, d.Copy))
		switch {
		case b == 1 && d.T > base+100*time.Millisecond: // silence
			return nil
		case b == 2 && rr.Bool(0.4): // heavy loss
			return nil
		case b == 3: // repeats and disorder
			return []Fate{{Delay: rr.Dur(0, 50*time.Millisecond)}, {Delay: rr.Dur(0, 300*time.Millisecond)}}
		case b == 0 && lossy && d.Status > stDone && rr.Bool(0.05):
			return nil
		}
		return []Fate{{Delay: 300 * time.Microsecond}}
	})
	msgs := r.Range(10, 40)
	t.Desc("peers=%d disturbed:%s lossy=%v msgs=%d max=%d", n, desc, lossy, msgs, max)
	var wg sync.WaitGroup
	for i, p := range ps {
		rr := NewRand(r.U64())
		wg.Add(2)
		go func() {
			defer wg.Done()
			for k := 0; k < msgs; k++ {
				if p.out.Write(p.hch, Msg(uint32(i), 1, uint32(k), hdrLen+rr.Intn(max*2))) != nil {
					return
				}
				time.Sleep(rr.Dur(0, 40*time.Millisecond))
			}
		}()
		r2 := NewRand(r.U64())
		go func() {
			defer wg.Done()
			for k := 0; k < msgs; k++ {
				if p.in.Write(p.pch, Msg(uint32(i), 2, uint32(k), hdrLen+r2.Intn(max*2))) != nil {
					return
				}
				time.Sleep(r2.Dur(0, 40*time.Millisecond))
			}
		}()
		if p.bad >= 4 && p.bad <= 7 {
			at := r.Dur(0, 500*time.Millisecond)
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(at)
				switch p.bad {
				case 4:
					p.pch.Close()
				case 5:
					p.hch.Close()
				case 6: // reconnect from the same address
					p.ep.T.Connect(hub.Addr)
				case 7:
					p.ep.T.Close()
				}
			}()
		}
	}
	wg.Wait()
	done := func() bool {
		for _, p := range ps {
			if p.bad == 0 && (hub.NMsgs(p.hch, "ep") < p.in.N() || p.ep.NMsgs(p.pch, "ep") < p.out.N()) {
				return false
			}
		}
		return true
	}
	t.WaitFor(8*time.Second, done)
	time.Sleep(9 * time.Second) // let silent channels be dropped
	healthy := 0
	for i, p := range ps {
		in, out := hub.Msgs(p.hch, "ep"), p.ep.Msgs(p.pch, "ep")
		if p.bad == 0 {
			healthy++
			if len(in) < p.in.N() || len(out) < p.out.N() {
				t.Violate("peer %d was not disturbed, but %d of %d and %d of %d of its messages were handed over", i, len(in), p.in.N(), len(out), p.out.N())
			}
			if p.pch.Destroyed() || p.hch.Destroyed() {
				t.Violate("the channel of peer %d, which was not disturbed, ended", i)
			}
		}
		p.in.CheckPrefix(t, fmt.Sprintf("peer %d to hub", i), in)
		p.out.CheckPrefix(t, fmt.Sprintf("hub to peer %d", i), out)
	}
	// attribution: everything the hub got came from the address that wrote it
	for _, v := range hub.Msgs(nil, "ep") {
		f, w, _, ok := ParseMsg(v.Data)
		if !ok || w != 2 || int(f) >= n {
			t.Violate("the hub was given data nobody wrote to it: %s", short(v.Data))
			break
		}
		if v.Addr != ps[f].ep.Addr || v.Ch.Addr().String() != ps[f].ep.Addr {
			t.Violate("a message of peer %d (%s) was attributed to %s", f, ps[f].ep.Addr, v.Addr)
			break
		}
	}
	for i, p := range ps {
		for _, v := range p.ep.Msgs(nil, "ep") {
			if f, w, _, ok := ParseMsg(v.Data); !ok || w != 1 || int(f) != i || v.Addr != hub.Addr {
				t.Violate("peer %d was given data that was not written to it: %s", i, short(v.Data))
				break
			}
		}
		for _, v := range p.ep.Evs(func(v *Ev) bool { return v.Err != nil && p.bad == 0 }) {
			t.Violate("peer %d, which was not disturbed, was told: %v", i, v.Err)
		}
	}
	// healthy channels still work in both directions
	for i, p := range ps {
		if p.bad == 0 && !t.Violated() {
			p.out.Write(p.hch, []byte("still there"))
			p.in.Write(p.pch, []byte("still here"))
			if !t.WaitFor(4*time.Second, func() bool {
				return hub.NMsgs(p.hch, "ep") == p.in.N() && p.ep.NMsgs(p.pch, "ep") == p.out.N()
			}) {
				t.Violate("the channel of peer %d, which was not disturbed, no longer works", i)
			} else if l := p.ep.Msgs(p.pch, "ep"); !bytes.Equal(l[len(l)-1].Data, []byte("still there")) {
				t.Violate("the channel of peer %d delivered %s", i, short(l[len(l)-1].Data))
			}
		}
	}
	t.Count("healthy_channels", healthy)
	t.Count("disturbed_channels", nbad)
	t.Count("msgs", hub.NMsgs(nil, "ep"))
	t.Sig(n, desc, lossy, t.Net.Sends())
}
