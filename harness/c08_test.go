package harness

import (
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C08"] = scenario{run: c08} }

// lastHeard finds when an endpoint last received a datagram from a peer.
func lastHeard(recv []*Dgram, to, from string) (at time.Duration) {
	at = -1
	for _, d := range recv {
		if d.To == to && d.From == from {
			at = d.T
		}
	}
	return
}

// c08: idle and busy channels stay open while the peer is reachable, and end 6 to
// 7 s after the last datagram from a peer that fell silent, in both roles.
func c08(t *Trial) {
	r := t.R
	lat := r.Dur(0, 100*time.Millisecond)
	base := time.Duration(0)
	switch kind := t.Index % 4; kind {
	case 0, 1: // real endpoints: long idle time, then silence
		s, c := t.NewEP(0), t.NewEP(0)
		cch, sch := t.Pair(s, c, c.ChReader(false))
		if cch == nil {
			return
		}
		wire := t.Net.Record()
		base = t.Net.Now()
		idle := r.Dur(5*time.Second, 120*time.Second)
		if r.Bool(0.2) {
			idle = r.Dur(100*time.Second, 1500*time.Second)
		}
		cut := base + idle
		dir := r.Intn(4) // 0 both, 1 nothing from the client, 2 nothing from the server, 3 never
		pinglossN, pings := r.Intn(2), 0
		// some traffic now and then
		traffic := r.Intn(3)
		step := r.Dur(500*time.Millisecond, 20*time.Second)
		// for a time, only one kind of datagram is lost while others go on
		rl := NewRand(r.U64())
		loss, lossAt, lossEvery, lossFor := 0, rl.Dur(0, 10*time.Second), rl.Dur(40*time.Second, 90*time.Second), rl.Dur(5*time.Second, 35*time.Second)
		if traffic > 0 && rl.Bool(0.5) {
			loss = 1 // pings and their answers
			if traffic == 1 && rl.Bool(0.6) {
				loss = 2 // acknowledgements of what the client writes
			}
			step = max(rl.Dur(200*time.Millisecond, 2500*time.Millisecond), idle/300)
		}
		t.Net.SetPolicy(func(d *Dgram) []Fate {
			if at := d.T - base - lossAt; loss > 0 && at >= 0 && at%lossEvery < lossFor && d.T < cut {
				if loss == 1 && (d.Status == stPing || d.Status == stPong) || loss == 2 && d.Status == stAck && d.From == s.Addr {
					t.Count("lost_of_a_kind", 1)
					return nil
				}
			}
			if d.T >= cut && (dir == 0 || dir == 1 && d.From == c.Addr || dir == 2 && d.From == s.Addr) {
				return nil
			}
			if d.Status == stPing && d.T < cut {
				// now and then one ping is lost; the next one comes before 6 s
				if pings++; pinglossN > 0 && pings%3 == 0 {
					return nil
				}
			}
			return []Fate{{Delay: lat}}
		})
		t.Desc("idle=%v dir=%d lat=%v traffic=%d pingloss=%d loss=%d step=%v", idle, dir, lat, traffic, pinglossN, loss, step)
		for t.Net.Now() < cut {
			d := min(step, cut-t.Net.Now())
			time.Sleep(d)
			if t.Net.Now() < cut {
				if traffic == 1 {
					cch.WriteTo([]byte("x"))
				} else if traffic == 2 {
					sch.WriteTo([]byte("y"))
				}
			}
			if cch.Destroyed() || sch.Destroyed() {
				t.Violate("a channel ended after %v although its peer was reachable (client %v, server %v)", t.Net.Now()-base, cch.Destroyed(), sch.Destroyed())
				return
			}
		}
		t.Count("open_seconds", int(idle/time.Second))
		if dir == 3 {
			return
		}
		time.Sleep(16 * time.Second)
		_, recv := t.Net.Snapshot(wire)
		judge := func(name string, e *EP, ch *tru.Channel, peer string, must bool) {
			evs := e.Evs(func(v *Ev) bool { return v.Err != nil && v.Ch == ch && v.Where == "ep" })
			heard := lastHeard(recv, e.Addr, peer)
			if heard < base {
				heard = base - time.Millisecond // the handshake
			}
			if len(evs) == 0 {
				if must {
					t.Violate("%s heard nothing since %v but its channel is still open at %v", name, heard, t.Net.Now())
				}
				return
			}
			for _, d := range recv {
				if d.To == e.Addr && d.From == peer && d.T <= evs[0].T && d.T > heard-time.Hour {
					heard = d.T
				}
			}
			silent := evs[0].T - heard
			if silent < 6*time.Second-5*time.Millisecond || silent > 7*time.Second {
				t.Violate("%s: the channel ended after %v of silence", name, silent)
			}
			t.Count("silences", 1)
		}
		// whoever hears nothing ends its channel; the other then hears nothing either
		judge("server", s, sch, c.Addr, dir != 2)
		judge("client", c, cch, s.Addr, dir != 1)
		t.Sig(dir, idle, lat, traffic)
	case 2, 3: // scripted peer: sends some kind of datagram at given intervals, then stops
		server := kind == 2 // role of the endpoint under test
		e := t.NewEP(0)
		t.Net.SetPolicy(func(*Dgram) []Fate { return []Fate{{Delay: lat}} })
		f := t.NewRef(e.Addr)
		f.NoPong = true
		var ch *tru.Channel
		wire := t.Net.Record()
		if r.Bool(0.3) {
			// the handshake's last step comes late
			late := r.Dur(500*time.Millisecond, 4600*time.Millisecond)
			if server {
				late = r.Dur(500*time.Millisecond, 2800*time.Millisecond)
			}
			t.Net.SetPolicy(func(d *Dgram) []Fate {
				if d.Status == stDone && !server || d.Status == stClientAnswer && server {
					return []Fate{{Delay: late}}
				}
				return []Fate{{Delay: lat}}
			})
			t.Count("late_handshakes", 1)
		}
		if server {
			if err := f.Connect(); err != nil {
				t.Violate("connecting a peer failed: %v", err)
				return
			}
			t.WaitFor(time.Second, func() bool { return len(e.News()) > 0 })
			ch = e.Peer(f.Addr)
		} else {
			var err error
			ch, err = e.T.Connect(f.Addr, e.ChReader(false))
			if err != nil {
				t.Violate("Connect to a reference peer failed: %v", err)
				return
			}
		}
		if ch == nil {
			t.Violate("no channel to the reference peer")
			return
		}
		t.Net.SetPolicy(func(*Dgram) []Fate { return []Fate{{Delay: lat}} })
		gap := r.Dur(100*time.Millisecond, 5800*time.Millisecond)
		if r.Bool(0.4) {
			gap = r.Dur(5*time.Second, 5900*time.Millisecond)
		}
		k := r.Range(1, 25)
		if r.Bool(0.25) {
			k = 0 // silent from the start
		}
		what := r.Intn(5)
		t.Desc("role server=%v lat=%v gap=%v times=%d what=%d", server, lat, gap, k, what)
		id := uint32(0)
		last := t.Net.Now()
		for i := 0; i < k; i++ {
			time.Sleep(gap)
			if ch.Destroyed() {
				t.Violate("the channel ended although the peer sent something every %v", gap)
				return
			}
			switch what {
			case 0:
				f.Send(Pack(stPing, 0, nil))
			case 1:
				f.Send(Pack(stPong, 0, nil))
			case 2:
				f.SendData(stData, id, []byte("data"))
				id++
			case 3:
				f.SendData(stData, 0, []byte("data")) // a repeat
			case 4:
				f.Send(Pack(stAck, 5, nil)) // a late acknowledgement
			}
			last = t.Net.Now()
		}
		_ = last
		time.Sleep(lat + 8*time.Second)
		_, recv := t.Net.Snapshot(wire)
		heard := lastHeard(recv, e.Addr, f.Addr)
		for _, where := range []string{"ep", "ch"} {
			evs := e.Evs(func(v *Ev) bool { return v.Err != nil && v.Ch == ch && v.Where == where })
			if where == "ch" && server {
				continue
			}
			if len(evs) != 1 || evs[0].Err != tru.ErrChannelDestroyed {
				t.Violate("the peer is silent since %v: its %s reader was told %d times", heard, where, len(evs))
				continue
			}
			silent := evs[0].T - heard
			if silent < 6*time.Second-5*time.Millisecond || silent > 7*time.Second {
				t.Violate("the channel ended after %v of silence", silent)
			}
			t.Count("silences", 1)
		}
		if !ch.Destroyed() || e.Peer(f.Addr) != nil {
			t.Violate("the channel of a silent peer is still open or listed")
		}
		t.Count("open_seconds", int(time.Duration(k)*gap/time.Second))
		t.Sig(server, gap, k, what)
		f.Close()
	}
}
