package harness

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C16"] = scenario{run: c16} }

// wireModel is what the datagrams say about one end of a channel.
type wireModel struct {
	ack, ackD, rsnd, drop int64
	sq, rq                uint
	rta                   int
}

// modelOf recomputes the statistics of the channel of endpoint own to peer.
func modelOf(sent, recv []*Dgram, own, peer string) (m wireModel) {
	copies := map[uint32]int{}
	for _, d := range sent {
		if d.From == own && d.To == peer && isData(d.Status) {
			copies[d.ID]++
		}
	}
	acked := map[uint32]bool{}
	got := map[uint32]bool{}
	for _, d := range recv {
		if d.From != peer || d.To != own {
			continue
		}
		switch {
		case d.Status == stAck:
			if copies[d.ID] > 0 && !acked[d.ID] {
				acked[d.ID] = true
				m.ack++
			} else {
				m.ackD++
			}
		case isData(d.Status):
			if got[d.ID] {
				m.drop++
			}
			got[d.ID] = true
		}
	}
	low := -1
	for id, n := range copies {
		m.rsnd += int64(n - 1)
		if !acked[id] {
			m.sq++
			if low < 0 || int(id) < low {
				low = int(id)
				m.rta = n - 1
			}
		}
	}
	exp := uint32(0)
	for got[exp] {
		exp++
	}
	for id := range got {
		if id > exp {
			m.rq++
		}
	}
	return
}

// c16: statistics against the wire log and the applications' own counts.
func c16(t *Trial) {
	r := t.R
	n := r.Range(1, 5)
	s := t.NewEP(0)
	s.T.SetMaxDataLen(r.Range(50, 400))
	type link struct {
		e            *EP
		cch, sch     *tru.Channel
		wroteC, wroS int64
		closed       bool
	}
	var links []*link
	wire := t.Net.Record()
	lat := r.Dur(100*time.Microsecond, 80*time.Millisecond)
	kind := r.Intn(3) // 0 steady link, 1 faults, 2 faults and an outage
	for i := 0; i < n; i++ {
		l := &link{e: t.NewEP(0)}
		l.e.T.SetMaxDataLen(r.Range(50, 400))
		t.Net.SetPolicy(func(d *Dgram) []Fate { return []Fate{{Delay: lat}} })
		if l.cch, l.sch = t.Pair(s, l.e); l.cch == nil {
			return
		}
		links = append(links, l)
	}
	time.Sleep(2 * lat)
	plan := DrawFaults(r, 0)
	plan.Black = nil
	if plan.Loss > 0.3 {
		plan.Loss = 0.3
	}
	if kind == 0 {
		plan = &FaultPlan{Name: "steady", Lat: lat, Keep: true}
	}
	var mu sync.Mutex
	cut := false
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		mu.Lock()
		c, plan := cut, *plan
		mu.Unlock()
		if c {
			return nil
		}
		if d.Status == stPing || d.Status == stPong || d.Status == stDisconnect || d.Copy >= 3 {
			// no side may hear nothing for seconds
			return []Fate{{Delay: plan.Lat}}
		}
		return plan.Fates(d)
	})
	t.Desc("channels=%d kind=%d %v", n, kind, plan)
	check := func(when string) {
		// a moment at which nothing is going on
		var sent, recv []*Dgram
		var sstat tru.ChannelsStatistic
		var cstat = map[*link]tru.ChannelsStatistic{}
		for try := 0; ; try++ {
			if try > 200 {
				t.Inconclusive("no quiet moment")
				return
			}
			time.Sleep(137 * time.Microsecond)
			s1, r1 := t.Net.Snapshot(wire)
			sstat = s.T.Statistic()
			for _, l := range links {
				cstat[l] = l.e.T.Statistic()
			}
			time.Sleep(61 * time.Microsecond)
			sent, recv = t.Net.Snapshot(wire)
			if len(s1) == len(sent) && len(r1) == len(recv) {
				break
			}
		}
		var want []string
		for _, l := range links {
			if !l.closed {
				want = append(want, l.e.Addr)
			}
		}
		sort.Strings(want)
		var have []string
		for _, x := range sstat {
			have = append(have, x.Addr)
		}
		if fmt.Sprint(have) != fmt.Sprint(want) {
			t.Violate("%s: the statistics list %v, open are %v", when, have, want)
			return
		}
		if tab := sstat.String(); len(have) > 0 {
			for _, a := range have {
				if strings.Count(tab, a+" ") != 1 {
					t.Violate("%s: the table does not show %s once:\n%s", when, a, tab)
				}
			}
		}
		row := func(st tru.ChannelsStatistic, addr string) *tru.ChannelStatistic {
			for i := range st {
				if st[i].Addr == addr {
					return &st[i]
				}
			}
			return nil
		}
		one := func(name string, x *tru.ChannelStatistic, m wireModel, wrote int64, read int) {
			t.Count("rows", 1)
			if x.Send != wrote || x.Recv != int64(read) || x.Ack != m.ack || x.AckD != m.ackD || x.Rsnd != m.rsnd || x.Drop != m.drop || x.SQ != m.sq || x.RQ != m.rq || x.RTA != m.rta {
				t.Violate("%s, %s: statistics say sent=%d received=%d acks=%d dropped acks=%d resent=%d dropped=%d send queue=%d receive queue=%d attempts=%d, but it was sent=%d received=%d and on the wire %+v",
					when, name, x.Send, x.Recv, x.Ack, x.AckD, x.Rsnd, x.Drop, x.SQ, x.RQ, x.RTA, wrote, read, m)
			}
			t.Count("resent", int(m.rsnd))
			t.Count("dropped", int(m.drop))
			t.Count("acks_dropped", int(m.ackD))
			t.Count("outstanding", int(m.sq))
			t.Count("waiting", int(m.rq))
		}
		for i, l := range links {
			if l.closed {
				if len(cstat[l]) != 0 {
					t.Violate("%s: the statistics of an endpoint without channels have %d rows", when, len(cstat[l]))
				}
				continue
			}
			if len(cstat[l]) != 1 || cstat[l][0].Addr != s.Addr {
				t.Violate("%s: the statistics of an endpoint with one channel are %v", when, cstat[l])
				return
			}
			one(fmt.Sprintf("server's channel %d", i), row(sstat, l.e.Addr), modelOf(sent, recv, s.Addr, l.e.Addr), l.wroS, s.NMsgs(l.sch, "ep"))
			one(fmt.Sprintf("client %d", i), &cstat[l][0], modelOf(sent, recv, l.e.Addr, s.Addr), l.wroteC, l.e.NMsgs(l.cch, "ep"))
		}
	}
	check("before any traffic")
	traffic := func(k int, gap time.Duration) {
		var wg sync.WaitGroup
		for _, l := range links {
			if l.closed {
				continue
			}
			for side := 0; side < 2; side++ {
				rr := NewRand(r.U64())
				m := rr.Intn(k + 1)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < m; i++ {
						ch, cnt := l.cch, &l.wroteC
						if side == 1 {
							ch, cnt = l.sch, &l.wroS
						}
						if _, err := ch.WriteTo(rr.Bytes(DrawLen(rr, 1500))); err != nil {
							t.Violate("a write failed: %v", err)
							return
						}
						*cnt++
						time.Sleep(rr.Dur(0, gap))
					}
				}()
			}
		}
		wg.Wait()
	}
	settle := func() bool {
		ok := t.WaitFor(20*time.Second, func() bool {
			for _, e := range append([]*EP{s}, func() (x []*EP) {
				for _, l := range links {
					x = append(x, l.e)
				}
				return
			}()...) {
				for _, row := range e.T.Statistic() {
					if row.SQ != 0 {
						return false
					}
				}
			}
			return true
		})
		time.Sleep(lat + plan.Lat + plan.Jitter + plan.DupLate + 10*time.Millisecond)
		return ok
	}
	rounds := r.Range(1, 3)
	for i := 0; i < rounds && !t.Violated(); i++ {
		traffic(30, 10*time.Millisecond)
		if !settle() {
			t.Violate("the send queues do not become empty")
			return
		}
		check(fmt.Sprintf("after round %d", i))
		if n > 1 && r.Bool(0.3) && i == 0 {
			l := links[r.Intn(n)]
			if r.Bool(0.5) {
				l.cch.Close()
			} else {
				l.sch.Close()
			}
			l.closed = true
			time.Sleep(lat + plan.Lat + plan.Jitter + 10*time.Millisecond)
			check("after a channel was closed")
		}
	}
	if kind == 2 && !t.Violated() {
		// some packets are lost, then everything
		old := *plan
		mu.Lock()
		plan.Loss = 0.4
		mu.Unlock()
		traffic(20, 5*time.Millisecond)
		mu.Lock()
		cut = true
		mu.Unlock()
		traffic(6, time.Millisecond)
		time.Sleep(plan.Lat + plan.Jitter + plan.DupLate + 5*time.Millisecond)
		check("in an outage")
		for i := 0; i < 3; i++ {
			time.Sleep(r.Dur(0, 700*time.Millisecond))
			check("later in an outage")
		}
		mu.Lock()
		cut = false
		*plan = old
		plan.Loss = 0
		mu.Unlock()
		if !settle() {
			t.Violate("the send queues do not become empty after an outage")
			return
		}
		check("after an outage")
	}
	if kind == 0 && !t.Violated() {
		// trip time and rates
		l := links[r.Intn(n)]
		if l.closed {
			l = links[0]
		}
		if !l.closed {
			rtt := float64(2*lat) / 1e6
			rate := r.Range(5, 150)
			gap := time.Second / time.Duration(rate)
			end := time.Now().Add(r.Dur(2500*time.Millisecond, 4*time.Second))
			for time.Now().Before(end) {
				l.cch.WriteTo([]byte("tick"))
				l.wroteC++
				time.Sleep(gap)
			}
			a, b := l.e.T.Statistic()[0], tru.ChannelStatistic{}
			for _, x := range s.T.Statistic() {
				if x.Addr == l.e.Addr {
					b = x
				} else if x.Rsec != 0 || x.Ssec != 0 {
					t.Violate("an idle channel shows the rates %d, %d", x.Ssec, x.Rsec)
				}
			}
			real := float64(time.Second) / float64(gap)
			tol := real*0.05 + 2.5
			if math.Abs(float64(a.Ssec)-real) > tol || math.Abs(float64(b.Rsec)-real) > tol || a.Rsec != 0 || b.Ssec != 0 {
				t.Violate("%.1f messages were sent per second; the sender's rates are %d/%d, the receiver's %d/%d", real, a.Ssec, a.Rsec, b.Ssec, b.Rsec)
			}
			if tt := float64(l.cch.Triptime().Microseconds()) / 1000; math.Abs(a.TT-rtt) > 0.5 || math.Abs(tt-rtt) > 0.5 {
				t.Violate("the round-trip time is %.3f ms, the trip time %.3f, %.3f", rtt, a.TT, tt)
			}
			time.Sleep(1250*time.Millisecond + 2*lat)
			a = l.e.T.Statistic()[0]
			if a.Ssec != 0 {
				t.Violate("the send rate is %d, 1.2 s after the last message", a.Ssec)
			}
			// a burst in the opposite direction
			k := r.Range(2, 60)
			for i := 0; i < k; i++ {
				l.sch.WriteTo([]byte("burst"))
				l.wroS++
			}
			time.Sleep(lat + r.Dur(250*time.Millisecond, 700*time.Millisecond))
			a = l.e.T.Statistic()[0]
			if a.Rsec != int64(k) {
				t.Violate("%d messages came within the last second, the receive rate is %d", k, a.Rsec)
			}
			time.Sleep(1250 * time.Millisecond)
			a = l.e.T.Statistic()[0]
			if a.Rsec != 0 {
				t.Violate("the receive rate is %d, more than a second after the last message", a.Rsec)
			}
			t.Count("rates", 1)
			settle()
			check("at the end")
		}
	}
	t.Sig(n, kind, plan.Name, t.Net.Sends())
}
