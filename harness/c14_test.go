package harness

import (
	"runtime/metrics"
	"sync"
	"sync/atomic"
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C14"] = scenario{run: c14} }

// goroutinesMade is the number of goroutines the process has started so far.
func goroutinesMade() int64 {
	s := []metrics.Sample{{Name: "/sched/goroutines-created:goroutines"}}
	metrics.Read(s)
	if s[0].Value.Kind() != metrics.KindUint64 {
		panic("harness: no metric for goroutines")
	}
	return int64(s[0].Value.Uint64())
}

// c14: endpoints are closed in every state of channels, handshakes and traffic.
func c14(t *Trial) {
	r := t.R
	lat := r.Lat(4 * time.Millisecond)
	lossy := r.Bool(0.3)
	seed := r.U64()
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		if lossy && d.Copy < 4 && (isData(d.Status) || d.Status == stAck) && NewRand(seed, hashOf(d.From, d.Status, d.ID, d.Copy)).Bool(0.3) {
			return nil
		}
		return []Fate{{Delay: lat}}
	})
	var params []any
	showStat := r.Bool(0.25)
	if showStat {
		params = append(params, tru.Stat(true))
	}
	x := t.NewEP(0, params...)
	npeer := r.Range(0, 4)
	var stopped atomic.Bool
	slow := time.Duration(0)
	if r.Bool(0.3) {
		slow = r.Dur(time.Millisecond, 3*time.Second) // the application is slow; datagrams pile up
	}
	closeFrom := r.Intn(7) // 0-2 plain, 3 twice, 4 concurrently, 5 from a reader, 6 from a callback of another kind
	if npeer == 0 && closeFrom >= 5 {
		closeFrom = r.Intn(5)
	}
	ncl := r.Range(2, 5)
	var once sync.Once
	done := make(chan bool)
	endedBefore := func() bool { return false }
	var early atomic.Bool // the slow application had let a channel end before
	doClose := func() {
		once.Do(func() {
			early.Store(endedBefore())
			switch closeFrom {
			case 3:
				x.T.Close()
				x.T.Close()
			case 4:
				var wg sync.WaitGroup
				for i := 0; i < ncl; i++ {
					wg.Add(1)
					go func() { defer wg.Done(); x.T.Close() }()
				}
				wg.Wait()
			default:
				x.T.Close()
				if n := len(x.Evs(func(v *Ev) bool { return v.Err == tru.ErrTruClosed })); n != 1 {
					t.Violate("Close returned, the endpoint's reader was told %d times so far that the endpoint is closed", n)
				}
			}
			close(done)
		})
	}
	closeCh := r.Bool(0.3)
	x.OnErr = func(ch *tru.Channel, err error) {
		if closeCh && ch != nil {
			ch.Close()
		}
	}
	var armed atomic.Bool
	x.OnMsg = func(ch *tru.Channel, data []byte) {
		if armed.Load() && closeFrom == 5 {
			doClose()
			return
		}
		if slow > 0 {
			time.Sleep(slow)
		}
	}
	type peer struct {
		e        *EP
		own, far *tru.Channel // x's end, the peer's end
		rd       bool
	}
	var peers []*peer
	for i := 0; i < npeer; i++ {
		p := &peer{e: t.NewEP(0)}
		p.e.T.SetMaxDataLen(300)
		if r.Bool(0.5) {
			p.far, p.own = t.Pair(x, p.e)
		} else {
			p.rd = r.Bool(0.5)
			var rd []tru.ReaderFunc
			if p.rd {
				rd = append(rd, x.ChReader(false))
			}
			p.own, p.far = t.Pair(p.e, x, rd...)
		}
		if p.own == nil {
			return
		}
		peers = append(peers, p)
	}
	// traffic
	var wg sync.WaitGroup
	traffic := r.Bool(0.8)
	cbs := r.Bool(0.5)
	var calls, want atomic.Int64
	for i, p := range peers {
		for side, ch := range []*tru.Channel{p.own, p.far} {
			if !traffic {
				break
			}
			rr := NewRand(r.U64())
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; !stopped.Load(); k++ {
					var opt []any
					if cbs {
						opt = append(opt, func(_ *tru.Packet, err error) {
							calls.Add(1)
							if armed.Load() && closeFrom == 6 && side == 0 {
								doClose()
							}
						}, rr.Dur(10*time.Millisecond, 5*time.Second))
					}
					_, err := ch.WriteTo(Msg(uint32(i), uint32(side), uint32(k), rr.Intn(900)), opt...)
					if err != nil {
						if err != tru.ErrChannelDestroyed {
							t.Violate("a write failed with %v", err)
						}
						return
					}
					if cbs {
						want.Add(1)
					}
					time.Sleep(rr.Dur(0, 20*time.Millisecond))
				}
			}()
		}
	}
	// connects that are under way or will never be answered
	pend := r.Intn(4)
	var pendErrs atomic.Int64
	var pchs sync.Map
	when := r.Dur(0, 500*time.Millisecond)
	if r.Bool(0.2) {
		when = r.Dur(0, 9*time.Second)
	}
	for i := 0; i < pend; i++ {
		addr := "127.0.0.1:9"
		if r.Bool(0.6) {
			addr = t.NewEP(0).Addr
		}
		at := when - r.Dur(0, 6*lat)
		if r.Bool(0.3) {
			at = r.Dur(0, when)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(at)
			t0 := t.Net.Now()
			ch, err := x.T.Connect(addr)
			if err != nil {
				pendErrs.Add(1)
			} else {
				pchs.Store(ch, true)
			}
			if d := t.Net.Now() - t0; d > 5100*time.Millisecond {
				t.Violate("Connect returned after %v", d)
			}
		}()
	}
	// a peer that connects to x while it is closed
	if r.Bool(0.5) {
		e := t.NewEP(0)
		at := when - r.Dur(0, 6*lat)
		wg.Add(1)
		go func() { defer wg.Done(); time.Sleep(at); e.T.Connect(x.Addr) }()
	}
	stat := r.Bool(0.3)
	chClose := r.Bool(0.2) && len(peers) > 0
	statToggles := r.Bool(0.3)
	if statToggles {
		rr := NewRand(r.U64())
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 5; i++ {
				time.Sleep(rr.Dur(0, 300*time.Millisecond))
				if i%2 == 0 {
					x.T.StatisticPrint()
				} else {
					x.T.StatisticPrintStop()
				}
				x.T.StatisticMinilog()
			}
			x.T.StatisticPrintStop()
		}()
	}
	t.Desc("peers=%d closeFrom=%d at %v traffic=%v callbacks=%v pending=%d slow=%v lat=%v lossy=%v stat=%v/%v chclose=%v", npeer, closeFrom, when, traffic, cbs, pend, slow, lat, lossy, showStat, statToggles, chClose)
	time.Sleep(when)
	endedBefore = func() bool {
		for _, p := range peers {
			if slow > 0 && p.own.Destroyed() {
				return true
			}
		}
		return false
	}
	armed.Store(true)
	if chClose {
		wg.Add(1)
		go func() { defer wg.Done(); peers[0].own.Close() }()
	}
	if stat {
		x.T.Statistic()
	}
	if closeFrom >= 5 {
		// the callback needs an occasion
		select {
		case <-done:
		case <-time.After(700 * time.Millisecond):
		}
	}
	doClose()
	<-done
	closedAt := t.Net.Now()
	if t.Net.Bound(x.Addr) {
		t.Violate("Close returned but the port is still bound")
	}
	// a new endpoint at the same port works at once
	if r.Bool(0.5) {
		y := t.NewEP(x.T.LocalPort())
		z := t.NewEP(0)
		if a, _ := t.Pair(y, z); a != nil {
			a.WriteTo([]byte("to the new endpoint"))
			if !t.WaitFor(5*time.Second, func() bool { return y.NMsgs(nil, "ep") > 0 }) {
				t.Violate("an endpoint opened at the released port does not get messages")
			}
			for _, c := range z.Channels() {
				c.Close()
			}
		}
		z.T.Close()
		y.T.Close()
	}
	learned := map[*peer]time.Duration{}
	if !chClose && !closeCh && !early.Load() {
		time.Sleep(lat + time.Millisecond)
	} else {
		time.Sleep(7200 * time.Millisecond)
	}
	for i, p := range peers {
		if !p.far.Destroyed() {
			t.Violate("the endpoint was closed at %v, but at %v the channel of peer %d is still open", closedAt, t.Net.Now(), i)
			continue
		}
		for _, v := range p.e.Evs(func(v *Ev) bool { return v.Err == tru.ErrChannelDestroyed && v.Ch == p.far }) {
			learned[p] = v.T
		}
	}
	t.Count("peers_told", len(learned))
	stopped.Store(true)
	wg.Wait()
	time.Sleep(6 * time.Second)
	if ch, err := x.T.Connect("127.0.0.1:9"); err == nil || ch != nil {
		t.Violate("Connect on a closed endpoint answered %v, %v", ch, err)
	}
	x.T.Close()
	// judge
	closedNotices := x.Evs(func(v *Ev) bool { return v.Err == tru.ErrTruClosed })
	if len(closedNotices) != 1 || closedNotices[0].Ch != nil {
		t.Violate("the reader was told %d times that the endpoint is closed", len(closedNotices))
	}
	for _, v := range x.Evs(func(v *Ev) bool { return v.T > closedAt+time.Millisecond }) {
		t.Violate("Close returned at %v but the reader was called at %v (%v, %s)", closedAt, v.T, v.Err, short(v.Data))
		break
	}
	for i, p := range peers {
		deadChecks(t, "channel to peer", x, p.own, p.rd)
		if len(p.e.Evs(func(v *Ev) bool { return v.Err == tru.ErrChannelDestroyed && v.Ch == p.far })) != 1 {
			t.Violate("peer %d was not told once that its channel was destroyed", i)
		}
	}
	pchs.Range(func(k, _ any) bool {
		if !k.(*tru.Channel).Destroyed() {
			t.Violate("a channel of a connect that was under way is still open")
		}
		return true
	})
	if n := len(x.Channels()) + len(x.T.Statistic()); n != 0 {
		t.Violate("the closed endpoint still lists %d channels", n)
	}
	if x.T.StatisticPrintRunning() && !statToggles {
		t.Violate("the closed endpoint still prints statistics")
	}
	if calls.Load() != want.Load() {
		t.Violate("%d delivery callbacks were called for %d writes", calls.Load(), want.Load())
	}
	t.CloseAll()
	time.Sleep(8 * time.Second)
	// nothing runs any more
	g0 := goroutinesMade()
	time.Sleep(20 * time.Second)
	if n := goroutinesMade() - g0; n > 20 {
		t.Violate("all endpoints are closed, but %d goroutines were started by timers in 20 s", n)
	}
	t.Count("closes", 1)
	t.Count("pending_connects", pend)
	t.Count("callbacks", int(calls.Load()))
	t.Sig(npeer, closeFrom, when, t.Net.Sends())
}
