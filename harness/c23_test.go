package harness

import (
	"bytes"
	"fmt"
	"net"
	"sync"
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C23"] = scenario{run: c23} }

// punchLog records punch callback calls of one endpoint.
type punchLog struct {
	mu   sync.Mutex
	got  []punchGot
	tr   *Trial
	name string
}
type punchGot struct {
	gen  int
	from string
	data []byte
	sl   []byte
	at   time.Duration
}

func (l *punchLog) cb(gen int) func(addr net.Addr, data []byte) {
	return func(addr net.Addr, data []byte) {
		l.mu.Lock()
		l.got = append(l.got, punchGot{gen, addr.String(), append([]byte{}, data...), data, l.tr.Net.Now()})
		l.mu.Unlock()
	}
}

// c23: punch and raw datagrams between endpoints with and without channels.
func c23(t *Trial) {
	switch t.Index % 6 {
	case 4:
		c23silent(t)
	case 5:
		c23handshake(t)
	default:
		c23mix(t)
	}
}

func c23mix(t *Trial) {
	r := t.R
	lat := r.Lat(20 * time.Millisecond)
	const n = 3
	logs := make([]*punchLog, n)
	eps := make([]*EP, n)
	gen := make([]int, n) // current callback of each endpoint, 0 none
	for i := range eps {
		logs[i] = &punchLog{tr: t, name: fmt.Sprint("endpoint ", i)}
		var ps []any
		switch r.Intn(3) {
		case 0:
			ps = append(ps, tru.PunchFunc(logs[i].cb(1)))
			gen[i] = 1
		case 1:
			ps = append(ps, logs[i].cb(1))
			gen[i] = 1
		}
		eps[i] = t.NewEP(0, ps...)
		if m := []int{0, 0, 40, 300}[r.Intn(4)]; m > 0 {
			eps[i].T.SetMaxDataLen(m)
		}
	}
	// channels between some of them
	type link struct {
		a, b       int
		cch, sch   *tru.Channel
		forth, bck Flow
	}
	var links []*link
	for a := 0; a < n; a++ {
		for b := a + 1; b < n; b++ {
			if r.Bool(0.5) {
				l := &link{a: a, b: b}
				l.cch, l.sch = t.Pair(eps[b], eps[a])
				if l.cch == nil {
					return
				}
				links = append(links, l)
			}
		}
	}
	plan := &FaultPlan{Seed: r.U64(), Lat: lat, Keep: true}
	switch r.Intn(4) {
	case 1:
		plan.Dup, plan.DupLate = 0.4, r.Dur(0, 100*time.Millisecond)
	case 2:
		plan.Loss = 0.2
	case 3:
		plan.Dup, plan.DupLate, plan.Loss, plan.Jitter = 0.3, r.Dur(0, 100*time.Millisecond), 0.15, r.Dur(0, 30*time.Millisecond)
	}
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		if d.Status >= stPing && d.Status != stPunch {
			return []Fate{{Delay: lat}}
		}
		return plan.Fates(d)
	})
	wire := t.Net.Record()
	base := t.Net.Now()
	t.Desc("links=%d lat=%v plan=%v", len(links), lat, plan)
	type want struct{ to, from, data string }
	var mu sync.Mutex
	type rawWrite struct {
		from, to string
		data     []byte
	}
	var raws []rawWrite                        // expected datagrams of raw writes and punches, in the order of one writer each
	punch := func(id int, pay []byte) []byte { // a punch datagram made by hand
		b := []byte{byte(id), byte(id >> 8), byte(id >> 16), stPunch}
		return append(b, pay...)
	}
	addrOf := func(rr *Rand, s string) any {
		if rr.Bool(0.5) {
			return s
		}
		return udp(s)
	}
	payload := func(rr *Rand) []byte {
		switch rr.Intn(8) {
		case 0:
			return nil
		case 1:
			return rr.Bytes(rr.Intn(10))
		case 2:
			return rr.Bytes(rr.Range(1000, 9000))
		case 3:
			return rr.Bytes(maxUDPIPv4 - 4 - rr.Intn(3))
		}
		return rr.Bytes(rr.Intn(300))
	}
	strangers := []string{"127.0.0.1:9", "10.1.2.3:65535", "192.168.7.7:1"}
	act := func(rr *Rand) {
		i := rr.Intn(n)
		to := rr.Intn(n)
		for to == i {
			to = rr.Intn(n)
		}
		switch rr.Intn(5) {
		case 0, 1: // punch through the API
			pay := payload(rr)
			given := append([]byte{}, pay...)
			mu.Lock()
			raws = append(raws, rawWrite{eps[i].Addr, eps[to].Addr, punch(0, pay)})
			mu.Unlock()
			a, err := eps[i].T.WriteToPunch(given, addrOf(rr, eps[to].Addr))
			if err != nil || a == nil || a.String() != eps[to].Addr {
				t.Violate("WriteToPunch returned %v, %v", a, err)
			}
			if !bytes.Equal(given, pay) {
				t.Violate("WriteToPunch changed the bytes it was given")
			}
			fill(given, rr.U64()) // the caller uses its buffer again
			t.Count("punches", 1)
		case 2: // a raw write that is a punch of another make
			b := punch(rr.Intn(idLimit), payload(rr))
			mu.Lock()
			raws = append(raws, rawWrite{eps[i].Addr, eps[to].Addr, append([]byte{}, b...)})
			mu.Unlock()
			a, err := eps[i].T.WriteTo(b, addrOf(rr, eps[to].Addr))
			if err != nil || a == nil || a.String() != eps[to].Addr {
				t.Violate("WriteTo returned %v, %v", a, err)
			}
			fill(b, rr.U64())
			t.Count("raw", 1)
		case 3: // a raw write of any bytes to somewhere else
			b := rr.Bytes(rr.Range(0, 2000))
			if rr.Bool(0.1) {
				b = rr.Bytes(maxUDPIPv4 - rr.Intn(2))
			}
			s := strangers[rr.Intn(len(strangers))]
			mu.Lock()
			raws = append(raws, rawWrite{eps[i].Addr, s, append([]byte{}, b...)})
			mu.Unlock()
			a, err := eps[i].T.WriteTo(b, addrOf(rr, s))
			if err != nil || a == nil || a.String() != s {
				t.Violate("WriteTo returned %v, %v", a, err)
			}
			fill(b, rr.U64())
			t.Count("raw", 1)
		case 4: // a punch from a stranger, or seemingly from a peer
			from := strangers[rr.Intn(len(strangers))]
			if rr.Bool(0.4) {
				from = eps[i].Addr
			}
			t.Net.Inject(from, eps[to].Addr, punch(rr.Intn(idLimit), payload(rr)))
			t.Count("injected", 1)
		}
	}
	before := make([][]*tru.Channel, n)
	for i := range eps {
		before[i] = eps[i].Channels()
	}
	rounds := r.Range(1, 4)
	type span struct {
		at  time.Duration
		gen []int
	}
	var spans []span
	for k := 0; k < rounds; k++ {
		if k > 0 && r.Bool(0.7) { // everything has arrived: other callbacks
			time.Sleep(200 * time.Millisecond)
			for i := range eps {
				switch r.Intn(3) {
				case 0:
					eps[i].T.SetPunchCb(nil)
					gen[i] = 0
				case 1:
					gen[i] = k + 1
					eps[i].T.SetPunchCb(logs[i].cb(k + 1))
				}
			}
		}
		spans = append(spans, span{t.Net.Now(), append([]int{}, gen...)})
		var wg sync.WaitGroup
		for w := r.Range(1, 4); w > 0; w-- {
			rr := NewRand(r.U64())
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := rr.Range(1, 25); j > 0; j-- {
					act(rr)
					if rr.Bool(0.3) {
						time.Sleep(rr.Dur(0, 5*time.Millisecond))
					}
				}
			}()
		}
		for _, l := range links {
			for side, ch := range []*tru.Channel{l.cch, l.sch} {
				f := []*Flow{&l.forth, &l.bck}[side]
				rr := NewRand(r.U64())
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := rr.Range(0, 30); j > 0; j-- {
						if err := f.Write(ch, Msg(uint32(l.a*8+l.b), uint32(side), uint32(f.N()), DrawLen(rr, 600))); err != nil {
							t.Violate("a write on a channel failed: %v", err)
							return
						}
						if rr.Bool(0.3) {
							time.Sleep(rr.Dur(0, 5*time.Millisecond))
						}
					}
				}()
			}
		}
		wg.Wait()
	}
	t.Net.SetPolicy(func(*Dgram) []Fate { return []Fate{{Delay: lat}} })
	time.Sleep(5 * time.Second)
	// one callback per arriving copy, with its bytes and sender
	sent, recv := t.Net.Snapshot(wire)
	for i, e := range eps {
		exp := map[string]int{}
		for _, d := range recv {
			if d.To != e.Addr || d.Status != stPunch || d.T < base || len(d.Data) < 4 {
				continue
			}
			g := gen[i]
			for j := len(spans) - 1; j >= 0; j-- {
				if d.T >= spans[j].at {
					g = spans[j].gen[i]
					break
				}
			}
			if g > 0 {
				exp[fmt.Sprint(g, " ", d.From, " ", string(d.Data[4:]))]++
			}
		}
		logs[i].mu.Lock()
		for _, g := range logs[i].got {
			exp[fmt.Sprint(g.gen, " ", g.from, " ", string(g.data))]--
			if !bytes.Equal(g.sl, g.data) {
				t.Violate("the bytes given to a punch callback changed afterwards")
			}
		}
		t.Count("callbacks", len(logs[i].got))
		logs[i].mu.Unlock()
		for _, k := range sortedKeys(exp) {
			if c := exp[k]; c != 0 {
				what := "missing"
				if c < 0 {
					what = "too many"
				}
				t.Violate("endpoint %d: %d punch callbacks %s (callback, sender, payload: %s)", i, max(c, -c), what, short([]byte(k)))
			}
		}
		// no channel made, fed or ended
		now := e.Channels()
		if len(now) != len(before[i]) {
			t.Violate("endpoint %d has %d channels, it had %d before the punches", i, len(now), len(before[i]))
		}
		if k := len(e.Evs(func(v *Ev) bool { return v.Err != nil })); k > 0 {
			t.Violate("endpoint %d: %d channels ended", i, k)
		}
	}
	msgs := make([]int, n)
	for _, l := range links {
		l.forth.CheckPrefix(t, "forth", eps[l.b].Msgs(l.sch, "ep"))
		l.bck.CheckPrefix(t, "back", eps[l.a].Msgs(l.cch, "ep"))
		msgs[l.b] += l.forth.N()
		msgs[l.a] += l.bck.N()
		t.Count("msgs", l.forth.N()+l.bck.N())
		for _, ch := range []*tru.Channel{l.cch, l.sch} {
			if ch.Destroyed() {
				t.Violate("a channel was ended by punches or raw writes")
			}
		}
	}
	for i, e := range eps {
		if k := len(e.Evs(nil)); k != msgs[i] {
			t.Violate("endpoint %d: the reader was called %d times for %d messages", i, k, msgs[i])
		}
	}
	// every punch and raw write is one datagram with exactly these bytes; an
	// endpoint sends nothing but these and the traffic of its channels
	onWire := map[want]int{}
	for _, d := range sent {
		if d.Raw || d.T < base {
			continue
		}
		linked := false
		for _, l := range links {
			linked = linked || eps[l.a].Addr == d.From && eps[l.b].Addr == d.To || eps[l.b].Addr == d.From && eps[l.a].Addr == d.To
		}
		if linked && d.Status != stPunch {
			continue
		}
		onWire[want{d.To, d.From, string(d.Data)}]++
	}
	for _, w := range raws {
		onWire[want{w.to, w.from, string(w.data)}]--
	}
	bad := 0
	for k, c := range onWire {
		if c != 0 && bad < 5 {
			bad++
			t.Violate("%d more datagrams than asked for from %s to %s: %s", c, k.from, k.to, short([]byte(k.data)))
		}
	}
	t.Sig(len(links), lat, plan.String(), len(raws), t.Net.Sends())
}

// c23silent: punches from the address of a peer that fell silent do not keep its
// channel open.
func c23silent(t *Trial) {
	r := t.R
	log := &punchLog{tr: t}
	a, b := t.NewEP(0, tru.PunchFunc(log.cb(1))), t.NewEP(0)
	lat := r.Lat(20 * time.Millisecond)
	client := r.Bool(0.5)
	var ch *tru.Channel
	if client {
		ch, _ = t.Pair(b, a)
	} else {
		_, ch = t.Pair(a, b)
	}
	if ch == nil {
		return
	}
	if r.Bool(0.5) {
		time.Sleep(r.Dur(0, 12*time.Second))
	}
	cut := t.Net.Now()
	var mu sync.Mutex
	heard := cut
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		if d.To == a.Addr {
			return nil
		}
		return []Fate{{Delay: lat}}
	})
	t.Net.OnRecv(func(d *Dgram) {
		if d.To == a.Addr && d.Status != stPunch {
			mu.Lock()
			heard = d.T
			mu.Unlock()
		}
	})
	step := r.Dur(50*time.Millisecond, 3*time.Second)
	sent := 0
	for t.Net.Now() < cut+8*time.Second {
		if r.Bool(0.5) {
			t.Net.Inject(b.Addr, a.Addr, append([]byte{0, 0, 0, stPunch}, r.Bytes(r.Intn(50))...))
			sent++
		} else {
			t.Net.Inject(b.Addr, a.Addr, append([]byte{byte(r.Intn(4)), 0, 0, stPunch}, r.Bytes(r.Intn(50))...))
			sent++
		}
		time.Sleep(step)
	}
	evs := a.Evs(func(v *Ev) bool { return v.Ch == ch && v.Err != nil })
	t.Desc("silent peer that punches every %v, client=%v", step, client)
	mu.Lock()
	defer mu.Unlock()
	if len(evs) != 1 || evs[0].T > heard+7*time.Second {
		t.Violate("a peer that sent nothing but punches for 8 s kept its channel: %d notices, destroyed=%v", len(evs), ch.Destroyed())
	}
	log.mu.Lock()
	defer log.mu.Unlock()
	if len(log.got) != sent {
		t.Violate("%d punch callbacks for %d punches of a peer whose channel ended meanwhile", len(log.got), sent)
	}
	t.Count("silent", 1)
	t.Count("callbacks", len(log.got))
	t.Sig("silent", client, step, lat)
}

// c23handshake: both ends punch while they connect, as peers behind NATs do.
func c23handshake(t *Trial) {
	r := t.R
	la, lb := &punchLog{tr: t}, &punchLog{tr: t}
	a, b := t.NewEP(0, tru.PunchFunc(la.cb(1))), t.NewEP(0)
	b.T.SetPunchCb(lb.cb(1))
	lat := r.Lat(60 * time.Millisecond)
	dup := r.Intn(3)
	t.Net.SetPolicy(func(d *Dgram) (f []Fate) {
		f = []Fate{{Delay: lat}}
		if d.Status == stPunch {
			for k := 0; k < dup; k++ {
				f = append(f, Fate{Delay: lat + time.Duration(k)*time.Millisecond})
			}
		}
		return
	})
	stop := make(chan bool)
	var wg sync.WaitGroup
	var na, nb int
	for _, x := range []struct {
		from, to *EP
		n        *int
	}{{a, b, &nb}, {b, a, &na}} {
		rr := NewRand(r.U64())
		step := rr.Dur(0, lat)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 500; k++ {
				select {
				case <-stop:
					return
				default:
				}
				x.from.T.WriteToPunch(rr.Bytes(rr.Intn(200)), x.to.Addr)
				*x.n++
				time.Sleep(step + 50*time.Microsecond)
			}
		}()
	}
	if r.Bool(0.5) {
		time.Sleep(r.Dur(0, 5*time.Millisecond))
	}
	cch, err := a.T.Connect(b.Addr)
	if err != nil {
		t.Violate("Connect failed while both ends punched: %v", err)
	} else {
		t.WaitFor(time.Second, func() bool { return len(b.News()) > 0 })
		if n := b.News(); len(n) != 1 || n[0].Ch == nil {
			t.Violate("%d connect callbacks for one connection with punches", len(n))
		} else {
			var fa, fb Flow
			for k := 0; k < 20; k++ {
				fa.Write(cch, Msg(1, 0, uint32(k), DrawLen(r, 300)))
				fb.Write(n[0].Ch, Msg(2, 0, uint32(k), DrawLen(r, 300)))
			}
			time.Sleep(2 * time.Second)
			if b.NMsgs(n[0].Ch, "ep") != 20 || a.NMsgs(cch, "ep") != 20 {
				t.Violate("%d and %d of 20 messages arrived beside punches", b.NMsgs(n[0].Ch, "ep"), a.NMsgs(cch, "ep"))
			}
			fa.CheckPrefix(t, "forth", b.Msgs(n[0].Ch, "ep"))
			fb.CheckPrefix(t, "back", a.Msgs(cch, "ep"))
			t.Count("msgs", fa.N()+fb.N())
		}
	}
	close(stop)
	wg.Wait()
	time.Sleep(time.Second)
	la.mu.Lock()
	lb.mu.Lock()
	if len(la.got) != na*(1+dup) || len(lb.got) != nb*(1+dup) {
		t.Violate("%d and %d punch callbacks for %d and %d punches that arrived %d times each", len(la.got), len(lb.got), na, nb, 1+dup)
	}
	t.Count("callbacks", len(la.got)+len(lb.got))
	la.mu.Unlock()
	lb.mu.Unlock()
	t.Desc("punches while connecting, lat=%v dup=%d", lat, dup)
	t.Sig("handshake", lat, dup, t.Net.Sends())
}
