package harness

import (
	"bytes"
	"crypto/rsa"
	"fmt"
	"runtime"
	"sync"
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C06"] = scenario{run: c06} }

// stConnectLate is the one history in which the first copy of a connect datagram
// arrives after its Connect has given up and a later one succeeded.
func c06Late(t *Trial) {
	t.Desc("the only connect datagram of a failed attempt arrives after a later attempt succeeded")
	s, c := t.NewEP(0), t.NewEP(0)
	n := 0
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		if d.Status == stConnect {
			if n++; n == 1 {
				return []Fate{{Delay: 7 * time.Second}}
			}
		}
		return []Fate{{Delay: time.Millisecond}}
	})
	if _, err := c.T.Connect(s.Addr); err == nil {
		t.Violate("Connect succeeded although its datagram was on its way for 7 s")
		return
	}
	cch, err := c.T.Connect(s.Addr)
	if err != nil {
		t.Violate("Connect over a fault-free network failed: %v", err)
		return
	}
	time.Sleep(3 * time.Second)
	var f Flow
	f.Write(cch, Msg(1, 0, 0, 100))
	time.Sleep(4 * time.Second)
	if s.NMsgs(nil, "ep") != 1 {
		t.Violate("overdue connect datagram: the established channel was disturbed by the connect datagram of an attempt that had already failed")
	}
	t.Count("late_connect", 1)
}

// c06Many: endpoints that connect to several others, and are connected to, at
// the same instant; a goroutine may be held up right after it sent a handshake
// datagram, so that the answer is there before it goes on.
func c06Many(t *Trial) {
	r := t.R
	n := r.Range(2, 6)
	lat := r.Lat(20 * time.Millisecond)
	seed := r.U64()
	dupP := 0.0
	if r.Bool(0.4) {
		dupP = r.Float()
	}
	jitter := time.Duration(0)
	if r.Bool(0.4) {
		jitter = r.Dur(0, 50*time.Millisecond)
	}
	lossP := 0.0
	if r.Bool(0.3) {
		lossP = 0.3 * r.Float()
	}
	lost := 0
	nth := map[string]int{}
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		if d.Status > stDone {
			return []Fate{{Delay: lat}}
		}
		k := fmt.Sprint(d.From, d.To, d.Status)
		nth[k]++
		rr := NewRand(seed, hashOf(k, nth[k]))
		if rr.Bool(lossP) {
			lost++
			return nil
		}
		f := []Fate{{Delay: lat + rr.Dur(0, jitter)}}
		for rr.Bool(dupP) && len(f) < 4 {
			f = append(f, Fate{Delay: lat + rr.Dur(0, jitter) + rr.Dur(0, 100*time.Millisecond)})
		}
		return f
	})
	stall := r.Bool(0.6)
	if stall && r.Bool(0.8) {
		lat, jitter = 0, 0
	}
	if stall {
		t.Net.After = func(from string, b []byte) {
			if len(b) < 4 || b[3] > stDone {
				return
			}
			k := t.Net.Sends()
			for end := realNow() + 4*time.Millisecond; realNow() < end && t.Net.Sends() < k+6; {
				runtime.Gosched()
			}
		}
	}
	var es []*EP
	for i := 0; i < n; i++ {
		es = append(es, t.NewEP(0))
	}
	// pairs in one direction only
	type conn struct {
		from, to int
		ch       *tru.Channel
		err      error
		took     time.Duration
		rd       bool
	}
	var cs []*conn
	star := r.Bool(0.5) // one endpoint connects to all others
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if star && i > 0 || !star && r.Bool(0.4) {
				continue
			}
			k := &conn{from: i, to: j, rd: r.Bool(0.5)}
			if !star && r.Bool(0.5) {
				k.from, k.to = j, i
			}
			cs = append(cs, k)
		}
	}
	t.Desc("at once: endpoints=%d connects=%d star=%v lat=%v dup=%.2f jitter=%v loss=%.2f stall=%v", n, len(cs), star, lat, dupP, jitter, lossP, stall)
	var wg sync.WaitGroup
	for _, k := range cs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var rd []tru.ReaderFunc
			if k.rd {
				rd = append(rd, es[k.from].ChReader(true))
			}
			st := t.Net.Now()
			k.ch, k.err = es[k.from].T.Connect(es[k.to].Addr, rd...)
			k.took = t.Net.Now() - st
		}()
	}
	wg.Wait()
	time.Sleep(time.Second)
	okN, failN := 0, 0
	for i, k := range cs {
		a, b := es[k.from], es[k.to]
		if k.took > 5200*time.Millisecond {
			t.Violate("Connect returned after %v", k.took)
		}
		if k.err != nil {
			failN++
			if lossP == 0 {
				t.Violate("connect %d of %d made at once failed without any loss: %v", i, len(cs), k.err)
			}
			if p := a.Peer(b.Addr); p != nil {
				t.Violate("Connect failed (%v) but left a channel behind", k.err)
			}
			continue
		}
		okN++
		if k.ch.Addr().String() != b.Addr {
			t.Violate("Connect(%s) returned a channel to %s", b.Addr, k.ch.Addr())
			continue
		}
		where := "ep"
		if k.rd {
			where = "ch"
		}
		sch := b.Peer(a.Addr)
		if sch == nil {
			t.Violate("the server has no channel to a client whose Connect succeeded")
			continue
		}
		ma, mb := Msg(uint32(i), 1, 0, 100), Msg(uint32(i), 2, 0, 100)
		if _, err := k.ch.WriteTo(ma); err != nil {
			t.Violate("write on a channel made by Connect failed: %v", err)
		}
		if _, err := sch.WriteTo(mb); err != nil {
			t.Violate("write on the server's channel failed: %v", err)
		}
		if !t.WaitFor(4*time.Second, func() bool { return b.NMsgs(sch, "ep") >= 1 && a.NMsgs(k.ch, where) >= 1 }) {
			t.Violate("connect %d: %d of 1 and %d of 1 messages were handed over", i, b.NMsgs(sch, "ep"), a.NMsgs(k.ch, where))
			continue
		}
		if g, h := b.Msgs(sch, "ep"), a.Msgs(k.ch, where); len(g) != 1 || len(h) != 1 || !bytes.Equal(g[0].Data, ma) || !bytes.Equal(h[0].Data, mb) {
			t.Violate("connect %d: messages of another connection were handed over", i)
		}
		news := 0
		for _, v := range b.News() {
			if v.Ch == sch {
				news++
			}
		}
		if news != 1 {
			t.Violate("the server application was told %d times of one connection", news)
		}
	}
	t.Count("connects_ok", okN)
	t.Count("connects_failed", failN)
	t.Count("connects_at_once", len(cs))
	t.Count("handshake_lost", lost)
	t.Sig("many", n, okN, failN, lost, t.Net.Sends())
}

// c06Bad: servers whose answers are wrong in one way or another, before or in
// place of a good one.
func c06Bad(t *Trial) {
	r := t.R
	lat := r.Lat(20 * time.Millisecond)
	t.Net.SetPolicy(func(d *Dgram) []Fate { return []Fate{{Delay: lat}} })
	e, s := t.NewEP(0), t.NewEP(0)
	cch, _ := t.Pair(s, e)
	if cch == nil {
		return
	}
	var flow Flow
	wr := 0
	say := func() {
		flow.Write(cch, Msg(1, 0, uint32(wr), r.Range(0, 500)))
		wr++
	}
	for i := r.Range(1, 4); i > 0; i-- {
		f := t.NewRef(e.Addr)
		defer f.Close()
		kind, then := r.Intn(9), r.Intn(3)
		rr := NewRand(r.U64())
		answer := func(uuid string, data []byte) []byte { return Pack(stServerAnswer, 0, hsPack(uuid, data)) }
		f.Answer = func(uuid string, k *rsa.PublicKey) (out [][]byte) {
			good := rsaSeal(k, pubBytes(&f.key.PublicKey))
			switch kind {
			case 0: // cut
				b := answer(uuid, good)
				out = append(out, b[:rr.Range(4, len(b)-1)])
			case 1: // not encrypted
				out = append(out, answer(uuid, pubBytes(&f.key.PublicKey)))
			case 2: // encrypted for somebody else
				out = append(out, answer(uuid, rsaSeal(&refKey(1).PublicKey, pubBytes(&f.key.PublicKey))))
			case 3: // encrypted, but not a key
				out = append(out, answer(uuid, rsaSeal(k, rr.Bytes(rr.Range(1, 600)))))
			case 4: // a bit was changed
				b := append([]byte(nil), good...)
				b[rr.Intn(len(b))] ^= 1 << rr.Intn(8)
				out = append(out, answer(uuid, b))
			case 5: // nothing in it
				out = append(out, answer(uuid, nil))
			case 6: // of another connection
				out = append(out, answer(uuid+"x", good))
			case 7: // the connection is done without an answer
				out = append(out, Pack(stDone, 0, hsPack(uuid, nil)))
			case 8: // the first step of a connection to the client
				out = append(out, Pack(stClientAnswer, 0, hsPack(uuid, good)))
			}
			switch then {
			case 0: // nothing more
			case 1:
				out = append(out, answer(uuid, good))
			case 2:
				out = append(out, out[0], Pack(stDone, 0, hsPack(uuid, nil)))
			}
			return
		}
		say()
		st := t.Net.Now()
		ch, err := e.T.Connect(f.Addr)
		took := t.Net.Now() - st
		t.Note("answer %d, then %d: %v after %v", kind, then, err, took)
		if took > 5*time.Second+100*time.Millisecond {
			t.Violate("Connect to a server that answers wrongly (%d, then %d) took %v", kind, then, took)
		}
		if err != nil {
			if k := e.Peer(f.Addr); k != nil {
				t.Violate("a failed Connect (%v) to a server that answers wrongly (%d, then %d) left a channel behind", err, kind, then)
			}
			t.Count("bad_answers", 1)
		} else {
			if then != 1 {
				t.Violate("Connect to a server that never answered properly (%d, then %d) succeeded", kind, then)
				continue
			}
			// a good answer came too: then the channel works
			if _, err := ch.WriteTo([]byte("after all")); err != nil {
				t.Violate("writing on a new channel failed: %v", err)
			}
			time.Sleep(2*lat + 50*time.Millisecond)
			ok := false
			for _, p := range f.Log() {
				ok = ok || isData(p.St) && p.Err == nil && string(p.Plain) == "after all"
			}
			if !ok {
				t.Violate("a message on a new channel did not arrive")
			}
			t.Count("good_after_bad", 1)
			ch.Close()
		}
		if n := len(e.Channels()); n != 1 {
			t.Violate("%d channels are listed instead of the one established before", n)
		}
	}
	say()
	if !t.WaitFor(3*time.Second, func() bool { return s.NMsgs(nil, "ep") >= wr }) {
		t.Violate("an established channel stopped working")
	}
	flow.CheckPrefix(t, "established", s.Msgs(nil, "ep"))
	t.Sig("bad", wr, t.Net.Sends())
}

// c06: one or several clients connect, one after another or at once, while each
// handshake datagram is lost, repeated, delayed or overtaken.
func c06(t *Trial) {
	if t.Index == 0 {
		c06Late(t)
		return
	}
	if t.Index%10 == 9 {
		c06Bad(t)
		return
	}
	if t.Index%6 == 1 {
		c06Many(t)
		return
	}
	r := t.R
	s := t.NewEP(0)
	var hellos sync.Map
	s.OnAccept = func(ch *tru.Channel) {
		// the channel must be usable when it is announced
		if _, err := ch.WriteTo([]byte("hello " + ch.Addr().String())); err != nil {
			t.Violate("the server application was told of a connection that it cannot write to: %v", err)
		}
		n, _ := hellos.LoadOrStore(ch, new(int))
		*(n.(*int))++
	}
	seed := r.U64()
	lossP, dupP := 0.25*r.Float(), 0.7*r.Float()
	slow := r.Dur(0, 4500*time.Millisecond)
	slowP := r.Float()
	spread := r.Dur(0, 10*time.Second)
	only := -1
	if r.Bool(0.5) {
		only = r.Intn(4) // faults on one kind of handshake datagram only
	}
	if r.Bool(0.4) {
		lossP = 0
	}
	nth := map[string]int{}
	lost, dups := 0, 0
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		if d.Status > stDone {
			return []Fate{{Delay: time.Millisecond}}
		}
		k := fmt.Sprint(d.From, d.To, d.Status)
		nth[k]++
		if only >= 0 && int(d.Status) != only {
			return []Fate{{Delay: time.Millisecond}}
		}
		rr := NewRand(seed, hashOf(k, nth[k]))
		var f []Fate
		if rr.Bool(lossP) {
			lost++
		} else if rr.Bool(slowP) {
			f = append(f, Fate{Delay: rr.Dur(0, slow)})
		} else {
			f = append(f, Fate{Delay: rr.Dur(0, 5*time.Millisecond)})
		}
		// repeats of a connect datagram may outlive the attempt; the first copy may not (c06Late)
		for len(f) > 0 && rr.Bool(dupP) && len(f) < 6 {
			dups++
			f = append(f, Fate{Delay: f[0].Delay + rr.Dur(0, spread)})
		}
		return f
	})
	wire := t.Net.Record()
	clients := r.Range(1, 4)
	attempts := r.Range(1, 3)
	t.Desc("loss=%.2f dup=%.2f/%v slow=%.2f/%v only=%d clients=%d attempts=%d", lossP, dupP, spread, slowP, slow, only, clients, attempts)
	var wg sync.WaitGroup
	var okN, failN int
	var mu sync.Mutex
	var fds sync.WaitGroup
	for k := 0; k < clients; k++ {
		c := t.NewEP(0)
		rr := NewRand(r.U64())
		withReader := rr.Bool(0.5)
		wg.Add(1)
		go func() {
			defer wg.Done()
			var good int
			for a := 0; a < attempts; a++ {
				var rd []tru.ReaderFunc
				if withReader {
					rd = append(rd, c.ChReader(true))
				}
				where := "ep"
				if withReader {
					where = "ch"
				}
				start := t.Net.Now()
				ch, err := c.T.Connect(s.Addr, rd...)
				took := t.Net.Now() - start
				if took > 5200*time.Millisecond {
					t.Violate("Connect returned after %v", took)
				}
				if err != nil {
					mu.Lock()
					failN++
					mu.Unlock()
					if ch != nil {
						t.Violate("Connect returned both a channel and the error %v", err)
					}
					if p := c.Peer(s.Addr); p != nil {
						t.Violate("Connect failed (%v) but left a channel behind (destroyed=%v)", err, p.Destroyed())
					}
					// it must have had a reason: the last handshake datagram did not arrive in time
					_, recv := t.Net.Snapshot(wire)
					uu := lastUUID(recv, wire, t, c.Addr, start)
					for _, d := range recv {
						if d.Status == stDone && d.To == c.Addr && d.T >= start && d.T < start+4900*time.Millisecond && uu != "" {
							if u, _, e := hsUnpack(d.Data[4:]); e == nil && u == uu {
								t.Violate("the handshake was completed at %v, %v after it began, but Connect failed: %v", d.T, d.T-start, err)
							}
						}
					}
					time.Sleep(rr.Dur(0, 300*time.Millisecond))
					continue
				}
				good++
				mu.Lock()
				okN++
				mu.Unlock()
				if ch == nil {
					t.Violate("Connect returned neither a channel nor an error")
					return
				}
				// messages flow both ways, now and when every late datagram has arrived
				var f, g Flow
				helloIdx := len(c.Msgs(nil, where))
				_ = helloIdx
				for round := 0; round < 2; round++ {
					for i := 0; i < 4; i++ {
						if err := f.Write(ch, Msg(uint32(k), uint32(a), uint32(round*4+i), 20+rr.Intn(300))); err != nil {
							t.Violate("write on a channel made by Connect failed: %v", err)
							return
						}
					}
					if !t.WaitFor(4*time.Second, func() bool { return countFrom(s, c.Addr, uint32(k), uint32(a)) >= f.N() }) {
						t.Violate("client %d attempt %d round %d: %d of %d messages reached the server", k, a, round, countFrom(s, c.Addr, uint32(k), uint32(a)), f.N())
						return
					}
					sch := s.Peer(c.Addr)
					if sch == nil || sch.Destroyed() {
						t.Violate("the server has no channel to a client whose Connect succeeded (round %d)", round)
						return
					}
					if round == 0 {
						g.mu.Lock()
						g.Sent = append(g.Sent, []byte("hello "+c.Addr))
						g.IDs = append(g.IDs, 0)
						g.mu.Unlock()
					}
					for i := 0; i < 4; i++ {
						g.Write(sch, Msg(100+uint32(k), uint32(a), uint32(round*4+i), 20+rr.Intn(300)))
					}
					if !t.WaitFor(4*time.Second, func() bool { return c.NMsgs(ch, where) >= g.N() }) {
						t.Violate("client %d attempt %d round %d: %d of %d messages (with the one written when the connection was announced) reached the client", k, a, round, c.NMsgs(ch, where), g.N())
						return
					}
					g.CheckPrefix(t, "server to client", c.Msgs(ch, where))
					if round == 0 {
						time.Sleep(spread + 5*time.Second)
					}
				}
				if ch.Destroyed() || len(c.Evs(func(v *Ev) bool { return v.Ch == ch && v.Err != nil })) > 0 {
					t.Violate("a channel made by Connect was destroyed by late handshake datagrams")
				}
				break
			}
			// every success was announced once; never more announcements than attempts
			news := 0
			for _, v := range s.News() {
				if v.Ch.Addr().String() == c.Addr {
					news++
				}
			}
			if good > 0 && news == 0 || news > attempts {
				t.Violate("%d attempts, %d successful: the server application was told of %d connections", attempts, good, news)
			}
		}()
	}
	wg.Wait()
	fds.Wait()
	hellos.Range(func(k, v any) bool {
		if *(v.(*int)) != 1 {
			t.Violate("the server application was told %d times of one connection", *(v.(*int)))
		}
		return true
	})
	// nobody is blocked: the server still accepts
	t.Net.SetPolicy(func(*Dgram) []Fate { return []Fate{{Delay: time.Millisecond}} })
	if x := t.NewEP(0); !t.Violated() {
		t.Pair(s, x)
	}
	t.Count("connects_ok", okN)
	t.Count("connects_failed", failN)
	t.Count("handshake_lost", lost)
	t.Count("handshake_repeats", dups)
	t.Sig(okN, failN, lost, dups, only)
}

// lastUUID finds the uuid of the connect datagram an endpoint sent at a time.
func lastUUID(_ []*Dgram, w *Wire, t *Trial, from string, at time.Duration) (u string) {
	sent, _ := t.Net.Snapshot(w)
	for _, d := range sent {
		if d.Status == stConnect && d.From == from && d.T >= at {
			u, _, _ = hsUnpack(d.Data[4:])
			return
		}
	}
	return
}

func countFrom(s *EP, addr string, flow, writer uint32) (n int) {
	for _, v := range s.Evs(func(v *Ev) bool { return v.Err == nil && v.Addr == addr }) {
		if f, w, _, ok := ParseMsg(v.Data); ok && f == flow && w == writer {
			n++
		}
	}
	return
}
