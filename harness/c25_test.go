package harness

import (
	"bytes"
	"sync"
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C25"] = scenario{run: c25} }

// c25call is one reader call.
type c25call struct {
	ep   bool // the endpoint's reader
	who  int  // which channel reader
	ch   *tru.Channel
	pac  *tru.Packet
	data []byte
	id   int
	done bool // what the reader answered
	at   time.Duration
}

// c25: connections with and without a reader of their own, whose first messages
// come at any time from the moment the server knows the connection.
func c25(t *Trial) {
	r := t.R
	lat := r.Lat(20 * time.Millisecond)
	var mu sync.Mutex
	var calls []*c25call
	seed := r.U64()
	mode := r.Intn(4) // what channel readers answer: 0 processed, 1 unprocessed, 2, 3 either
	slow := r.Bool(0.3)
	answer := func(data []byte) bool {
		switch mode {
		case 0:
			return true
		case 1:
			return false
		}
		return hashOf(seed, string(data))%2 == 0
	}
	nap := func(data []byte) {
		if slow {
			if h := hashOf(seed+1, string(data)); h%3 == 0 {
				time.Sleep(time.Duration(h>>8%20) * time.Millisecond)
			}
		}
	}
	reader := func(ep bool, who int) tru.ReaderFunc {
		return func(ch *tru.Channel, pac *tru.Packet, err error) bool {
			if err != nil {
				return hashOf(seed, who)%2 == 0
			}
			c := &c25call{ep: ep, who: who, ch: ch, pac: pac, data: append([]byte{}, pac.Data()...), id: pac.ID(), done: answer(pac.Data()), at: t.Net.Now()}
			if ep {
				c.done = who%2 == 0
			}
			mu.Lock()
			calls = append(calls, c)
			mu.Unlock()
			nap(pac.Data())
			return c.done
		}
	}
	// one endpoint under test connects to several servers; its endpoint reader may be missing
	epKind := r.Intn(4)
	var e *EP
	e = &EP{tr: t}
	var err error
	epReader := reader(true, r.Intn(2))
	connected := tru.ConnectFunc(e.accepted)
	switch epKind {
	case 0:
		e.T, err = tru.New(0, connected)
	case 1:
		e.T, err = tru.New(0, connected, func(ch *tru.Channel, pac *tru.Packet, err error) bool { return epReader(ch, pac, err) })
	default:
		e.T, err = tru.New(0, epReader, connected)
	}
	if err != nil {
		panic(err)
	}
	e.Addr = e.T.LocalAddr().String()
	t.eps = append(t.eps, e)
	nsrv := r.Range(1, 3)
	srv := make([]*EP, nsrv)
	flows := map[*tru.Channel]*Flow{}         // by the server's channel
	ready := map[*tru.Channel]chan struct{}{} // closed when the first messages are written
	var early, max int
	early = []int{0, 1, 3, 20}[r.Intn(4)]
	max = []int{0, 0, 30, 200}[r.Intn(4)]
	back := r.Bool(0.4) // servers may also be connected to from outside: channels without a reader
	for i := range srv {
		s := t.NewEP(0)
		if max > 0 {
			s.T.SetMaxDataLen(max)
		}
		rr := NewRand(r.U64())
		spawn := r.Bool(0.4)
		s.OnAccept = func(ch *tru.Channel) {
			f, rdy := &Flow{}, make(chan struct{})
			mu.Lock()
			flows[ch], ready[ch] = f, rdy
			mu.Unlock()
			write := func() {
				defer close(rdy)
				for k := 0; k < early; k++ {
					if err := f.Write(ch, Msg(uint32(i), 1, uint32(k), DrawLen(rr, 400))); err != nil && err != tru.ErrChannelDestroyed {
						t.Violate("write in the connect callback failed: %v", err)
					}
				}
			}
			if spawn {
				go write()
			} else {
				write()
			}
		}
		srv[i] = s
	}
	if max > 0 && r.Bool(0.5) {
		e.T.SetMaxDataLen(max)
	}
	doneDelay := time.Duration(0)
	if r.Bool(0.6) { // messages overtake the end of the handshake
		doneDelay = r.Dur(0, []time.Duration{5 * time.Millisecond, 300 * time.Millisecond, 1200 * time.Millisecond}[r.Intn(3)])
	}
	plan := &FaultPlan{Seed: r.U64(), Lat: lat, Keep: true}
	again := r.Bool(0.3)
	order := r.Intn(4)
	if again || back { // datagrams of a replaced connection could not be told from those of the new one
		order = order / 2 * 2
	}
	switch order {
	case 1:
		plan.Dup, plan.DupLate = 0.3, r.Dur(0, 200*time.Millisecond)
	case 2:
		plan.Loss = 0.15
	case 3:
		plan.Dup, plan.Loss, plan.Jitter = 0.2, 0.1, r.Dur(0, 30*time.Millisecond)
	}
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		if d.Status == stDone {
			return []Fate{{Delay: lat + doneDelay}}
		}
		if d.Status >= stPing || d.Copy >= 3 {
			return []Fate{{Delay: lat}}
		}
		return plan.Fates(d)
	})
	t.Desc("ep reader=%d mode=%d servers=%d early=%d max=%d lat=%v done+%v slow=%v plan=%v", epKind, mode, nsrv, early, max, lat, doneDelay, slow, plan)
	type conn struct {
		who      int
		srv      int
		ch, far  *tru.Channel
		own      bool // has a reader
		replaced bool
		f        *Flow
	}
	var conns []*conn
	var cmu sync.Mutex
	var wg sync.WaitGroup
	who := 0
	connect := func(i, who int, kind int) {
		c := &conn{who: who, srv: i}
		var err error
		n0 := len(srv[i].News())
		switch kind {
		case 0:
			c.ch, err = e.T.Connect(srv[i].Addr)
		case 1:
			c.ch, err = e.T.Connect(srv[i].Addr, nil)
		default:
			c.own = true
			c.ch, err = e.T.Connect(srv[i].Addr, reader(false, who))
		}
		if err != nil {
			t.Violate("Connect failed although the handshake was not disturbed: %v", err)
			return
		}
		// the callback is called when the client may already know
		if !t.WaitFor(time.Second, func() bool {
			n := srv[i].News()
			if len(n) <= n0 {
				return false
			}
			c.far = n[n0].Ch
			mu.Lock()
			defer mu.Unlock()
			c.f = flows[c.far]
			return c.f != nil
		}) {
			t.Violate("no connect callback")
			return
		}
		cmu.Lock()
		conns = append(conns, c)
		cmu.Unlock()
		t.Count("connections", 1)
	}
	together := r.Bool(0.5)
	for i := range srv {
		who++
		w, kind := who, r.Intn(5)
		if together {
			wg.Add(1)
			go func() { defer wg.Done(); connect(i, w, kind) }()
		} else {
			connect(i, w, kind)
		}
	}
	wg.Wait()
	if t.Violated() {
		return
	}
	if again { // connect again to one of them, with another reader
		time.Sleep(300*time.Millisecond + doneDelay)
		o := conns[r.Intn(len(conns))]
		o.replaced = true
		who++
		connect(o.srv, who, r.Intn(5))
	}
	if back && !t.Violated() { // a server connects to the endpoint: this channel has no reader there
		i := r.Intn(nsrv)
		for _, c := range conns {
			if c.srv == i {
				c.replaced = true
			}
		}
		ch, err := srv[i].T.Connect(e.Addr)
		if err != nil {
			t.Violate("connecting to the endpoint failed: %v", err)
			return
		}
		x := &conn{srv: i, far: ch, f: &Flow{}}
		if !t.WaitFor(time.Second, func() bool {
			for _, v := range e.News() {
				x.ch = v.Ch
			}
			return x.ch != nil
		}) {
			t.Violate("no connect callback")
			return
		}
		conns = append(conns, x)
	}
	if t.Violated() {
		return
	}
	for _, c := range conns {
		if c.replaced {
			continue
		}
		rr := NewRand(r.U64())
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			rdy := ready[c.far]
			mu.Unlock()
			if rdy != nil { // two writers' messages have no order
				<-rdy
			}
			for k := rr.Range(0, 40); k > 0; k-- {
				if err := c.f.Write(c.far, Msg(uint32(c.srv), 2, uint32(k), DrawLen(rr, 600))); err != nil {
					t.Violate("a write failed: %v", err)
				}
				if rr.Bool(0.3) {
					time.Sleep(rr.Dur(0, 10*time.Millisecond))
				}
			}
		}()
	}
	wg.Wait()
	time.Sleep(time.Millisecond)
	t.Net.SetPolicy(func(d *Dgram) []Fate { return []Fate{{Delay: lat}} })
	total := 0
	t.WaitFor(60*time.Second, func() bool { // slow readers take their time
		mu.Lock()
		defer mu.Unlock()
		if len(calls) == total {
			return true
		}
		return false
	})
	for {
		time.Sleep(5 * time.Second)
		mu.Lock()
		n := len(calls)
		mu.Unlock()
		if n == total {
			break
		}
		total = n
	}
	// judge the calls of each channel
	mu.Lock()
	defer mu.Unlock()
	for _, c := range conns {
		var got []*c25call
		for _, x := range calls {
			if x.ch == c.ch {
				got = append(got, x)
			}
		}
		if c.ch.Destroyed() != c.replaced {
			t.Violate("channel %d: destroyed=%v, replaced=%v", c.who, c.ch.Destroyed(), c.replaced)
			return
		}
		c.f.mu.Lock()
		sent := c.f.Sent
		c.f.mu.Unlock()
		k := 0
		fail := func(format string, a ...any) {
			t.Violate("connection %d, message %d: "+format, append([]any{c.who, k}, a...)...)
		}
		i := 0
		next := func() *c25call {
			if i < len(got) {
				i++
				return got[i-1]
			}
			return nil
		}
		unread := !c.own && epKind == 0
		for k = 0; k < len(sent) && !unread; k++ {
			var first *c25call
			if c.own {
				x := next()
				if x == nil {
					if c.replaced {
						break
					}
					fail("%d messages were written, but the channel's reader got only %d", len(sent), k)
					return
				}
				if x.ep || x.who != c.who {
					fail("went to another reader (endpoint's %v, of connection %d) instead of the channel's", x.ep, x.who)
					return
				}
				if !bytes.Equal(x.data, sent[k]) {
					fail("the channel's reader got %s, written was %s", short(x.data), short(sent[k]))
					return
				}
				t.Count("channel_reader", 1)
				if x.done || epKind == 0 {
					if x.done {
						t.Count("processed", 1)
					}
					continue
				}
				first = x
			}
			x := next()
			if x == nil {
				if c.replaced {
					break
				}
				fail("never reached the endpoint's reader, %d messages were written (own reader %v)", len(sent), c.own)
				return
			}
			if !x.ep {
				fail("reached a channel reader (of connection %d) when the endpoint's was due", x.who)
				return
			}
			if !bytes.Equal(x.data, sent[k]) || first != nil && (x.id != first.id || x.at < first.at) {
				fail("the endpoint's reader got %s (packet %d), written was %s", short(x.data), x.id, short(sent[k]))
				return
			}
			t.Count("endpoint_reader", 1)
		}
		if i != len(got) {
			x := got[i]
			fail("%d reader calls too many, the first on endpoint's=%v of connection %d with %s", len(got)-i, x.ep, x.who, short(x.data))
			return
		}
	}
	for _, x := range calls {
		known := false
		for _, c := range conns {
			known = known || c.ch == x.ch
		}
		if !known {
			t.Violate("a reader was called for a channel that Connect did not return")
			return
		}
	}
	t.Sig(epKind, mode, nsrv, early, max, lat, doneDelay, len(calls))
}
