package harness

import (
	"fmt"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C24"] = scenario{run: c24} }

// c24call is one API call made from a callback.
type c24call struct {
	from, name string
	at         time.Duration
	took       time.Duration // -1 while it runs
}

// c24 lets every callback of two or three endpoints call back into the API.
func c24(t *Trial) {
	r := t.R
	lat := r.Lat(10 * time.Millisecond)
	var mu sync.Mutex // calls, chans, notices
	var calls []*c24call
	type key struct {
		e  *EP
		ch *tru.Channel
	}
	notices := map[key][2]int{} // endpoint reader, channel reader
	own := map[*tru.Channel]bool{}
	closedBy := map[*EP]bool{}
	var budget atomic.Int64
	budget.Store(int64(r.Range(50, 400)))
	var seq, delivered, deliveries atomic.Int64
	var probing atomic.Bool
	seed := r.U64()
	n := r.Range(2, 3)
	eps := make([]*EP, n)
	focus := ""
	if r.Bool(0.6) { // much of one call, from one callback
		focus = []string{"write", "close", "close endpoint", "each", "statistic", "punch", "raw", "set"}[r.Intn(8)]
	}
	mayClose := r.Bool(0.3) || focus == "close endpoint"
	mayEnd := r.Bool(0.6) || focus == "close"
	shareCb := []string{"", "", "reader", "channel reader", "connect", "delivery", "punch", "notice", "channel notice", "each"}[r.Intn(10)]
	t.Desc("n=%d lat=%v focus=%q callback=%q close=%v end=%v", n, lat, focus, shareCb, mayClose, mayEnd)
	var act func(rr *Rand, from string, e *EP, ch *tru.Channel, depth int)
	call := func(from, name string, f func()) {
		c := &c24call{from: from, name: name, at: t.Net.Now(), took: -1}
		mu.Lock()
		calls = append(calls, c)
		mu.Unlock()
		f()
		mu.Lock()
		c.took = t.Net.Now() - c.at
		mu.Unlock()
	}
	delivery := func(e *EP, ch *tru.Channel) func(*tru.Packet, error) {
		deliveries.Add(1)
		return func(_ *tru.Packet, err error) {
			delivered.Add(1)
			act(NewRand(seed, uint64(seq.Add(1))), "delivery", e, ch, 0)
		}
	}
	act = func(rr *Rand, from string, e *EP, ch *tru.Channel, depth int) {
		if shareCb != "" && from != shareCb && rr.Bool(0.9) {
			return
		}
		for k := rr.Range(1, 3); k > 0; k-- {
			if budget.Add(-1) < 0 {
				return
			}
			what := []string{"write", "write", "write", "close", "close endpoint", "each", "statistic", "punch", "raw", "set", "destroyed"}[rr.Intn(11)]
			if focus != "" && rr.Bool(0.6) {
				what = focus
			}
			other := ch
			if ch == nil || rr.Bool(0.4) {
				if l := e.Channels(); len(l) > 0 {
					other = l[rr.Intn(len(l))]
				}
			}
			switch what {
			case "write":
				if other == nil {
					continue
				}
				msg := Msg(7, 0, uint32(seq.Add(1)), DrawLen(rr, 200))
				call(from, "Channel.WriteTo", func() {
					var err error
					if rr.Bool(0.5) {
						d := delivery(e, other)
						if _, err = other.WriteTo(msg, d, rr.Dur(10*time.Millisecond, time.Second)); err != nil {
							deliveries.Add(-1)
						}
					} else {
						_, err = other.WriteTo(msg)
					}
					if err != nil && err != tru.ErrChannelDestroyed && err != tru.ErrChannelNotConnected {
						t.Violate("WriteTo from the %s callback returned %v", from, err)
					}
				})
			case "close":
				if other != nil && (mayEnd && rr.Bool(0.3) || other.Destroyed() || strings.Contains(from, "notice") && other == ch) {
					call(from, "Channel.Close", other.Close)
				}
			case "close endpoint":
				if mayClose && rr.Bool(0.1) {
					mu.Lock()
					closedBy[e] = true
					mu.Unlock()
					call(from, "Tru.Close", e.T.Close)
				}
			case "each":
				call(from, "ForEachChannel", func() {
					e.T.ForEachChannel(func(c *tru.Channel) {
						if depth < 2 {
							act(rr, "each", e, c, depth+1)
						}
					})
				})
			case "statistic":
				call(from, "Statistic", func() { st := e.T.Statistic(); _ = st.String() })
			case "punch":
				to := eps[rr.Intn(n)]
				call(from, "WriteToPunch", func() { e.T.WriteToPunch([]byte("punch"), to.Addr) })
			case "raw":
				call(from, "WriteTo", func() { e.T.WriteTo([]byte("raw"), "127.0.0.1:9") })
			case "set":
				call(from, "settings", func() {
					switch rr.Intn(4) {
					case 0:
						e.T.SetSendDelay(rr.Intn(100))
					case 1:
						e.T.SetMaxDataLen(rr.Range(100, 1000))
					case 2:
						if other != nil {
							_ = other.Triptime()
							_ = other.String()
							_ = other.ServerMode()
						}
					default:
						_, _ = e.T.LocalAddr(), e.T.LocalPort()
					}
				})
			case "destroyed":
				if other != nil {
					call(from, "Destroyed", func() { other.Destroyed() })
				}
			}
			t.Count("calls", 1)
		}
	}
	for i := range eps {
		var e *EP
		ready := make(chan struct{}) // the callbacks wait until eps is complete
		var reader tru.ReaderFunc = func(ch *tru.Channel, pac *tru.Packet, err error) bool {
			<-ready
			if probing.Load() && err == nil {
				ch.WriteTo(append([]byte("answer to "), pac.Data()...))
				return true
			}
			rr := NewRand(seed, uint64(seq.Add(1)))
			if err != nil {
				if ch != nil {
					mu.Lock()
					x := notices[key{e, ch}]
					x[0]++
					notices[key{e, ch}] = x
					mu.Unlock()
				}
				act(rr, "notice", e, ch, 0)
				return true
			}
			act(rr, "reader", e, ch, 0)
			return true
		}
		punch := tru.PunchFunc(func(net.Addr, []byte) {
			<-ready
			act(NewRand(seed, uint64(seq.Add(1))), "punch", e, nil, 0)
		})
		e = t.NewEP(0, punch)
		e.Raw = reader
		e.OnAccept = func(ch *tru.Channel) {
			<-ready
			act(NewRand(seed, uint64(seq.Add(1))), "connect", e, ch, 0)
		}
		eps[i] = e
		close(ready)
	}
	chReader := func(e *EP) tru.ReaderFunc {
		return func(ch *tru.Channel, pac *tru.Packet, err error) bool {
			rr := NewRand(seed, uint64(seq.Add(1)))
			mu.Lock()
			own[ch] = true
			if err != nil {
				x := notices[key{e, ch}]
				x[1]++
				notices[key{e, ch}] = x
			}
			mu.Unlock()
			if err != nil {
				act(rr, "channel notice", e, ch, 0)
			} else {
				act(rr, "channel reader", e, ch, 0)
			}
			return rr.Bool(0.5)
		}
	}
	loss := []float64{0, 0, 0.1, 0.3}[r.Intn(4)]
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		if (isData(d.Status) || d.Status == stAck) && d.Copy < 3 && NewRand(seed, hashOf(d.From, d.Status, d.ID, d.Copy)).Bool(loss) {
			return nil
		}
		return []Fate{{Delay: lat}}
	})
	all := map[key]bool{}
	note := func() { // what channels there are
		for _, e := range eps {
			for _, c := range e.Channels() {
				mu.Lock()
				all[key{e, c}] = true
				mu.Unlock()
			}
			for _, v := range e.News() {
				mu.Lock()
				all[key{e, v.Ch}] = true
				mu.Unlock()
			}
		}
	}
	connect := func(i, j int) (ch *tru.Channel, err error) {
		if r.Bool(0.6) {
			ch, err = eps[i].T.Connect(eps[j].Addr, chReader(eps[i]))
		} else {
			ch, err = eps[i].T.Connect(eps[j].Addr)
		}
		if ch != nil {
			mu.Lock()
			all[key{eps[i], ch}] = true
			mu.Unlock()
		}
		return
	}
	// workload: connect, write, punch, end channels from outside
	rounds := r.Range(1, 4)
	for k := 0; k < rounds; k++ {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				if eps[i].Peer(eps[j].Addr) == nil || r.Bool(0.1) {
					t0 := t.Net.Now()
					_, err := connect(i, j)
					mu.Lock()
					excused := mayEnd || closedBy[eps[i]] || closedBy[eps[j]]
					mu.Unlock()
					if err != nil && !excused {
						t.Violate("Connect failed: %v after %v", err, t.Net.Now()-t0)
					}
				}
			}
		}
		note()
		for m := r.Range(3, 15); m > 0; m-- {
			e := eps[r.Intn(n)]
			l := e.Channels()
			if len(l) > 0 {
				c := l[r.Intn(len(l))]
				if r.Bool(0.5) {
					d := delivery(e, c)
					if _, err := c.WriteTo([]byte("workload"), d, r.Dur(10*time.Millisecond, time.Second)); err != nil {
						deliveries.Add(-1)
					}
				} else {
					c.WriteTo([]byte("workload"))
				}
			}
			if r.Bool(0.4) {
				e.T.WriteToPunch([]byte("hello"), eps[r.Intn(n)].Addr)
			}
			if r.Bool(0.3) {
				time.Sleep(r.Dur(0, 20*time.Millisecond))
			}
		}
		time.Sleep(r.Dur(0, 300*time.Millisecond))
		note()
		if r.Bool(0.5) {
			e := eps[r.Intn(n)]
			if l := e.Channels(); len(l) > 0 {
				l[r.Intn(len(l))].Close()
			}
		}
	}
	budget.Add(20)
	time.Sleep(2 * time.Second)
	budget.Store(0)
	time.Sleep(time.Second)
	note()
	if r.Bool(0.3) { // the channels that are left end because the peers fall silent
		budget.Store(60)
		pol := t.Net.Policy()
		t.Net.SetPolicy(func(*Dgram) []Fate { return nil })
		time.Sleep(8 * time.Second)
		budget.Store(0)
		t.Net.SetPolicy(pol)
	}
	time.Sleep(2 * time.Second)
	// the calls returned, soon
	mu.Lock()
	longest := time.Duration(0)
	for _, c := range calls {
		if c.took < 0 {
			t.Violate("%s called from the %s callback did not return within %v", c.name, c.from, t.Net.Now()-c.at)
		} else if c.took > time.Second {
			t.Violate("%s called from the %s callback took %v", c.name, c.from, c.took)
		}
		longest = max(longest, c.took)
		t.Count("from "+c.from, 1)
	}
	for k := range all {
		if k.ch == nil {
			continue
		}
		want := 0
		if k.ch.Destroyed() {
			want = 1
		}
		x := notices[k]
		if x[0] != want {
			t.Violate("the endpoint's reader was told %d times that a channel was destroyed (destroyed: %v)", x[0], want == 1)
		}
		if own[k.ch] && x[1] != want {
			t.Violate("the channel's reader was told %d times that its channel was destroyed (destroyed: %v)", x[1], want == 1)
		}
		t.Count("notices", x[0])
	}
	t.Count("most_calls", len(calls))
	closed := map[*EP]bool{}
	for e := range closedBy {
		closed[e] = true
	}
	mu.Unlock()
	if a, b := deliveries.Load(), delivered.Load(); a != b {
		t.Violate("%d delivery callbacks for %d writes that asked for one", b, a)
	}
	// endpoints that were not closed still serve
	probing.Store(true)
	t.Net.SetPolicy(func(*Dgram) []Fate { return []Fate{{Delay: lat}} })
	for i, e := range eps {
		if closed[e] {
			t.Count("closed_endpoints", 1)
			continue
		}
		probe := t.NewEP(0)
		ch, err := probe.T.Connect(e.Addr)
		if err != nil {
			t.Violate("endpoint %d serves no longer: connecting to it failed: %v", i, err)
			continue
		}
		msg := fmt.Sprint("are you there ", i)
		ch.WriteTo([]byte(msg))
		if !t.WaitFor(time.Second, func() bool { return probe.NMsgs(ch, "ep") > 0 }) || string(probe.Msgs(ch, "ep")[0].Data) != "answer to "+msg {
			t.Violate("endpoint %d serves no longer: a message was not answered", i)
		}
		if c, err := e.T.Connect(probe.Addr); err != nil {
			t.Violate("endpoint %d serves no longer: it can not connect: %v", i, err)
		} else {
			c.Close()
		}
		t.Count("served", 1)
	}
	t.Sig(n, lat, focus, shareCb, len(calls), longest, t.Net.Sends())
}
