package harness

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/teonet-go/tru"
	"github.com/teonet-go/tru/hotkey"
	"github.com/teonet-go/tru/teolog"
)

func init() { scenarios["C17"] = scenario{run: c17, real: true} }

// c17 runs in a binary built with the race detector, which is the oracle: it
// ends the process at the first race. Parts of the workloads use real sockets
// and real time, where nothing but the code under test orders its goroutines.
func c17(t *Trial) {
	c17setup()
	switch k := t.Index % 10; k {
	case 0, 1, 2:
		c17api(t, false)
	case 3:
		t.virtual(func(t *Trial) { c17api(t, true) })
	case 4, 5:
		c17conn(t)
	case 6:
		t.virtual(c17ref)
	case 7:
		c17log(t)
	case 9:
		if t.Index%20 == 9 {
			c17menu(t)
			break
		}
		c17others(t)
	case 8:
		if t.Index%20 == 8 {
			c17burst(t)
			break
		}
		c17others(t)
	}
	t.mu.Lock()
	t.viol, t.incon = nil, ""
	for k := range t.cnt {
		switch k {
		case "menu_calls", "api_calls", "api_msgs", "conn_calls", "conn_msgs", "log_calls", "ref_packets", "scenarios", "connects", "closes", "bursts", "burst_polls":
		default:
			delete(t.cnt, k)
		}
	}
	t.mu.Unlock()
}

// c17others: what the other scenarios do, judged by the race detector only.
func c17others(t *Trial) {
	others := []string{"C01", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C14", "C16", "C20", "C21", "C22", "C23", "C24", "C25"}
	name := others[t.R.Intn(len(others))]
	if sc, ok := scenarios[name]; ok {
		t.Desc("scenario %s", name)
		t.virtual(sc.run)
		t.Count("scenarios", 1)
	}
}

// lossyConn loses datagrams without ordering the goroutines that use it.
type lossyConn struct {
	net.PacketConn
	p float64
}

func (c *lossyConn) WriteTo(b []byte, a net.Addr) (int, error) {
	if len(b) > 3 && b[3] > stDone && rand.Float64() < c.p { // handshakes pass
		return len(b), nil
	}
	return c.PacketConn.WriteTo(b, a)
}

func lossyListen(p float64) func(network, address string) (net.PacketConn, error) {
	return func(network, address string) (net.PacketConn, error) {
		if address == ":0" {
			address = "127.0.0.1:0"
		}
		c, err := net.ListenPacket("udp4", address)
		if err != nil {
			return nil, err
		}
		return &lossyConn{c, p}, nil
	}
}

// c17setup sends what is printed on the standard output to nowhere and gives
// the package its logger, once for the process: both are global variables that
// no goroutine may find changing.
var c17setup = sync.OnceValue(func() *teolog.Teolog {
	nul, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		panic("harness: " + err.Error())
	}
	os.Stdout = nul
	lg := teolog.New()
	tru.VerifListenPacket = lossyListen(0)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ { // the first endpoints of the process, at once
		wg.Add(1)
		go func() {
			defer wg.Done()
			e, err := tru.New(0, lg)
			if err != nil {
				panic("harness: " + err.Error())
			}
			e.Close()
		}()
	}
	wg.Wait()
	tru.VerifListenPacket = nil
	return lg
})

// shuffledConn sends some datagrams after later ones, and loses some.
type shuffledConn struct {
	net.PacketConn
	mu   sync.Mutex
	held []byte
}

func (c *shuffledConn) WriteTo(b []byte, a net.Addr) (int, error) {
	if len(b) > 3 && b[3] > stDone {
		c.mu.Lock()
		h := c.held
		c.held = nil
		if h == nil && rand.Float64() < 0.3 {
			c.held = append([]byte(nil), b...)
			c.mu.Unlock()
			return len(b), nil
		}
		c.mu.Unlock()
		if h != nil {
			defer c.PacketConn.WriteTo(h, a)
		}
		if rand.Float64() < 0.03 {
			return len(b), nil
		}
	}
	return c.PacketConn.WriteTo(b, a)
}

// c17burst: one endpoint writes messages of many parts, with callbacks, as fast
// as it is let, over a connection that changes the order of datagrams, while
// both ends' statistic is read without a pause.
func c17burst(t *Trial) {
	r := t.R
	lg := c17setup()
	tru.VerifListenPacket = func(network, address string) (net.PacketConn, error) {
		c, err := lossyListen(0)(network, address)
		if err != nil {
			return nil, err
		}
		return &shuffledConn{PacketConn: c}, nil
	}
	defer func() { tru.VerifListenPacket = nil }()
	t.Desc("bursts")
	none := func(ch *tru.Channel, pac *tru.Packet, err error) bool { return true }
	mk := func() *tru.Tru {
		e, err := tru.New(0, lg, "None", tru.ReaderFunc(none))
		if err != nil {
			panic("harness: " + err.Error())
		}
		e.SetMaxDataLen(r.Range(30, 60))
		e.SetSendDelay(1)
		return e
	}
	a, b := mk(), mk()
	ch, err := a.Connect(fmt.Sprintf("127.0.0.1:%d", b.LocalPort()), tru.ReaderFunc(none))
	if err != nil {
		a.Close()
		b.Close()
		return
	}
	t.Count("connects", 1)
	var stop atomic.Bool
	var polls, writes atomic.Int64
	var wg sync.WaitGroup
	for _, e := range []*tru.Tru{a, b} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				e.Statistic()
				polls.Add(1)
			}
		}()
	}
	for g := 0; g < 2; g++ {
		rr := NewRand(r.U64())
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				ch.WriteTo(rr.Bytes(rr.Range(100, 1500)), func(pac *tru.Packet, err error) {}, 200*time.Millisecond)
				writes.Add(1)
			}
		}()
	}
	time.Sleep(time.Second)
	stop.Store(true)
	a.Close()
	b.Close()
	wg.Wait()
	t.Count("bursts", int(writes.Load()))
	t.Count("burst_polls", int(polls.Load()))
	t.Sig(t.Seed, writes.Load(), polls.Load())
}

// c17api: every public call from many goroutines at once.
func c17api(t *Trial, virtual bool) {
	r := t.R
	loss := []float64{0, 0.02, 0.1, 0.3}[r.Intn(4)]
	if virtual {
		plan := &FaultPlan{Seed: r.U64(), Loss: loss, Dup: 0.1, Jitter: r.Dur(0, 5*time.Millisecond), Lat: r.Lat(time.Millisecond)}
		t.Net.SetPolicy(plan.Fates)
	} else {
		tru.VerifListenPacket = lossyListen(loss)
		defer func() { tru.VerifListenPacket = nil }()
	}
	lg := c17setup()
	level := []string{"None", "Connect", "Debug", "Debugvvv"}[r.Intn(4)]
	t.Desc("api virtual=%v loss=%.2f level=%s", virtual, loss, level)
	// Real programs redirect the output; a filter keeps nearly everything back here
	filter := teolog.Filter{"no message contains this"}
	params := func() []any { return []any{lg, level, filter} }

	var calls, msgs, connects, closes atomic.Int64
	var eps []*tru.Tru
	var addrs []string
	newEP := func(reader tru.ReaderFunc) *tru.Tru {
		e, err := tru.New(0, append(params(), reader, tru.ConnectFunc(func(ch *tru.Channel, err error) {
			ch.WriteTo([]byte("welcome"))
		}), tru.PunchFunc(func(addr net.Addr, data []byte) {}))...)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return e
	}
	echo := r.Bool(0.5)
	reader := func(ch *tru.Channel, pac *tru.Packet, err error) bool {
		if err != nil {
			return false
		}
		msgs.Add(1)
		_ = pac.ID() + pac.Len() + pac.Status()
		if echo && len(pac.Data()) > 100 {
			ch.WriteTo(pac.Data()[:50])
		}
		return pac.ID()%2 == 0
	}
	nep := r.Range(2, 4)
	for i := 0; i < nep; i++ {
		e := newEP(reader)
		if r.Bool(0.7) {
			e.SetMaxDataLen(r.Range(60, 1400))
		}
		eps = append(eps, e)
		addrs = append(addrs, fmt.Sprintf("127.0.0.1:%d", e.LocalPort()))
	}
	// Channels known to the workload; a channel in use has its own lock-free slot
	var chans [24]atomic.Pointer[tru.Channel]
	var slot atomic.Int64
	connect := func(i, j int) {
		ch, err := eps[i].Connect(addrs[j], reader)
		if err != nil {
			return
		}
		connects.Add(1)
		chans[int(slot.Add(1))%len(chans)].Store(ch)
	}
	for i := 1; i < nep; i++ {
		connect(i, 0)
	}
	var stop atomic.Bool
	var wg sync.WaitGroup
	ops := []func(rr *Rand, e *tru.Tru, ch *tru.Channel){
		func(rr *Rand, e *tru.Tru, ch *tru.Channel) {
			st := e.Statistic()
			_, _ = st.String(rr.Bool(0.5)), st.NumRows()
		},
		func(rr *Rand, e *tru.Tru, ch *tru.Channel) {
			e.ForEachChannel(func(c *tru.Channel) {
				_, _, _, _, _, _ = c.Addr(), c.String(), c.IP(), c.Port(), c.Triptime(), c.ServerMode()
				_ = c.Destroyed()
				if rr.Bool(0.3) {
					chans[rr.Intn(len(chans))].Store(c)
				}
				if rr.Bool(0.2) { // it may be connecting just now
					c.WriteTo([]byte("to whoever is there"))
				}
			})
		},
		func(rr *Rand, e *tru.Tru, ch *tru.Channel) { e.SetSendDelay(rr.Intn(40)) },
		func(rr *Rand, e *tru.Tru, ch *tru.Channel) { e.SetMaxDataLen(rr.Range(40, 1500)) },
		func(rr *Rand, e *tru.Tru, ch *tru.Channel) { e.SetPunchCb(func(addr net.Addr, data []byte) {}) },
		func(rr *Rand, e *tru.Tru, ch *tru.Channel) {
			e.WriteToPunch(rr.Bytes(rr.Intn(100)), addrs[rr.Intn(nep)])
		},
		func(rr *Rand, e *tru.Tru, ch *tru.Channel) { e.WriteTo(rr.Bytes(rr.Intn(100)), addrs[rr.Intn(nep)]) },
		func(rr *Rand, e *tru.Tru, ch *tru.Channel) {
			if rr.Bool(0.1) {
				e.StatisticPrintStop()
			} else if !e.StatisticPrintRunning() {
				e.StatisticPrint()
			}
			e.StatisticMinilog()
		},
		func(rr *Rand, e *tru.Tru, ch *tru.Channel) {
			_, _, _ = e.LocalAddr(), e.LocalPort(), e.Hotkey()
			_ = e.Logo("a", "b")
		},
		func(rr *Rand, e *tru.Tru, ch *tru.Channel) {
			switch rr.Intn(5) {
			case 0:
				lg.SetLevel(rr.Intn(9))
			case 1:
				lg.SetLevel(level)
			case 2:
				lg.SwitchLevel()
			case 3:
				lg.SetFilter(filter)
			default:
				_, _, _, _ = lg.Level(), lg.Filter(), lg.Levels(), lg.String()
			}
		},
		func(rr *Rand, e *tru.Tru, ch *tru.Channel) {
			_, _, _ = ch.Addr(), ch.String(), ch.Triptime()
			_, _ = ch.Destroyed(), ch.ServerMode()
		},
		func(rr *Rand, e *tru.Tru, ch *tru.Channel) {
			if rr.Bool(0.1) {
				ch.Close()
				closes.Add(1)
			}
		},
		func(rr *Rand, e *tru.Tru, ch *tru.Channel) {
			if rr.Bool(0.1) { // another endpoint comes and goes
				x := newEP(reader)
				var w2 sync.WaitGroup
				w2.Add(1)
				to := addrs[rr.Intn(nep)]
				go func() {
					defer w2.Done()
					if c, err := x.Connect(to); err == nil {
						c.WriteTo([]byte("hello"))
					}
				}()
				time.Sleep(rr.Dur(0, 20*time.Millisecond))
				for i := 0; i < 2; i++ {
					w2.Add(1)
					go func() { defer w2.Done(); x.Close() }()
				}
				w2.Wait()
				closes.Add(1)
			}
		},
	}
	write := func(rr *Rand, ch *tru.Channel) {
		var opt []any
		if rr.Bool(0.4) {
			opt = append(opt, func(pac *tru.Packet, err error) { _, _, _ = pac.ID(), pac.Len(), pac.Data() })
			if rr.Bool(0.5) {
				opt = append(opt, rr.Dur(time.Millisecond, 300*time.Millisecond))
			}
		}
		b := rr.Bytes(DrawLen(rr, 4000))
		ch.WriteTo(b, opt...)
		clear(b) // the buffer belongs to the caller again
	}
	ng := r.Range(5, 10)
	for g := 0; g < ng; g++ {
		rr := NewRand(r.U64())
		kind := g % 4
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				i := rr.Intn(nep)
				ch := chans[rr.Intn(len(chans))].Load()
				if ch == nil || ch.Destroyed() && rr.Bool(0.5) {
					if kind == 3 && nep > 1 {
						j := rr.Intn(nep)
						if j != i {
							connect(i, j)
						}
					}
					time.Sleep(50 * time.Microsecond)
					continue
				}
				calls.Add(1)
				if kind < 2 {
					write(rr, ch)
					if virtual {
						time.Sleep(rr.Dur(0, 3*time.Millisecond))
					}
				} else {
					ops[rr.Intn(len(ops))](rr, eps[i], ch)
					time.Sleep(rr.Dur(0, 2*time.Millisecond))
				}
			}
		}()
	}
	func() {
		d := r.Dur(300*time.Millisecond, 1200*time.Millisecond)
		if virtual {
			d *= 3
		}
		time.Sleep(d)
		if r.Bool(0.5) { // endpoints end while everything goes on
			for _, e := range eps {
				e.Close()
			}
			time.Sleep(20 * time.Millisecond)
		}
		stop.Store(true)
		for _, e := range eps {
			e.Close()
		}
		wg.Wait()
		if virtual {
			time.Sleep(6 * time.Second)
		}
	}()
	t.Count("api_calls", int(calls.Load()))
	t.Count("api_msgs", int(msgs.Load()))
	t.Count("connects", int(connects.Load()))
	t.Count("closes", int(closes.Load()))
	t.Sig(t.Seed, calls.Load(), msgs.Load())
}

// c17conn: the net.Listener and net.Conn layer from many goroutines.
func c17conn(t *Trial) {
	r := t.R
	loss := []float64{0, 0.05}[r.Intn(2)]
	tru.VerifListenPacket = lossyListen(loss)
	defer func() { tru.VerifListenPacket = nil }()
	t.Desc("net.Conn loss=%.2f", loss)
	var calls, msgs, closes atomic.Int64
	var wg sync.WaitGroup
	var stop atomic.Bool
	use := func(conn net.Conn, rr *Rand) {
		var w2 sync.WaitGroup
		for k := 0; k < 2; k++ {
			r1, r2 := NewRand(rr.U64()), NewRand(rr.U64())
			w2.Add(2)
			go func() {
				defer w2.Done()
				b := make([]byte, 3000)
				for {
					n := r1.Range(1, len(b))
					m, err := conn.Read(b[:n])
					calls.Add(1)
					clear(b[:m])
					if err != nil && err.Error() == "EOF" {
						msgs.Add(1)
						continue
					}
					if err != nil {
						return
					}
				}
			}()
			go func() {
				defer w2.Done()
				for !stop.Load() {
					b := bytes.Repeat([]byte{7}, r2.Intn(2500))
					if _, err := conn.Write(b); err != nil {
						return
					}
					clear(b)
					calls.Add(1)
					_, _ = conn.LocalAddr(), conn.RemoteAddr()
					time.Sleep(r2.Dur(0, 4*time.Millisecond))
				}
			}()
		}
		time.Sleep(rr.Dur(10*time.Millisecond, 600*time.Millisecond))
		for k := 0; k < 2; k++ {
			w2.Add(1)
			go func() { defer w2.Done(); conn.Close() }()
		}
		w2.Wait()
		closes.Add(1)
	}
	nl := r.Range(1, 3)
	var ls []net.Listener
	var plain []*tru.Tru
	for i := 0; i < nl; i++ {
		l, err := tru.Listen("tru", ":0")
		if err != nil {
			panic("harness: " + err.Error())
		}
		ls = append(ls, l)
		addr := fmt.Sprintf("127.0.0.1:%d", l.Addr().(*net.UDPAddr).Port)
		for k := 0; k < 2; k++ {
			rr := NewRand(r.U64())
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					conn, err := l.Accept()
					if err != nil {
						return
					}
					r3 := NewRand(rr.U64())
					wg.Add(1)
					go func() { defer wg.Done(); use(conn, r3) }()
				}
			}()
		}
		rr, r2 := NewRand(r.U64()), NewRand(r.U64())
		wg.Add(2)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				conn, err := tru.Dial("tru", addr)
				if err != nil {
					return
				}
				use(conn, rr)
			}
		}()
		e, err := tru.New(0)
		if err != nil {
			panic("harness: " + err.Error())
		}
		plain = append(plain, e)
		go func() {
			defer wg.Done()
			ch, err := e.Connect(addr)
			for err == nil && !stop.Load() {
				if _, err = ch.WriteTo(r2.Bytes(r2.Intn(1000))); err != nil && !stop.Load() {
					ch, err = e.Connect(addr)
				}
				time.Sleep(r2.Dur(0, 3*time.Millisecond))
			}
		}()
	}
	time.Sleep(r.Dur(300*time.Millisecond, 1200*time.Millisecond))
	stop.Store(true)
	for _, l := range ls {
		l.Close()
	}
	for _, e := range plain {
		e.Close()
	}
	wg.Wait()
	t.Count("conn_calls", int(calls.Load()))
	t.Count("conn_msgs", int(msgs.Load()))
	t.Count("closes", int(closes.Load()))
	t.Sig(t.Seed, calls.Load(), msgs.Load())
}

// c17ref: a peer of another make, with session keys of any length, that sends
// while the endpoint writes.
func c17ref(t *Trial) {
	r := t.R
	key := r.Bytes([]int{1, 5, 16, 31, 32, 33, 40, 57, 62, 63, 100, 130, 200}[r.Intn(13)])
	t.Desc("reference peer, key of %d bytes", len(key))
	t.Net.SetPolicy(func(*Dgram) []Fate { return []Fate{{}} }) // no latency, so that both ends are busy at the same instant
	s := t.NewEP(0)
	s.T.SetMaxDataLen(500)
	f := t.NewRef(s.Addr)
	defer f.Close()
	if err := f.ConnectKey(key); err != nil {
		return
	}
	ch := s.Peer(f.Addr)
	if ch == nil {
		return
	}
	done := make(chan bool)
	r1, r2 := NewRand(r.U64()), NewRand(r.U64())
	go func() {
		for i := 0; i < 500; i++ {
			ch.WriteTo(r1.Bytes(DrawLen(r1, 1200)))
		}
		done <- true
	}()
	go func() {
		for i := 0; i < 500; i++ {
			f.SendData(stData, uint32(i), r2.Bytes(DrawLen(r2, 400)))
			if r2.Bool(0.2) {
				time.Sleep(r2.Dur(0, 5*time.Millisecond))
			}
		}
		done <- true
	}()
	<-done
	<-done
	time.Sleep(time.Second)
	t.Count("ref_packets", len(f.Log()))
	t.Sig(len(key), len(f.Log()))
}

// c17log: a logger used, set and read from many goroutines.
func c17log(t *Trial) {
	r := t.R
	lg := teolog.New()
	t.Desc("logger")
	ng := r.Range(3, 8)
	var wg sync.WaitGroup
	var calls atomic.Int64
	fl := teolog.Filter{"abc", "x"}
	func() {
		for g := 0; g < ng; g++ {
			rr := NewRand(r.U64())
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 300; i++ {
					calls.Add(1)
					switch rr.Intn(14) {
					case 0:
						lg.SetLevel(rr.Intn(9))
					case 1:
						lg.SetLevel(teolog.LogLevel(rr.Intn(9)))
					case 2:
						lg.SetLevel("debugv")
					case 3:
						lg.SwitchLevel()
					case 4:
						lg.SetFilter("abc || q")
					case 5:
						lg.SetFilter(fl)
					case 6:
						lg.ClearFilter()
					case 7:
						_, _, _, _ = lg.Level(), lg.Filter(), lg.Levels(), lg.String()
					case 8:
						lg.Error.Println("abc", i)
					case 9:
						lg.User.Printf("x %d", i)
					case 10:
						lg.Connect.Print("zzz")
					case 11:
						lg.Debugvvv.Println("q")
					case 12:
						lg.Info.Println("q")
					default:
						_ = teolog.Logfilter("a || b")
					}
				}
			}()
		}
		wg.Wait()
	}()
	t.Count("log_calls", int(calls.Load()))
	t.Sig(t.Seed, ng)
}

// c17menu: a menu that is changed while keys are typed.
func c17menu(t *Trial) {
	r := t.R
	p := openPty(r)
	defer p.close()
	h := hotkey.New()
	var ran atomic.Int64
	end := make(chan struct{})
	h.Add("!", "stop", func(h *hotkey.Hotkey) { h.Stop(); close(end) })
	h.AddUnknown(func(h *hotkey.Hotkey, ch []byte) { ran.Add(1) })
	h.Run()
	var wg sync.WaitGroup
	n := r.Range(20, 60)
	for g := r.Range(2, 4); g > 0; g-- {
		rr := NewRand(r.U64())
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				switch rr.Intn(8) {
				case 0, 1:
					h.Add([]string{"a", "b", "c"}[rr.Intn(3)], "item", func(h *hotkey.Hotkey) { ran.Add(1); h.State() })
				case 2:
					h.AddUnknown(func(h *hotkey.Hotkey, ch []byte) { ran.Add(1); _ = h.String() })
				case 3:
					h.NextKeyAction(func(ch []byte) { h.NextKeyAction(nil) })
				case 4:
					h.SetState(i)
				case 5:
					_, _ = h.State().(int)
				case 6:
					_ = h.String()
				default:
					h.SetStopAction(func() {})
				}
				t.Count("menu_calls", 1)
				time.Sleep(rr.Dur(0, time.Millisecond))
			}
		}()
	}
	for i := 0; i < n; i++ {
		from := ran.Load()
		if !waitReal(keyWait, p.reading) {
			break
		}
		p.master.Write([]byte{"abcxyz"[r.Intn(6)]})
		waitReal(keyWait, func() bool { return ran.Load() > from })
	}
	wg.Wait()
	if waitReal(keyWait, p.reading) {
		p.master.Write([]byte("!"))
		select {
		case <-end:
			time.Sleep(2 * time.Millisecond)
		case <-time.After(keyWait):
		}
	}
	t.Desc("menu")
	t.Sig("menu", n)
}
