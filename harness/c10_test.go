package harness

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C10"] = scenario{run: c10} }

func pemOf(der []byte, typ string) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der})
}

var (
	oddOnce sync.Once
	oddKeys [][]byte
)

// oddPubs are public keys that are not what a peer should send.
func oddPubs() [][]byte {
	oddOnce.Do(func() {
		k := &refKey(0).PublicKey
		add := func(p *rsa.PublicKey) {
			d, err := x509.MarshalPKIXPublicKey(p)
			if err == nil {
				oddKeys = append(oddKeys, pemOf(d, "RSA PUBLIC KEY"))
			}
		}
		for _, bits := range []int{2, 8, 16, 64, 256, 500, 512, 520, 527, 528, 530, 640} {
			n := new(big.Int).Lsh(big.NewInt(1), uint(bits))
			add(&rsa.PublicKey{N: n.Sub(n, big.NewInt(1)), E: 3})
		}
		add(&rsa.PublicKey{N: k.N, E: 1})
		add(&rsa.PublicKey{N: k.N, E: 2})
		add(&rsa.PublicKey{N: k.N, E: 1<<31 - 1})
		add(&rsa.PublicKey{N: new(big.Int).Lsh(k.N, 1), E: 65537})
		add(&rsa.PublicKey{N: new(big.Int).Lsh(big.NewInt(1), 9000), E: 65537})
		ek, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		d, _ := x509.MarshalPKIXPublicKey(&ek.PublicKey)
		oddKeys = append(oddKeys, pemOf(d, "RSA PUBLIC KEY"))
		edp, _, _ := ed25519.GenerateKey(crand.Reader)
		d, _ = x509.MarshalPKIXPublicKey(edp)
		oddKeys = append(oddKeys, pemOf(d, "PUBLIC KEY"))
		oddKeys = append(oddKeys, pemOf(nil, "RSA PUBLIC KEY"), pemOf([]byte{0x30, 0x80}, "X"), []byte("-----BEGIN RSA PUBLIC KEY-----\n"), nil, pubBytes(k)[:100])
	})
	return oddKeys
}

// hostile makes one datagram of any kind.
func hostile(r *Rand, sniffed [][]byte) []byte {
	switch r.Intn(12) {
	case 0:
		return r.Bytes(r.Intn(12))
	case 1:
		return r.Bytes(r.Intn(300))
	case 2:
		return r.Bytes(r.Range(1000, 65507))
	case 3: // every status
		return Pack(uint8(r.Intn(256)), uint32(r.U64()), r.Bytes(r.Intn(200)))
	case 4:
		return Pack(uint8(r.Intn(10)), uint32(r.Intn(20)), r.Bytes(r.Intn(100)))
	case 5: // handshake with wrong lengths
		b := r.Bytes(r.Intn(60))
		if len(b) > 0 {
			b[0] = byte([]int{0, 1, len(b) - 1, len(b), 36, 255}[r.Intn(6)])
		}
		return Pack(uint8(r.Intn(4)), 0, b)
	case 6, 7: // connect with a strange key
		ks := oddPubs()
		return Pack(stConnect, 0, hsPack(fmt.Sprint(r.U64()), ks[r.Intn(len(ks))]))
	case 8: // connect with a good key, abandoned
		return Pack(stConnect, 0, hsPack(string(r.Bytes(r.Intn(256))), pubBytes(&refKey(0).PublicKey)))
	case 9: // answers nobody asked for
		return Pack(uint8(1+r.Intn(3)), 0, hsPack("6ba7b810-9dad-11d1-80b4-00c04fd430c8", r.Bytes(128*r.Intn(4)+r.Intn(2))))
	case 10:
		if len(sniffed) > 0 {
			return sniffed[r.Intn(len(sniffed))]
		}
	}
	if len(sniffed) > 0 {
		b := append([]byte{}, sniffed[r.Intn(len(sniffed))]...)
		for k := r.Range(1, 4); k > 0 && len(b) > 0; k-- {
			switch r.Intn(3) {
			case 0:
				b[r.Intn(len(b))] ^= 1 << r.Intn(8)
			case 1:
				b = b[:r.Intn(len(b)+1)]
			case 2:
				b = append(b, r.Bytes(r.Intn(5))...)
			}
		}
		return b
	}
	return r.Bytes(4)
}

// c10: an endpoint with busy peers is flooded from addresses without a channel,
// by a peer that completes the handshake and then misbehaves, by hostile servers
// it connects to, and from the forged address of one sacrificed peer.
func c10(t *Trial) {
	r := t.R
	if t.Index%16 == 9 {
		c10costly(t)
		return
	}
	hub := t.NewEP(0)
	var punches int
	hub.T.SetPunchCb(nil)
	if r.Bool(0.5) {
		hub.T.SetPunchCb(nil)
	} else {
		hub.T.SetPunchCb(e10punch(&punches))
	}
	max := r.Range(60, 400)
	hub.T.SetMaxDataLen(max)
	type peer struct {
		ep       *EP
		pch, hch *tru.Channel
		out, in  Flow
	}
	var ps []*peer
	for i := 0; i < 3; i++ {
		p := &peer{ep: t.NewEP(0)}
		p.ep.T.SetMaxDataLen(max)
		if i == 1 {
			p.hch, p.pch = t.Pair(p.ep, hub)
		} else {
			p.pch, p.hch = t.Pair(hub, p.ep)
		}
		if p.pch == nil {
			return
		}
		ps = append(ps, p)
	}
	victim := ps[2]
	news0 := len(hub.News())
	var smu sync.Mutex
	var sniffed [][]byte
	t.Net.OnSend(func(d *Dgram) {
		if !d.Raw && d.To == hub.Addr && d.Status != stClientAnswer {
			smu.Lock()
			if len(sniffed) < 60 {
				sniffed = append(sniffed, d.Data)
			} else {
				sniffed[d.N%60] = d.Data
			}
			smu.Unlock()
		}
	})
	n := r.Range(80, 400)
	forged := r.Bool(0.6)
	srvHostile := r.Bool(0.5)
	member := r.Bool(0.6)
	t.Desc("hostile=%d forged=%v hostileServer=%v hostileMember=%v max=%d", n, forged, srvHostile, member, max)
	var wg sync.WaitGroup
	stop := make(chan bool)
	for i, p := range ps[:2] {
		for dir := 0; dir < 2; dir++ {
			f, ch := &p.out, p.hch
			if dir == 1 {
				f, ch = &p.in, p.pch
			}
			rr := NewRand(r.U64())
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; ; k++ {
					select {
					case <-stop:
						return
					default:
					}
					if err := f.Write(ch, Msg(uint32(i), uint32(dir), uint32(k), hdrLen+rr.Intn(max*2))); err != nil {
						t.Violate("a write on an established channel failed during the flood: %v", err)
						return
					}
					time.Sleep(rr.Dur(time.Millisecond, 40*time.Millisecond))
				}
			}()
		}
	}
	time.Sleep(20 * time.Millisecond)
	hostiles := 0
	rr := NewRand(r.U64())
	pick := func() []byte {
		smu.Lock()
		defer smu.Unlock()
		return hostile(rr, sniffed)
	}
	wg.Add(1)
	go func() { // the flood
		defer wg.Done()
		for i := 0; i < n; i++ {
			from := fmt.Sprintf("10.%d.%d.%d:%d", rr.Intn(3), rr.Intn(3), rr.Intn(4), 1+rr.Intn(3))
			b := pick()
			if forged && rr.Bool(0.3) {
				from = victim.ep.Addr
			}
			t.Net.Inject(from, hub.Addr, b)
			hostiles++
			if rr.Bool(0.3) {
				time.Sleep(rr.Dur(0, 5*time.Millisecond))
			}
		}
	}()
	if member { // a peer with a proper session
		wg.Add(1)
		key := r.Bytes([]int{1, 16, 32, 32, 200}[r.Intn(5)])
		r2 := NewRand(r.U64())
		m := t.NewRef(hub.Addr)
		defer m.Close()
		go func() {
			defer wg.Done()
			if err := m.ConnectKey(key); err != nil {
				t.Violate("a peer could not connect during the flood: %v", err)
				return
			}
			for i := 0; i < 60; i++ {
				switch r2.Intn(6) {
				case 0: // long payloads that do not decrypt
					m.Send(Pack(stData, uint32(r2.Intn(30)), r2.Bytes(r2.Range(65, 120))))
				case 1: // numbers far ahead and far behind
					m.SendData(stData, uint32(r2.U64())%idLimit, nil)
				case 2:
					m.SendData(stDataNext, uint32(r2.Intn(20)), r2.Bytes(r2.Intn(100)))
				case 3:
					m.Send(Pack(stAck, uint32(r2.U64()), nil))
				case 4:
					m.Send(Pack(uint8(r2.Intn(256)&^8), uint32(r2.Intn(40)), r2.Bytes(r2.Intn(130))))
				default:
					m.Send(Pack(stPing, uint32(r2.U64()), r2.Bytes(r2.Intn(100))))
				}
			}
		}()
	}
	if srvHostile { // a server that answers nonsense
		wg.Add(1)
		r2 := NewRand(r.U64())
		pc, err := t.Net.Listen("udp", ":0")
		if err != nil {
			panic("harness: " + err.Error())
		}
		sa := pc.LocalAddr()
		go func() {
			buf := make([]byte, 70000)
			for {
				k, addr, err := pc.ReadFrom(buf)
				if err != nil {
					return
				}
				if k < 5 || buf[3] > 3 {
					continue
				}
				uuid, pub, _ := hsUnpack(buf[4:k])
				for j := r2.Range(1, 5); j > 0; j-- {
					var b []byte
					switch r2.Intn(6) {
					case 0:
						b = Pack(stServerAnswer, 0, hsPack(uuid, r2.Bytes(128*r2.Intn(4))))
					case 1:
						ks := oddPubs()
						if pk, err := parsePub(pub); err == nil {
							b = Pack(stServerAnswer, 0, hsPack(uuid, rsaSeal(pk, ks[r2.Intn(len(ks))])))
						}
					case 2:
						b = Pack(stDone, 0, hsPack(uuid, nil))
					case 3:
						b = Pack(stClientAnswer, 0, hsPack(uuid, r2.Bytes(128)))
					case 4:
						b = Pack(stServerAnswer, 0, hsPack(uuid, nil))
					case 5:
						b = Pack(stConnect, 0, hsPack(uuid, pub))
					}
					pc.WriteTo(b, addr)
				}
			}
		}()
		go func() {
			defer wg.Done()
			defer pc.Close()
			at := t.Net.Now()
			_, _ = hub.T.Connect(sa.String())
			if d := t.Net.Now() - at; d > 5200*time.Millisecond {
				t.Violate("Connect to a hostile server returned after %v", d)
			}
		}()
	}
	go func() { time.Sleep(700 * time.Millisecond); close(stop) }()
	wg.Wait()
	t.WaitFor(3*time.Second, func() bool {
		for _, p := range ps[:2] {
			if hub.NMsgs(p.hch, "ep") < p.in.N() || p.ep.NMsgs(p.pch, "ep") < p.out.N() {
				return false
			}
		}
		return true
	})
	time.Sleep(14 * time.Second) // everything half-open must have gone
	okAddr := map[string]bool{victim.ep.Addr: true}
	for i, p := range ps[:2] {
		okAddr[p.ep.Addr] = true
		in, out := hub.Msgs(p.hch, "ep"), p.ep.Msgs(p.pch, "ep")
		p.in.CheckPrefix(t, fmt.Sprintf("peer %d to hub", i), in)
		p.out.CheckPrefix(t, fmt.Sprintf("hub to peer %d", i), out)
		if len(in) < p.in.N() || len(out) < p.out.N() {
			t.Violate("during the flood %d of %d and %d of %d messages of an established channel were handed over", len(in), p.in.N(), len(out), p.out.N())
		}
		if p.hch.Destroyed() || p.pch.Destroyed() {
			t.Violate("the flood ended the established channel of peer %d", i)
		}
		t.Count("msgs", len(in)+len(out))
	}
	memberAddr := ""
	for _, v := range hub.News()[news0:] {
		a := v.Ch.Addr().String()
		if !okAddr[a] && memberAddr == "" && member {
			memberAddr = a
		} else if a != victim.ep.Addr || !forged {
			t.Violate("the application was told of a connection from %s, which never completed a handshake", a)
		}
	}
	for _, v := range hub.Msgs(nil, "ep") {
		if !okAddr[v.Addr] && v.Addr != memberAddr || v.Addr == victim.ep.Addr && !forged {
			t.Violate("a reader was called with data from %s, which is not connected: %s", v.Addr, short(v.Data))
			break
		}
	}
	for _, ch := range hub.Channels() {
		if a := ch.Addr().String(); !okAddr[a] {
			t.Violate("a channel to %s is left behind", a)
			break
		}
	}
	// the endpoint still serves newcomers
	if !t.Violated() {
		x := t.NewEP(0)
		if xch, hch := t.Pair(hub, x); xch != nil {
			xch.WriteTo([]byte("hi"))
			if !t.WaitFor(2*time.Second, func() bool { return hub.NMsgs(hch, "ep") == 1 }) {
				t.Violate("after the flood a new connection does not work")
			}
		}
	}
	t.Count("hostile_datagrams", hostiles)
	t.Sig(n, hub.NEvs(), t.Net.Sends())
}

// cpuTime is the processor time this process has used.
func cpuTime() time.Duration {
	var u syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &u); err != nil {
		panic("harness: " + err.Error())
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// hugePub is a public key with a modulus of so many bits.
func hugePub(r *Rand, bits int) []byte {
	n := r.Bytes(bits / 8)
	n[0] |= 0x80
	n[len(n)-1] |= 1
	e := []int{3, 65537, 1<<31 - 1}[r.Intn(3)]
	d, err := x509.MarshalPKIXPublicKey(&rsa.PublicKey{N: new(big.Int).SetBytes(n), E: e})
	if err != nil {
		panic("harness: " + err.Error())
	}
	return pemOf(d, "RSA PUBLIC KEY")
}

// c10costly sends single datagrams that are made to be as much work as possible:
// none may keep the endpoint from serving for seconds (of processor time; in
// virtual time work takes none).
func c10costly(t *Trial) {
	r := t.R
	hub, x := t.NewEP(0), t.NewEP(0)
	xch, hch := t.Pair(hub, x)
	if xch == nil {
		return
	}
	const limit = 3 * time.Second
	n := 0
	cost := func(what string, send func()) {
		time.Sleep(5 * time.Millisecond)
		synctest.Wait()
		c0 := cpuTime()
		send()
		time.Sleep(5 * time.Millisecond)
		xch.WriteTo([]byte("served"))
		time.Sleep(5 * time.Millisecond)
		c := cpuTime() - c0
		t.Count("costly_datagrams", 1)
		if c > limit {
			t.Violate("one datagram (%s) kept the endpoint from serving its peers for %.1f s", what, c.Seconds())
		}
		if n++; hub.NMsgs(hch, "ep") != n {
			t.Violate("after one datagram (%s) the endpoint handed over %d of %d messages", what, hub.NMsgs(hch, "ep"), n)
		}
	}
	if t.Index%160 == 25 {
		// what strangers sent before must not make the next datagram dearer
		const part, parts = 2000, 15
		t.Desc("%d connects from strangers", part*parts)
		var cs []time.Duration
		bad := r.Bool(0.7) // connects that fail at once, or half-open ones
		for k := 0; k < parts; k++ {
			c0 := cpuTime()
			for i := 0; i < part; i++ {
				key := []byte("x")
				if !bad && i%40 == 0 {
					key = pubBytes(&refKey(0).PublicKey)
				}
				t.Net.Inject(fmt.Sprintf("10.0.%d.%d:7", r.Intn(200), i%7), hub.Addr, Pack(stConnect, 0, hsPack(fmt.Sprint(k, "-", i), key)))
				time.Sleep(200 * time.Microsecond)
			}
			cs = append(cs, cpuTime()-c0)
		}
		first, last := min(cs[0], cs[1], cs[2]), min(cs[parts-1], cs[parts-2], cs[parts-3])
		if 2*last > 5*first && last > 800*time.Millisecond {
			t.Violate("the first %d connects of strangers took %v of processor time, after %d of them the same number takes %v", part, first, part*parts, last)
		}
		t.Desc("%d connects from strangers: %v, %v", part*parts, first, last)
		t.Count("flood_connects", part*parts)
		cost("ping after the flood", func() { t.Net.Inject("10.0.0.1:1", hub.Addr, Pack(stPing, 0, nil)) })
		time.Sleep(8 * time.Second)
		if n := len(hub.Channels()); n != 1 {
			t.Violate("%d channels are left behind", n-1)
		}
		return
	}
	from := fmt.Sprintf("10.0.0.%d:7", r.Range(1, 200))
	switch kind := r.Intn(4); kind {
	case 0, 1: // a connect with a very long key
		bits := 8 * []int{256, 1025, r.Range(1026, 20000), 47500}[r.Intn(4)]
		t.Desc("connect with a key of %d bits", bits)
		b := Pack(stConnect, 0, hsPack(fmt.Sprint(r.U64()), hugePub(r, bits)))
		cost(fmt.Sprintf("connect with a key of %d bits", bits), func() { t.Net.Inject(from, hub.Addr, b) })
	case 2: // a client answer of full length
		f := t.NewRef(hub.Addr)
		defer f.Close()
		k := r.Range(400, 510)
		t.Desc("client answer of %d blocks", k)
		uuid := fmt.Sprint(r.U64())
		f.Send(Pack(stConnect, 0, hsPack(uuid, pubBytes(&f.key.PublicKey))))
		p, ok := f.wait(stServerAnswer, 0, 3*time.Second)
		if !ok {
			t.Violate("no server answer")
			return
		}
		_, enc, _ := hsUnpack(p.Raw[4:])
		pb, err := rsaOpen(f.key, enc)
		if err != nil {
			t.Violate("server answer cannot be decrypted: %v", err)
			return
		}
		pub, err := parsePub(pb)
		if err != nil {
			t.Violate("server answer carries no public key: %v", err)
			return
		}
		blk := rsaSeal(pub, r.Bytes(62))
		var all []byte
		for i := 0; i < k; i++ {
			all = append(all, blk...)
		}
		b := Pack(stClientAnswer, 0, hsPack(uuid, all))
		cost(fmt.Sprintf("client answer of %d blocks", k), func() { f.Send(b) })
	case 3: // a server whose answer carries a very long key
		bits := 8 * []int{1025, r.Range(1026, 20000), 21000}[r.Intn(3)]
		t.Desc("server answer with a key of %d bits", bits)
		pc, err := t.Net.Listen("udp", ":0")
		if err != nil {
			panic("harness: " + err.Error())
		}
		defer pc.Close()
		pub := hugePub(r, bits)
		got := make(chan []byte, 1)
		go func() {
			buf := make([]byte, 70000)
			k, _, err := pc.ReadFrom(buf)
			if err == nil && k > 4 && buf[3] == stConnect {
				got <- append([]byte{}, buf[4:k]...)
			}
		}()
		done := make(chan bool)
		go func() {
			at := t.Net.Now()
			if ch, err := hub.T.Connect(pc.LocalAddr().String()); err == nil || ch != nil {
				t.Violate("Connect to a server that sent no more than a key answered %v, %v", ch, err)
			}
			if d := t.Net.Now() - at; d > 5200*time.Millisecond {
				t.Violate("Connect to a hostile server returned after %v", d)
			}
			close(done)
		}()
		var body []byte
		select {
		case body = <-got:
		case <-time.After(time.Second):
			t.Violate("Connect sends no connect datagram")
			return
		}
		uuid, cpub, err := hsUnpack(body)
		if err != nil {
			t.Violate("Connect datagram does not have the documented form: %v", err)
			return
		}
		pk, err := parsePub(cpub)
		if err != nil {
			t.Violate("Connect datagram carries no public key: %v", err)
			return
		}
		b := Pack(stServerAnswer, 0, hsPack(uuid, rsaSeal(pk, pub)))
		cost(fmt.Sprintf("server answer with a key of %d bits", bits), func() { pc.WriteTo(b, udp(hub.Addr)) })
		<-done
	}
	time.Sleep(8 * time.Second)
	if n := len(hub.Channels()); n != 1 {
		t.Violate("%d channels are left behind", n-1)
	}
	t.Sig(n, t.Net.Sends(), hub.NEvs())
}

func e10punch(n *int) tru.PunchFunc { return func(net.Addr, []byte) { *n++ } }
