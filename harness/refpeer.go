package harness

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"net"
	"sync"
	"time"
)

// An implementation of the protocol that shares no code with the one under
// test. It is written from the protocol's documentation: 4-byte header (status
// in the top byte, 20-bit number), four-step handshake with RSA-OAEP(SHA-256)
// in 62-byte pieces, per-packet key hash(session key | number), XOR up to 64
// bytes and AES-256-GCM with a 12-byte nonce in front above.

// Pack encodes a packet.
func Pack(st uint8, id uint32, payload []byte) []byte {
	b := make([]byte, 4, 4+len(payload))
	b[0], b[1], b[2], b[3] = byte(id), byte(id>>8), byte(id>>16)&0x0f, st
	return append(b, payload...)
}

func packetKey(sess []byte, id uint32, n int) []byte {
	k := make([]byte, 0, len(sess)+4)
	k = append(append(k, sess...), byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
	switch {
	case n <= 16:
		h := md5.Sum(k)
		return h[:]
	case n <= 20:
		h := sha1.Sum(k)
		return h[:]
	case n <= 32:
		h := sha256.Sum256(k)
		return h[:]
	case n <= 64:
		h := sha512.Sum512(k)
		return h[:]
	}
	h := sha256.Sum256(k)
	return h[:]
}

// SealData encrypts a payload.
func SealData(sess []byte, id uint32, plain []byte) []byte {
	key := packetKey(sess, id, len(plain))
	if len(plain) <= 64 {
		out := append([]byte{}, plain...)
		for i := range out {
			out[i] ^= key[i%len(key)]
		}
		return out
	}
	bl, _ := aes.NewCipher(key)
	g, _ := cipher.NewGCM(bl)
	nonce := make([]byte, 12)
	crand.Read(nonce)
	return g.Seal(nonce, nonce, plain, nil)
}

// OpenData decrypts a payload.
func OpenData(sess []byte, id uint32, data []byte) ([]byte, error) {
	key := packetKey(sess, id, len(data))
	if len(data) <= 64 {
		out := append([]byte{}, data...)
		for i := range out {
			out[i] ^= key[i%len(key)]
		}
		return out, nil
	}
	bl, _ := aes.NewCipher(key)
	g, _ := cipher.NewGCM(bl)
	return g.Open(nil, data[:12], data[12:], nil)
}

func hsPack(uuid string, data []byte) []byte {
	b := append([]byte{byte(len(uuid))}, uuid...)
	return append(b, data...)
}

func hsUnpack(b []byte) (uuid string, data []byte, err error) {
	if len(b) < 1 || len(b) < 1+int(b[0]) {
		return "", nil, fmt.Errorf("handshake payload of %d bytes is too short", len(b))
	}
	return string(b[1 : 1+b[0]]), b[1+b[0]:], nil
}

func pubBytes(k *rsa.PublicKey) []byte {
	d, err := x509.MarshalPKIXPublicKey(k)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: d})
}

func parsePub(b []byte) (*rsa.PublicKey, error) {
	bl, _ := pem.Decode(b)
	if bl == nil {
		return nil, fmt.Errorf("no PEM block")
	}
	k, err := x509.ParsePKIXPublicKey(bl.Bytes)
	if err != nil {
		return nil, err
	}
	p, ok := k.(*rsa.PublicKey)
	if !ok {
		return nil, fmt.Errorf("not an RSA key")
	}
	return p, nil
}

func rsaSeal(k *rsa.PublicKey, in []byte) (out []byte) {
	for len(in) > 0 {
		n := min(62, len(in))
		d, err := rsa.EncryptOAEP(sha256.New(), crand.Reader, k, in[:n], nil)
		if err != nil {
			panic("harness: " + err.Error())
		}
		out = append(out, d...)
		in = in[n:]
	}
	return
}

func rsaOpen(k *rsa.PrivateKey, in []byte) (out []byte, err error) {
	for len(in) > 0 {
		n := min(k.Size(), len(in))
		d, err := rsa.DecryptOAEP(sha256.New(), nil, k, in[:n], nil)
		if err != nil {
			return nil, err
		}
		out = append(out, d...)
		in = in[n:]
	}
	return
}

var (
	refKeysMu sync.Mutex
	refKeys   []*rsa.PrivateKey
)

// refKey returns one of a few keys made once per process.
func refKey(i int) *rsa.PrivateKey {
	refKeysMu.Lock()
	defer refKeysMu.Unlock()
	for len(refKeys) <= i {
		k, err := rsa.GenerateKey(crand.Reader, 1024)
		if err != nil {
			panic("harness: " + err.Error())
		}
		refKeys = append(refKeys, k)
	}
	return refKeys[i]
}

// RPkt is a packet the reference peer received.
type RPkt struct {
	T     time.Duration
	St    uint8
	ID    uint32
	Raw   []byte
	Plain []byte // decrypted payload of a data packet
	Err   error  // decryption error
}

// Ref is a scripted peer. It answers pings; everything else is up to the hooks.
type Ref struct {
	t    *Trial
	r    *Rand // used by Connect only
	pc   net.PacketConn
	Addr string
	Peer string // the endpoint under test
	key  *rsa.PrivateKey
	mu   sync.Mutex
	sess []byte
	uuid string
	got  []RPkt
	done bool
	// OnPkt decides about a received data packet: true acknowledges it.
	OnPkt func(p *RPkt) bool
	// Answer makes the datagrams that answer a connect datagram, if set.
	Answer   func(uuid string, k *rsa.PublicKey) [][]byte
	NoPong   bool
	Quiet    bool // keep no log
	acks     map[uint32]int
	accepted chan bool
}

// NewRef opens a reference peer that talks to the endpoint at peer.
func (t *Trial) NewRef(peer string) *Ref { return t.NewRefAt(0, peer) }

// NewRefAt opens a reference peer on a given port.
func (t *Trial) NewRefAt(port int, peer string) *Ref {
	pc, err := t.Net.Listen("udp", fmt.Sprintf(":%d", port))
	if err != nil {
		panic("harness: " + err.Error())
	}
	f := &Ref{t: t, r: NewRand(t.R.U64()), pc: pc, Addr: pc.LocalAddr().String(), Peer: peer, key: refKey(0), acks: map[uint32]int{}, accepted: make(chan bool, 1)}
	go f.loop()
	return f
}

// Close stops the peer without telling anybody.
func (f *Ref) Close() { f.pc.Close() }

// Send sends a raw datagram.
func (f *Ref) Send(b []byte) { f.pc.WriteTo(b, udp(f.Peer)) }

// SendData sends an encrypted data packet.
func (f *Ref) SendData(st uint8, id uint32, plain []byte) {
	f.Send(Pack(st, id, SealData(f.Sess(), id, plain)))
}

// Sess is the session key.
func (f *Ref) Sess() []byte { f.mu.Lock(); defer f.mu.Unlock(); return f.sess }

// Log returns what was received so far.
func (f *Ref) Log() []RPkt { f.mu.Lock(); defer f.mu.Unlock(); return append([]RPkt(nil), f.got...) }

// Acks tells how often each number was acknowledged to us.
func (f *Ref) Acks(id uint32) int { f.mu.Lock(); defer f.mu.Unlock(); return f.acks[id] }

func (f *Ref) loop() {
	buf := make([]byte, 70000)
	for {
		n, addr, err := f.pc.ReadFrom(buf)
		if err != nil {
			return
		}
		if n < 4 || addr.String() != f.Peer {
			continue
		}
		b := append([]byte(nil), buf[:n]...)
		p := RPkt{T: f.t.Net.Now(), St: b[3], ID: (uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16) & (idLimit - 1), Raw: b}
		body := b[4:]
		ack := false
		switch {
		case p.St == stConnect:
			f.serveConnect(body)
		case p.St == stClientAnswer:
			f.serveClientAnswer(body)
		case p.St == stPing && !f.NoPong:
			f.Send(Pack(stPong, 0, nil))
		case isData(p.St):
			p.Plain, p.Err = OpenData(f.Sess(), p.ID, body)
			if f.OnPkt != nil {
				ack = f.OnPkt(&p)
			} else {
				ack = p.Err == nil
			}
		}
		f.mu.Lock()
		if p.St == stAck {
			f.acks[p.ID]++
		}
		if !f.Quiet || p.St < stData {
			f.got = append(f.got, p)
		}
		f.mu.Unlock()
		if ack {
			f.Send(Pack(stAck, p.ID, nil))
		}
	}
}

// serveConnect plays the server's first step.
func (f *Ref) serveConnect(body []byte) {
	uuid, pub, err := hsUnpack(body)
	if err != nil {
		f.t.Violate("Connect datagram does not have the documented form: %v", err)
		return
	}
	k, err := parsePub(pub)
	if err != nil {
		f.t.Violate("Connect datagram carries no public key: %v", err)
		return
	}
	f.mu.Lock()
	f.uuid = uuid
	f.mu.Unlock()
	if f.Answer != nil {
		for _, b := range f.Answer(uuid, k) {
			f.Send(b)
		}
		return
	}
	f.Send(Pack(stServerAnswer, 0, hsPack(uuid, rsaSeal(k, pubBytes(&f.key.PublicKey)))))
}

// serveClientAnswer plays the server's second step.
func (f *Ref) serveClientAnswer(body []byte) {
	uuid, data, err := hsUnpack(body)
	if err != nil {
		f.t.Violate("client answer does not have the documented form: %v", err)
		return
	}
	sess, err := rsaOpen(f.key, data)
	if err != nil {
		f.t.Violate("client answer cannot be decrypted with the server's key: %v", err)
		return
	}
	f.mu.Lock()
	if uuid != f.uuid {
		f.mu.Unlock()
		return
	}
	f.sess = sess
	f.mu.Unlock()
	f.Send(Pack(stDone, 0, hsPack(uuid, nil)))
	select {
	case f.accepted <- true:
	default:
	}
}

// wait looks for the first received packet of a status after position from.
func (f *Ref) wait(st uint8, from int, limit time.Duration) (p RPkt, ok bool) {
	f.t.WaitFor(limit, func() bool {
		f.mu.Lock()
		defer f.mu.Unlock()
		for i := from; i < len(f.got); i++ {
			if f.got[i].St == st {
				p, ok = f.got[i], true
				return true
			}
		}
		return false
	})
	return
}

// Connect plays the client's side of the handshake.
func (f *Ref) Connect() error { return f.ConnectKey(f.r.Bytes(32)) }

// ConnectKey connects with a given session key.
func (f *Ref) ConnectKey(sess []byte) error {
	return f.connectSealed(sess, func(pub *rsa.PublicKey) []byte { return rsaSeal(pub, sess) })
}

// connectSealed connects, with what seal makes in place of the sealed key.
func (f *Ref) connectSealed(sess []byte, seal func(pub *rsa.PublicKey) []byte) error {
	uuid := fmt.Sprintf("%x-ref-%d", f.r.U64(), f.t.Index)
	f.mu.Lock()
	from := len(f.got)
	f.mu.Unlock()
	f.Send(Pack(stConnect, 0, hsPack(uuid, pubBytes(&f.key.PublicKey))))
	p, ok := f.wait(stServerAnswer, from, 3*time.Second)
	if !ok {
		return fmt.Errorf("no server answer")
	}
	u, enc, err := hsUnpack(p.Raw[4:])
	if err != nil {
		return err
	}
	if u != uuid {
		return fmt.Errorf("server answer carries uuid %q, want %q", u, uuid)
	}
	pb, err := rsaOpen(f.key, enc)
	if err != nil {
		return fmt.Errorf("server answer cannot be decrypted: %v", err)
	}
	pub, err := parsePub(pb)
	if err != nil {
		return fmt.Errorf("server answer carries no public key: %v", err)
	}
	f.mu.Lock()
	f.sess = sess
	f.mu.Unlock()
	f.Send(Pack(stClientAnswer, 0, hsPack(uuid, seal(pub))))
	p, ok = f.wait(stDone, from, 3*time.Second)
	if !ok {
		return fmt.Errorf("no connect done")
	}
	if u, _, err = hsUnpack(p.Raw[4:]); err != nil || u != uuid {
		return fmt.Errorf("connect done carries uuid %q (%v), want %q", u, err, uuid)
	}
	return nil
}
