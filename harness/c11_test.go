package harness

import (
	"bytes"
	"fmt"
	"sync"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C11"] = scenario{run: c11, real: true} }

// c11: the codec's exported methods against an independent encoder. Together the
// trials cover all 2^20 numbers and all 256 statuses exhaustively, and payload
// lengths and malformed inputs by sampling.
func c11(t *Trial) {
	r := t.R
	const parts = 64
	part := t.Index % parts
	defer func() {
		if e := recover(); e != nil {
			t.Violate("the codec panicked: %v", e)
		}
	}()
	check := func(st uint8, id uint32, payload []byte) bool {
		in := append([]byte{}, payload...)
		b, err := new(tru.Packet).SetStatus(int(st)).SetID(int(id)).SetData(payload).MarshalBinary()
		if err != nil {
			t.Violate("encoding status %d number %d with %d bytes failed: %v", st, id, len(payload), err)
			return false
		}
		if want := Pack(st, id, payload); !bytes.Equal(b, want) {
			t.Violate("status %d number %d with %d bytes is encoded as %s, documented is %s", st, id, len(payload), short(b), short(want))
			return false
		}
		if !bytes.Equal(in, payload) {
			t.Violate("encoding changed the payload")
			return false
		}
		keep := append([]byte{}, b...)
		p := new(tru.Packet)
		if err := p.UnmarshalBinary(b); err != nil {
			t.Violate("decoding %s failed: %v", short(b), err)
			return false
		}
		if p.Status() != int(st) || p.ID() != int(id) || !bytes.Equal(p.Data(), payload) {
			t.Violate("status %d number %d payload %s decodes as status %d number %d payload %s", st, id, short(payload), p.Status(), p.ID(), short(p.Data()))
			return false
		}
		if !bytes.Equal(keep, b) {
			t.Violate("decoding changed its input")
			return false
		}
		return true
	}
	t.Desc("numbers %d of %d, statuses, lengths, malformed inputs", part, parts)
	n := 0
	// all numbers
	for id := uint32(part); id < idLimit; id += parts {
		if !check(uint8(mix(uint64(id))>>13), id, nil) {
			return
		}
		n++
	}
	// all statuses with edge and drawn numbers
	for st := 0; st < 256; st++ {
		for _, id := range []uint32{0, 1, 255, 256, 65535, 65536, idLimit/2 - 1, idLimit / 2, idLimit - 1, uint32(r.Intn(idLimit))} {
			if !check(uint8(st), id, r.Bytes(r.Intn(80))) {
				return
			}
			n++
		}
	}
	// payload lengths
	for k := 0; k < 40; k++ {
		l := r.Intn(2000)
		if k < 2 {
			l = r.Range(2000, 65503)
		}
		if k == 2 {
			l = 65503
		}
		if !check(uint8(r.Intn(256)), uint32(r.Intn(idLimit)), r.Bytes(l)) {
			return
		}
		n++
	}
	// malformed: too short
	for l := 0; l < 4; l++ {
		for k := 0; k < 40; k++ {
			b := r.Bytes(l)
			if k == 0 {
				b = make([]byte, l)
			}
			p := new(tru.Packet)
			if err := p.UnmarshalBinary(b); err == nil {
				t.Violate("decoding %d bytes (%x) reports no error", l, b)
				return
			}
			n++
		}
	}
	if err := new(tru.Packet).UnmarshalBinary(nil); err == nil {
		t.Violate("decoding nil reports no error")
	}
	// everything of at least 4 bytes is accepted
	for k := 0; k < 400; k++ {
		b := r.Bytes(4 + r.Intn(100))
		if k%7 == 0 {
			b = b[:4]
		}
		p := new(tru.Packet)
		if err := p.UnmarshalBinary(b); err != nil {
			t.Violate("decoding %s failed: %v", short(b), err)
			return
		}
		id := (uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16) & (idLimit - 1)
		if p.Status() != int(b[3]) || p.ID() != int(id) || !bytes.Equal(p.Data(), b[4:]) {
			t.Violate("%s decodes as status %d number %d payload %s", short(b), p.Status(), p.ID(), short(p.Data()))
			return
		}
		n++
	}
	// encodings stay what they were while others are made, also by several goroutines
	type enc struct {
		st   uint8
		id   uint32
		data []byte
		b    []byte
	}
	var encs [4][]enc
	var wg sync.WaitGroup
	for g := range encs {
		g, seed := g, r.U64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := uint64(0); k < 300; k++ {
				m := mix(seed + k)
				e := enc{st: uint8(m), id: uint32(m>>8) & (idLimit - 1), data: make([]byte, int(m>>32)%200)}
				if k%50 == 0 {
					e.data = make([]byte, int(m>>32)%9000)
				}
				for i := range e.data {
					e.data[i] = byte(m >> (i % 56))
				}
				e.b, _ = new(tru.Packet).SetStatus(int(e.st)).SetID(int(e.id)).SetData(e.data).MarshalBinary()
				encs[g] = append(encs[g], e)
			}
		}()
	}
	wg.Wait()
	used := new(tru.Packet) // decoded into again and again
	for g := range encs {
		for _, e := range encs[g] {
			if want := Pack(e.st, e.id, e.data); !bytes.Equal(e.b, want) {
				t.Violate("status %d number %d with %d bytes was encoded and later became %s, documented is %s", e.st, e.id, len(e.data), short(e.b), short(want))
				return
			}
			if err := used.UnmarshalBinary(e.b); err != nil || used.Status() != int(e.st) || used.ID() != int(e.id) || !bytes.Equal(used.Data(), e.data) {
				t.Violate("status %d number %d payload %s decodes in a used Packet as status %d number %d payload %s (%v)",
					e.st, e.id, short(e.data), used.Status(), used.ID(), short(used.Data()), err)
				return
			}
			n++
		}
	}
	// packets decoded from different buffers do not affect each other
	var pacs []*tru.Packet
	for _, e := range encs[0] {
		p := new(tru.Packet)
		p.UnmarshalBinary(e.b)
		pacs = append(pacs, p)
	}
	for i, e := range encs[0] {
		p := pacs[i]
		if p.Status() != int(e.st) || p.ID() != int(e.id) || !bytes.Equal(p.Data(), e.data) {
			t.Violate("a decoded packet changed while others were decoded: status %d number %d payload %s is now status %d number %d payload %s",
				e.st, e.id, short(e.data), p.Status(), p.ID(), short(p.Data()))
			return
		}
		n++
	}
	t.Count("packets", n)
	t.Sig(fmt.Sprint("part", part, r.U64()))
}
