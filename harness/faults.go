package harness

import (
	"fmt"
	"time"
)

// FaultPlan is a network behaviour drawn at random. Every decision about a
// datagram is a function of the plan's seed and of the datagram's identity
// (addresses, header, copy number), so that it does not depend on the order in
// which goroutines happened to run.
type FaultPlan struct {
	Name    string
	Seed    uint64
	Lat     time.Duration
	Jitter  time.Duration
	Loss    float64
	AckLoss float64
	Dup     float64
	DupLate time.Duration
	FirstK  int // lose the first K copies of hashed data packets
	KShare  float64
	Black   [][2]time.Duration // total outages
	Until   time.Duration      // faults stop at this time (0: never)
	Keep    bool               // handshake is left alone
	OneWay  string             // restrict faults to datagrams from this address
}

func (p *FaultPlan) String() string {
	return fmt.Sprintf("%s lat=%v jitter=%v loss=%.2f ackloss=%.2f dup=%.2f/%v first=%d/%.2f black=%v until=%v oneway=%s",
		p.Name, p.Lat, p.Jitter, p.Loss, p.AckLoss, p.Dup, p.DupLate, p.FirstK, p.KShare, p.Black, p.Until, p.OneWay)
}

// Fates implements Policy.
func (p *FaultPlan) Fates(d *Dgram) []Fate {
	if p.Until > 0 && d.T >= p.Until || p.Keep && d.Status < stData || p.OneWay != "" && d.From != p.OneWay {
		return []Fate{{Delay: p.Lat}}
	}
	for _, b := range p.Black {
		if d.T >= b[0] && d.T < b[1] {
			return nil
		}
	}
	r := NewRand(p.Seed, hashOf(d.From, d.To, d.Status, d.ID, d.Copy))
	if d.Status == stPing || d.Status == stPong {
		r = NewRand(p.Seed, hashOf(d.From, d.Status, d.T))
	}
	loss := p.Loss
	if d.Status == stAck {
		loss += p.AckLoss
	}
	if r.Bool(loss) {
		return nil
	}
	if p.FirstK > 0 && isData(d.Status) && d.Copy < p.FirstK && float64(hashOf(p.Seed, d.ID)%1000) < p.KShare*1000 {
		return nil
	}
	f := []Fate{{Delay: p.Lat + r.Dur(0, p.Jitter)}}
	for r.Bool(p.Dup) && len(f) < 4 {
		f = append(f, Fate{Delay: p.Lat + r.Dur(0, p.Jitter) + r.Dur(0, p.DupLate)})
	}
	return f
}

// DrawFaults draws a fault plan; until is when the faults must have stopped.
func DrawFaults(r *Rand, until time.Duration) *FaultPlan {
	p := &FaultPlan{Seed: r.U64(), Lat: r.Lat(5 * time.Millisecond), Until: until, Keep: true}
	switch r.Intn(9) {
	case 0:
		p.Name = "clean"
	case 1:
		p.Name = "loss"
		p.Loss = 0.05 + 0.45*r.Float()
	case 2:
		p.Name = "dup"
		p.Dup = 0.1 + 0.6*r.Float()
		p.DupLate = r.Dur(0, 400*time.Millisecond)
	case 3:
		p.Name = "reorder"
		p.Jitter = r.Dur(time.Millisecond, 60*time.Millisecond)
	case 4:
		p.Name = "ackloss"
		p.AckLoss = 0.2 + 0.6*r.Float()
	case 5:
		p.Name = "firstcopies"
		p.FirstK = r.Range(1, 4)
		p.KShare = 0.05 + 0.9*r.Float()
	case 6:
		p.Name = "outage"
		a := r.Dur(0, 200*time.Millisecond)
		p.Black = [][2]time.Duration{{a, a + r.Dur(100*time.Millisecond, 2*time.Second)}}
		p.Loss = 0.2 * r.Float()
	default:
		p.Name = "mixed"
		p.Loss = 0.3 * r.Float()
		p.AckLoss = 0.3 * r.Float()
		p.Dup = 0.5 * r.Float()
		p.DupLate = r.Dur(0, 600*time.Millisecond)
		p.Jitter = r.Dur(0, 80*time.Millisecond)
		if r.Bool(0.3) {
			p.FirstK = r.Range(1, 2)
			p.KShare = 0.3
		}
	}
	return p
}

// Lens draws message lengths with weight on the boundaries of the code paths.
func DrawLen(r *Rand, max int) int {
	edge := []int{0, 1, 2, 15, 16, 17, 19, 20, 21, 31, 32, 33, 63, 64, 65, 66, 92, 93, 127, 128, 129, 511, 512, 513, 1024}
	var n int
	switch r.Intn(4) {
	case 0:
		n = edge[r.Intn(len(edge))]
	case 1:
		n = r.Intn(64)
	case 2:
		n = r.Intn(2000)
	default:
		n = r.Intn(max + 1)
	}
	if n > max {
		n = max
	}
	return n
}
