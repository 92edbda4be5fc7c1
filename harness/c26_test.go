package harness

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/teonet-go/tru"
	"golang.org/x/sys/unix"
)

func init() { scenarios["C26"] = scenario{run: c26} }

// terminal0 makes file descriptor 0 a terminal of a size; the function undoes it.
func terminal0(w, h int) func() {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|unix.O_NOCTTY, 0)
	if err != nil {
		panic("harness: " + err.Error())
	}
	fd := int(m.Fd())
	if err := unix.IoctlSetPointerInt(fd, unix.TIOCSPTLCK, 0); err != nil {
		panic("harness: " + err.Error())
	}
	n, err := unix.IoctlGetInt(fd, unix.TIOCGPTN)
	if err != nil {
		panic("harness: " + err.Error())
	}
	s, err := syscall.Open(fmt.Sprintf("/dev/pts/%d", n), syscall.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic("harness: " + err.Error())
	}
	unix.IoctlSetWinsize(s, unix.TIOCSWINSZ, &unix.Winsize{Col: uint16(w), Row: uint16(h)})
	old, err := syscall.Dup(0)
	if err != nil {
		panic("harness: " + err.Error())
	}
	syscall.Dup3(s, 0, 0)
	return func() {
		syscall.Dup3(old, 0, 0)
		syscall.Close(old)
		syscall.Close(s)
		m.Close()
	}
}

var (
	msgRow  = regexp.MustCompile(`^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d+) (.*)$`)
	titleRe = regexp.MustCompile(`TRU (\S+), RCH: (\d+), SCH: (\d+), run time: (\S+)`)
)

// c26: the statistics an endpoint prints while it runs, as a terminal shows them.
func c26(t *Trial) {
	r := t.R
	w, h := r.Range(140, 220), 400
	if r.Bool(0.2) {
		w = r.Range(20, 100) // lines are cut
	}
	tty := r.Bool(0.6)
	long := r.Bool(0.06)
	if tty {
		h = r.Range(12, 60)
		if long && r.Bool(0.4) {
			h = r.Range(200, 330)
		}
		defer terminal0(w, h)()
	}
	out := OpenStdout()
	defer out.Close()
	next := func() string {
		synctest.Wait() // nobody is in the middle of a write
		return out.Next()
	}
	atStart := r.Bool(0.25)
	start := time.Now()
	var ps []any
	if atStart {
		ps = append(ps, tru.Stat(true))
	}
	e := t.NewEP(0, ps...)
	peers := []*EP{}
	for i := r.Range(1, 4); i > 0; i-- {
		peers = append(peers, t.NewEP(0))
	}
	t.Desc("terminal=%v %dx%d peers=%d atStart=%v long=%v", tty, w, h, len(peers), atStart, long)
	scr := NewScreen(w, h)
	// the model
	type event struct {
		addr string
		at   time.Time
	}
	var events []event
	open := map[string]bool{}
	running, minilog := atStart, false
	nextFrame := time.Now().Add(500 * time.Millisecond)
	if !atStart {
		nextFrame = time.Time{}
	}
	frames, quietFrames, shownMsgs, missed := 0, 0, 0, 0
	frame := func(text string, quiet tru.ChannelsStatistic, now time.Time) {
		frames++
		x, y := r.Intn(w), r.Intn(h)
		scr.x, scr.y = x, y
		scr.Fill('\u2592') // what was there before
		sets := scr.regionSets
		scr.Write(text)
		if scr.Unknown != "" {
			t.Inconclusive("unknown terminal sequence %s", scr.Unknown)
			return
		}
		if !scr.wrap {
			t.Violate("after a frame the terminal no longer wraps lines")
		}
		if scr.x != x || scr.y != y {
			t.Violate("after a frame the cursor is at %d,%d, it was at %d,%d", scr.x, scr.y, x, y)
		}
		if scr.regionSets == sets {
			t.Violate("a frame sets no scroll region")
			return
		}
		var rows []string
		for i := 0; i < scr.top; i++ {
			rows = append(rows, scr.Row(i))
		}
		show := func() string { return "\n" + strings.Join(rows, "\n") }
		tab := 0
		if n := len(open); n > 0 {
			tab = n + 4
			if n > 1 {
				tab++
			}
		}
		if tab+6 > h { // does not fit
			return
		}
		if strings.Contains(strings.Join(rows, "\n"), "\u2592") {
			t.Violate("old text is left within a frame:%s", show())
			return
		}
		for i := scr.top; i < h; i++ {
			if scr.Row(i) != strings.Repeat("\u2592", w) {
				t.Violate("a frame overwrites row %d, which belongs to the region that scrolls (from row %d on): %q", i+1, scr.top+1, scr.Row(i))
				return
			}
		}
		if w < 140 {
			if len(rows) == 0 || !strings.HasPrefix(rows[0], ("TRU " + e.Addr)[:min(w-1, 4+len(e.Addr))]) {
				t.Violate("a frame does not begin with the endpoint's address:%s", show())
			}
			return
		}
		m := titleRe.FindStringSubmatch(strings.Join(rows[:min(1, len(rows))], ""))
		if m == nil || m[1] != e.Addr {
			t.Violate("a frame does not begin with the endpoint's address:%s", show())
			return
		}
		if d, err := time.ParseDuration(m[4]); err != nil || d < now.Sub(start)-time.Second || d > now.Sub(start)+time.Second {
			t.Violate("run time %s is shown, it is %v", m[4], now.Sub(start))
		}
		// the table
		var addrs, want []string
		var head []string
		vals := map[string][]string{}
		var msgs []string
		var total []string
		for i, l := range rows[1:] {
			f := strings.Fields(l)
			switch {
			case len(f) == 0:
			case msgRow.MatchString(l):
				msgs = append(msgs, l)
			case f[0] == "ADDR":
				head = f
			case strings.HasPrefix(f[0], "[") || strings.Contains(f[0], ":"):
				addrs = append(addrs, f[0])
				vals[f[0]] = f
			case len(f) == 11:
				total = f
			case strings.Trim(l, "┈-─") == "":
			default:
				t.Violate("row %d of a frame belongs to nothing: %q%s", i+2, l, show())
			}
		}
		if quiet != nil {
			quietFrames++
			for _, s := range quiet {
				want = append(want, s.Addr)
			}
			sort.Strings(want)
			if fmt.Sprint(addrs) != fmt.Sprint(want) {
				t.Violate("a frame lists %v, open are %v:%s", addrs, want, show())
				return
			}
			names := []string{"ADDR", "SEND", "SSEC", "RSND", "ACK", "ACKD", "RECV", "RSEC", "DROP", "SQ", "RQ", "RTA", "DELAY", "TT"}
			sum := make([]int64, 12)
			for _, s := range quiet {
				v := []any{s.Addr, s.Send, s.Ssec, s.Rsnd, s.Ack, s.AckD, s.Recv, s.Rsec, s.Drop, s.SQ, s.RQ, s.RTA, s.Delay, s.TT}
				if fmt.Sprint(head) != fmt.Sprint(names) || len(vals[s.Addr]) != len(names) {
					t.Violate("a frame's table has the columns %v and the row %v:%s", head, vals[s.Addr], show())
					return
				}
				for k := range names {
					wnt := fmt.Sprint(v[k])
					if k == 13 {
						wnt = fmt.Sprintf("%.3f", s.TT)
					}
					if vals[s.Addr][k] != wnt {
						t.Violate("a frame shows %s = %s for %s, the statistics say %s:%s", names[k], vals[s.Addr][k], s.Addr, wnt, show())
					}
					if k > 0 && k < 12 {
						x, _ := strconv.ParseInt(fmt.Sprint(v[k]), 10, 64)
						sum[k] += x
					}
				}
			}
			if len(quiet) > 1 {
				if len(total) != 11 {
					t.Violate("a frame with %d channels has no totals:%s", len(quiet), show())
				} else {
					for k := 1; k < 12; k++ {
						if total[k-1] != fmt.Sprint(sum[k]) {
							t.Violate("a frame shows the total %s of %s, it is %d:%s", total[k-1], names[k], sum[k], show())
						}
					}
				}
			}
			// the events
			if !minilog {
				if len(msgs) > 0 {
					t.Violate("events are shown though they are switched off:%s", show())
				}
				return
			}
			last := events
			if len(last) > 256 {
				last = last[len(last)-256:]
			}
			if len(msgs) > len(last) {
				t.Violate("%d events are shown, there were %d:%s", len(msgs), len(last), show())
				return
			}
			if room := h - tab - 6; len(msgs) < len(last) && (!tty || len(msgs) < room) {
				t.Violate("%d of %d events are shown, though %d rows are left (terminal: %v):%s", len(msgs), len(last), room-len(msgs), tty, show())
				return
			}
			missed += len(events) - len(msgs)
			last = last[len(last)-len(msgs):]
			for i, l := range msgs {
				m := msgRow.FindStringSubmatch(l)
				at, err := time.ParseInLocation("2006-01-02 15:04:05.000000", m[1], time.Local)
				if d := at.Sub(last[i].at); err != nil || d > time.Second || d < -time.Second {
					t.Violate("event %d is shown with the time %s, it was at %v:%s", i, m[1], last[i].at, show())
					return
				}
				if !strings.Contains(m[2]+" ", last[i].addr+" ") {
					t.Violate("event %d is shown as %q, it was one of %s:%s", i, m[2], last[i].addr, show())
					return
				}
				shownMsgs++
			}
		}
	}
	anyTime := false
	// let time pass and judge what is printed
	watch := func(d time.Duration, quiet bool) {
		end := time.Now().Add(d)
		for time.Now().Before(end) && !t.Violated() {
			step := min(end.Sub(time.Now()), 50*time.Millisecond)
			var before tru.ChannelsStatistic
			if quiet {
				before = e.T.Statistic()
			}
			time.Sleep(step)
			now := time.Now()
			s := next()
			if running != e.T.StatisticPrintRunning() {
				t.Violate("StatisticPrintRunning answers %v", !running)
			}
			k := strings.Count(s, "TRU "+e.Addr)
			due := running && !now.Before(nextFrame)
			late := running && now.Sub(nextFrame) > 150*time.Millisecond
			switch {
			case s == "" && late:
				t.Violate("no frame was printed for %v", now.Sub(nextFrame)+500*time.Millisecond)
			case s == "":
			case !running:
				t.Violate("printed though printing statistics is off: %q", s)
			case k != 1:
				t.Violate("%d frames were printed within %v: %q", k, step, s)
			case !due && !anyTime && nextFrame.Sub(now) > 150*time.Millisecond:
				t.Violate("a frame was printed %v too early", nextFrame.Sub(now))
			default:
				var st tru.ChannelsStatistic
				if quiet {
					st = e.T.Statistic()
					if fmt.Sprint(st) != fmt.Sprint(before) {
						st = nil
					} else if st == nil {
						st = tru.ChannelsStatistic{}
					}
				}
				frame(s, st, now)
				anyTime = false
				nextFrame = now.Add(500 * time.Millisecond)
			}
		}
	}
	gone := func(addr string) bool { return e.Peer(addr) == nil }
	join := func(p *EP) {
		before := len(p.News()) + len(e.News())
		var err error
		if r.Bool(0.5) {
			_, err = e.T.Connect(p.Addr)
		} else {
			_, err = p.T.Connect(e.Addr)
		}
		ok := err == nil && t.WaitFor(time.Second, func() bool { return len(p.News())+len(e.News()) > before && !gone(p.Addr) })
		if !ok {
			t.Violate("Connect over a fault-free network failed: %v", err)
			return
		}
		if open[p.Addr] { // replaced
			events = append(events, event{p.Addr, time.Now()})
		}
		open[p.Addr] = true
		events = append(events, event{p.Addr, time.Now()})
	}
	leave := func(p *EP) {
		a := e.Peer(p.Addr)
		if b := p.Peer(e.Addr); b != nil && r.Bool(0.5) {
			b.Close()
		} else if a != nil {
			a.Close()
		}
		t.WaitFor(time.Second, func() bool { return gone(p.Addr) })
		time.Sleep(3 * time.Millisecond)
		delete(open, p.Addr)
		events = append(events, event{p.Addr, time.Now()})
	}
	drain := func() { // judge what came while an operation took its time
		s := next()
		if s == "" {
			return
		}
		if !running {
			t.Violate("printed though printing statistics is off: %q", s)
		}
		nextFrame = time.Now().Add(500 * time.Millisecond)
		if k := strings.Count(s, "TRU "+e.Addr); k > 1 {
			t.Violate("%d frames were printed during a short operation", k)
		}
	}
	if long {
		for i := r.Range(250, 320); i > 0 && !t.Violated(); i-- {
			p := peers[r.Intn(len(peers))]
			if open[p.Addr] {
				leave(p)
			} else {
				join(p)
			}
		}
		next()
		nextFrame = time.Now().Add(500 * time.Millisecond)
		anyTime = true // it is not known when the last frame was printed
	}
	n := r.Range(8, 25)
	for i := 0; i < n && !t.Violated() && t.incon == ""; i++ {
		p := peers[r.Intn(len(peers))]
		switch r.Intn(10) {
		case 9: // a peer that is never heard of again
			if r.Bool(0.5) {
				continue
			}
			f := t.NewRef(e.Addr)
			f.Send(Pack(stConnect, 0, hsPack(string(Msg(1, 2, uint32(i), 36)), pubBytes(&f.key.PublicKey))))
			f.Close()
			time.Sleep(10 * time.Millisecond)
			if gone(f.Addr) {
				t.Violate("a connect datagram made no channel")
				break
			}
			events = append(events, event{f.Addr, time.Now()})
			open[f.Addr] = true
			drain()
			watch(r.Dur(time.Second, 5500*time.Millisecond), true)
			t.WaitFor(8*time.Second, func() bool { return gone(f.Addr) })
			time.Sleep(3 * time.Millisecond)
			next()
			nextFrame = time.Now().Add(500 * time.Millisecond)
			anyTime = true
			delete(open, f.Addr)
			events = append(events, event{f.Addr, time.Now()})
			t.Count("never_connected", 1)
		case 0, 1:
			join(p)
			drain()
		case 2:
			if open[p.Addr] {
				leave(p)
				drain()
			}
		case 3: // traffic
			if ch := e.Peer(p.Addr); open[p.Addr] && ch != nil {
				for k := r.Range(1, 30); k > 0; k-- {
					if r.Bool(0.5) {
						ch.WriteTo(r.Bytes(r.Range(1, 300)))
					} else if b := p.Peer(e.Addr); b != nil {
						b.WriteTo(r.Bytes(r.Range(1, 300)))
					}
				}
				drain()
			}
		case 4, 5:
			drain() // a frame of this instant
			e.T.StatisticPrint()
			if running {
				t.Count("restarted", 1)
			}
			running = true
			nextFrame = time.Now().Add(500 * time.Millisecond)
		case 6:
			if r.Bool(0.5) {
				if running {
					watch(time.Until(nextFrame)-10*time.Millisecond, false)
				}
				drain()
				e.T.StatisticPrintStop()
				time.Sleep(time.Millisecond)
				s := next()
				if running {
					scr.top, scr.bot = 3, h-1
					scr.Write(s)
					if scr.top != 0 || scr.bot != h-1 {
						t.Violate("after printing was stopped the terminal still has a scroll region")
					}
				}
				if strings.Contains(s, "TRU "+e.Addr) {
					t.Violate("a frame was printed though printing was stopped")
				}
				running = false
			}
		default:
			minilog = !minilog
			if e.T.StatisticMinilog() != minilog {
				t.Violate("StatisticMinilog answers %v", !minilog)
			}
		}
		watch(r.Dur(100*time.Millisecond, 2500*time.Millisecond), r.Bool(0.8))
	}
	e.T.Close()
	next()
	time.Sleep(3 * time.Second)
	if s := next(); s != "" {
		t.Violate("printed after the endpoint was closed: %q", s)
	}
	if e.T.StatisticPrintRunning() {
		t.Violate("printing statistics still runs after the endpoint was closed")
	}
	t.Count("frames", frames)
	t.Count("frames_compared", quietFrames)
	t.Count("events_shown", shownMsgs)
	t.Count("events_beyond", missed)
	t.Sig(n, w, h, tty, frames, len(events))
}
