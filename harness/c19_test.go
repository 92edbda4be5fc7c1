package harness

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/teonet-go/tru/hotkey"
	"github.com/teonet-go/tru/term"
	"golang.org/x/sys/unix"
)

func init() { scenarios["C19"] = scenario{run: c19, real: true} }

// pty is a pseudo-terminal whose slave is the process's standard input.
type pty struct {
	master, slave *os.File
	old           *os.File
	init          unix.Termios
}

func openPty(r *Rand) *pty {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|unix.O_NOCTTY, 0)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if err := unix.IoctlSetPointerInt(int(m.Fd()), unix.TIOCSPTLCK, 0); err != nil {
		panic("harness: " + err.Error())
	}
	n, err := unix.IoctlGetInt(int(m.Fd()), unix.TIOCGPTN)
	if err != nil {
		panic("harness: " + err.Error())
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|unix.O_NOCTTY, 0)
	if err != nil {
		panic("harness: " + err.Error())
	}
	p := &pty{master: m, slave: s, old: os.Stdin}
	// an initial mode: any combination of the flags Getch touches, and others it must leave alone
	a, err := unix.IoctlGetTermios(int(s.Fd()), unix.TCGETS)
	if err != nil {
		panic("harness: " + err.Error())
	}
	for _, f := range []uint32{unix.ECHO, unix.ICANON, unix.ISIG, unix.IEXTEN, unix.ECHOE, unix.ECHOK, unix.NOFLSH} {
		if r.Bool(0.7) {
			a.Lflag |= f
		} else {
			a.Lflag &^= f
		}
	}
	a.Iflag &^= unix.ICRNL | unix.IXON | unix.INLCR | unix.IGNCR | unix.ISTRIP
	if r.Bool(0.5) {
		a.Iflag |= unix.IXANY
	} else {
		a.Iflag &^= unix.IXANY
	}
	if r.Bool(0.5) {
		a.Oflag |= unix.OPOST
	} else {
		a.Oflag &^= unix.OPOST
	}
	a.Cc[unix.VMIN] = byte(r.Intn(4))
	a.Cc[unix.VTIME] = byte(r.Intn(20))
	if err := unix.IoctlSetTermios(int(s.Fd()), unix.TCSETS, a); err != nil {
		panic("harness: " + err.Error())
	}
	p.init = p.mode()
	os.Stdin = s
	// what the terminal echoes is read away
	go func() {
		b := make([]byte, 4096)
		for {
			if _, err := m.Read(b); err != nil {
				return
			}
		}
	}()
	return p
}

func (p *pty) mode() unix.Termios {
	a, err := unix.IoctlGetTermios(int(p.slave.Fd()), unix.TCGETS)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return *a
}

// reading tells whether somebody has put the terminal in the mode for reading a key.
func (p *pty) reading() bool {
	a := p.mode()
	return a.Lflag&(unix.ECHO|unix.ICANON|unix.ISIG) == 0 && a.Cc[unix.VMIN] == 1 && a.Cc[unix.VTIME] == 0
}

// mark changes a part of the mode that means nothing while somebody reads a key
// (and puts it back when the key is read), so that nextRead can tell this read
// from the next one; only to be called while somebody reads.
func (p *pty) mark() {
	a := p.mode()
	a.Cc[unix.VREPRINT] = p.init.Cc[unix.VREPRINT] ^ 0x41
	unix.IoctlSetTermios(int(p.slave.Fd()), unix.TCSETS, &a)
}

// nextRead waits until the read that was marked is over and the next one waits.
func (p *pty) nextRead() bool {
	read := func() bool { return p.mode().Cc[unix.VREPRINT] == p.init.Cc[unix.VREPRINT] && p.reading() }
	if waitReal(keyWait, read) {
		return true
	}
	if p.reading() && p.pending() == 0 { // the mark is kept by who reads: there is no telling
		a := p.mode()
		a.Cc[unix.VREPRINT] = p.init.Cc[unix.VREPRINT]
		unix.IoctlSetTermios(int(p.slave.Fd()), unix.TCSETS, &a)
		return true
	}
	return false
}

func (p *pty) pending() int {
	n, _ := unix.IoctlGetInt(int(p.slave.Fd()), unix.TIOCINQ)
	return n
}

func (p *pty) close() {
	os.Stdin = p.old
	p.slave.Close()
	p.master.Close()
}

func modeDiff(a, b unix.Termios) string {
	return fmt.Sprintf("iflag %x/%x oflag %x/%x cflag %x/%x lflag %x/%x cc %v/%v", a.Iflag, b.Iflag, a.Oflag, b.Oflag, a.Cflag, b.Cflag, a.Lflag, b.Lflag, a.Cc, b.Cc)
}

func waitReal(limit time.Duration, cond func() bool) bool {
	end := time.Now().Add(limit)
	for !cond() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(200 * time.Microsecond)
	}
	return true
}

const keyWait = 10 * time.Second

// c19: hotkey menus on a pseudo-terminal.
func c19(t *Trial) {
	r := t.R
	p := openPty(r)
	defer p.close()
	if r.Intn(3) == 0 {
		c19getch(t, p)
		return
	}
	keys := []string{"a", "b", "c", "x", "Z", "?", "0", " ", "й", "\x1b[D", "\x1b[A", "\x03", "\x04", "\x0c", "\r", "\n", "~", "\x7f", "ab", "é"}
	h := hotkey.New()
	var mu sync.Mutex
	var log []string
	note := func(f string, a ...any) {
		mu.Lock()
		log = append(log, fmt.Sprintf(f, a...))
		mu.Unlock()
		if m := p.mode(); m != p.init {
			t.Violate("while an action ran, the terminal was not in the mode it had before: %s", modeDiff(p.init, m))
		}
	}
	logLen := func() int { mu.Lock(); defer mu.Unlock(); return len(log) }
	// the model of the menu
	type itm struct {
		n      int
		keys   []string
		name   string
		action bool
		desc   string
	}
	table := map[string]*itm{}
	var items []*itm
	next := ""                     // pending next-key action
	var nextSets map[string]string // what an action sets when it runs: item or next action -> next action
	nextSets = map[string]string{}
	unknown := "default"
	nexts := 0
	var mkNext func(name string) func(ch []byte)
	mkNext = func(name string) func(ch []byte) {
		return func(ch []byte) {
			// the pending action is gone before another may be set
			if s := nextSets[name]; s == "clear" {
				h.NextKeyAction(nil)
			} else if s != "" {
				h.NextKeyAction(mkNext(s))
			}
			note("next %s %q", name, ch)
		}
	}
	newNext := func() string { nexts++; return fmt.Sprintf("n%d", nexts) }
	add := func() {
		it := &itm{n: len(items), action: r.Bool(0.85)}
		it.desc = fmt.Sprintf("item number %d.", it.n)
		if r.Bool(0.3) { // several items of the same description
			it.desc = fmt.Sprintf("one of several %d.", r.Intn(2))
		}
		k := r.Range(1, 3)
		for i := 0; i < k; i++ {
			it.keys = append(it.keys, keys[r.Intn(len(keys))])
		}
		name := fmt.Sprintf("item %d", it.n)
		if it.action && r.Bool(0.3) {
			nextSets[name] = newNext()
			if r.Bool(0.3) {
				nextSets[nextSets[name]] = newNext()
			}
			if r.Bool(0.1) {
				nextSets[name] = "clear"
			}
		}
		var act func(*hotkey.Hotkey)
		if it.action {
			act = func(hh *hotkey.Hotkey) {
				if hh != h {
					t.Violate("an action got another menu than its own")
				}
				if s := nextSets[name]; s == "clear" {
					h.NextKeyAction(nil)
				} else if s != "" {
					h.NextKeyAction(mkNext(s))
				}
				note("%s", name)
			}
		}
		var arg any
		switch r.Intn(5) {
		case 0:
			it.keys = it.keys[:1]
			arg = []byte(it.keys[0])
		case 1:
			it.keys = it.keys[:1]
			arg = it.keys[0]
		case 2:
			arg = it.keys
		case 3:
			it.keys = it.keys[:1]
			it.name = fmt.Sprintf("Key%d", it.n)
			arg = hotkey.KeyCode{Code: []byte(it.keys[0]), Name: it.name}
		default:
			var ks []hotkey.KeyCode
			for _, k := range it.keys {
				ks = append(ks, hotkey.KeyCode{Code: []byte(k), Name: "N" + fmt.Sprint(it.n)})
			}
			arg = ks
		}
		h.Add(arg, it.desc, act)
		items = append(items, it)
		for _, k := range it.keys {
			table[k] = it
		}
	}
	n := r.Range(1, 12)
	for i := 0; i < n; i++ {
		add()
	}
	setUnknown := func() {
		switch r.Intn(4) {
		case 0:
			unknown = "none"
			h.AddUnknown(nil)
		default:
			unknown = fmt.Sprintf("u%d", r.Intn(1000))
			u := unknown
			h.AddUnknown(func(hh *hotkey.Hotkey, ch []byte) { note("unknown %s %q", u, ch) })
		}
	}
	// the default action for unknown keys prints; its output is not wanted here
	setUnknown()
	t.Desc("items=%d unknown=%s mode lflag=%x cc=%d/%d", n, unknown, p.init.Lflag, p.init.Cc[unix.VMIN], p.init.Cc[unix.VTIME])
	help := func() {
		s := h.String()
		lo, hi, lines := map[string]int{}, map[string]int{}, map[string][]string{}
		for _, it := range items {
			act := 0
			for _, k := range it.keys {
				if table[k] == it {
					act++
				}
			}
			hi[it.desc]++
			if act > 0 && !strings.Contains(strings.Join(it.keys, ""), "\n") {
				lo[it.desc]++
			}
		}
		for d := range hi {
			for _, l := range strings.Split(s, "\n") {
				if strings.HasSuffix(l, " "+d) {
					lines[d] = append(lines[d], l)
				}
			}
			if c := len(lines[d]); c < lo[d] || c > hi[d] {
				t.Violate("the help lists %d of %d reachable (%d added) items described as %q:\n%s", c, lo[d], hi[d], d, s)
			}
			t.Count("help_items", len(lines[d]))
		}
		for _, it := range items {
			if c := len(lines[it.desc]); c == hi[it.desc] && it.name != "" && !strings.Contains(strings.Join(lines[it.desc], "\n"), it.name) {
				t.Violate("no help line of item %d shows its key's name: %q", it.n, lines[it.desc])
			}
		}
	}
	help()
	h.Run()
	typed := 0
	// expected effect of a key: the log lines it must produce
	expect := func(k string) (want []string) {
		if next != "" {
			nx := next
			next = ""
			if s := nextSets[nx]; s != "" && s != "clear" {
				next = s
			}
			want = append(want, fmt.Sprintf("next %s %q", nx, k))
		}
		it := table[k]
		switch {
		case it == nil && unknown != "none":
			want = append(want, fmt.Sprintf("unknown %s %q", unknown, k))
		case it != nil && it.action:
			name := fmt.Sprintf("item %d", it.n)
			if s := nextSets[name]; s == "clear" {
				next = ""
			} else if s != "" {
				next = s
			}
			want = append(want, name)
		}
		return
	}
	press := func(k string) bool {
		if !waitReal(keyWait, p.reading) {
			t.Inconclusive("nobody reads the next key")
			return false
		}
		from := logLen()
		want := expect(k)
		if len(want) == 0 {
			p.mark()
		}
		if _, err := p.master.Write([]byte(k)); err != nil {
			panic("harness: " + err.Error())
		}
		typed++
		if len(want) > 0 {
			if !waitReal(keyWait, func() bool { return logLen() >= from+len(want) }) {
				mu.Lock()
				t.Violate("key %q: expected %q, got %q", k, want, log[from:])
				mu.Unlock()
				return false
			}
		} else if !p.nextRead() {
			t.Inconclusive("a key is not read")
			return false
		}
		mu.Lock()
		got := append([]string{}, log[from:]...)
		mu.Unlock()
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Violate("key %q: expected %q, got %q", k, want, got)
			return false
		}
		return true
	}
	var sorted []string
	for k := range table {
		sorted = append(sorted, k)
	}
	sort.Strings(sorted)
	cnt := r.Range(5, 40)
	for i := 0; i < cnt && !t.Violated(); i++ {
		k := keys[r.Intn(len(keys))]
		if r.Bool(0.6) {
			k = sorted[r.Intn(len(sorted))]
		}
		if len(k) > 3 {
			continue
		}
		if !press(k) {
			break
		}
		if r.Bool(0.05) { // more items while the menu runs, between two keys
			if waitReal(keyWait, p.reading) {
				add()
				help()
			}
		}
	}
	// stop the menu
	stopped := make(chan bool)
	if p.reading() || waitReal(keyWait, p.reading) {
		stops := 0
		h.SetStopAction(func() { stops++ })
		h.Add("!", "stop", func(h *hotkey.Hotkey) { h.Stop(); close(stopped) })
		nx := next
		p.master.Write([]byte("!"))
		select {
		case <-stopped:
			if stops != 1 {
				t.Violate("the stop action ran %d times", stops)
			}
			time.Sleep(2 * time.Millisecond)
			if m := p.mode(); m != p.init {
				t.Violate("after the menu stopped the terminal has another mode than before: %s", modeDiff(p.init, m))
			}
			_ = nx
		case <-time.After(keyWait):
			t.Violate("the key that stops the menu does nothing")
		}
	}
	t.Count("keys", typed)
	t.Count("items", len(items))
	t.Sig(n, unknown, log)
}

// c19getch: single reads of keys and the helpers around them.
func c19getch(t *Trial, p *pty) {
	r := t.R
	t.Desc("single keys, mode lflag=%x", p.init.Lflag)
	fd := int(p.slave.Fd())
	n := r.Range(1, 10)
	for i := 0; i < n && !t.Violated(); i++ {
		k := [][]byte{{'a'}, {27, 91, 68}, []byte("й"), {3}, {4}, {26}, {28}, {13}, {10}, {127}, {0x15}, {0x16}, {'a', 'b'}, {0}, {1}}[r.Intn(15)]
		any := r.Bool(0.2)
		res := make(chan []byte, 1)
		go func() {
			if any {
				term.Anykey()
				res <- k
				return
			}
			res <- term.Getch()
		}()
		if !waitReal(keyWait, p.reading) {
			t.Inconclusive("nobody reads the key")
			return
		}
		p.master.Write(k)
		select {
		case got := <-res:
			if !bytes.Equal(got, k) {
				t.Violate("key % x was read as % x", k, got)
			}
		case <-time.After(keyWait):
			t.Violate("key % x is not read", k)
			return
		}
		if m := p.mode(); m != p.init {
			t.Violate("after a key was read the terminal has another mode than before: %s", modeDiff(p.init, m))
		}
		t.Count("keys", 1)
		// another mode for the next read
		if r.Bool(0.5) {
			a := p.mode()
			a.Lflag ^= []uint32{unix.ECHO, unix.ICANON, unix.ISIG}[r.Intn(3)]
			unix.IoctlSetTermios(fd, unix.TCSETS, &a)
			p.init = p.mode()
		}
	}
	if !term.IsTerminal(fd) {
		t.Violate("a pseudo-terminal is not recognised as a terminal")
	}
	st, err := term.GetState(fd)
	old, err2 := term.MakeNonBlock(fd)
	if err != nil || err2 != nil {
		t.Violate("the state of a terminal cannot be read: %v %v", err, err2)
		return
	}
	if !p.reading() {
		t.Violate("MakeNonBlock does not set the mode for reading keys")
	}
	which := old
	if r.Bool(0.5) {
		which = st
	}
	if err := term.RestoreState(fd, which); err != nil || p.mode() != p.init {
		t.Violate("RestoreState does not restore the mode: %v %s", err, modeDiff(p.init, p.mode()))
	}
	w, h := r.Range(1, 500), r.Range(1, 200)
	unix.IoctlSetWinsize(fd, unix.TIOCSWINSZ, &unix.Winsize{Col: uint16(w), Row: uint16(h)})
	if a, b, err := term.GetSize(fd); a != w || b != h || err != nil {
		t.Violate("GetSize answered %d x %d (%v), the terminal has %d x %d", a, b, err, w, h)
	}
	t.Sig("getch", n, p.init.Lflag, w, h)
}
