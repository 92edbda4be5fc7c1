package harness

import (
	"fmt"
	"net"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/teonet-go/tru"
	"github.com/teonet-go/tru/teolog"
	"golang.org/x/sys/unix"
)

func init() { scenarios["C27"] = scenario{run: c27, real: true} }

// menuPty is a pseudo-terminal that reads lines when no key is awaited.
func menuPty(r *Rand) *pty {
	p := openPty(r)
	a := p.mode()
	a.Lflag |= unix.ICANON
	a.Cc[unix.VMIN], a.Cc[unix.VTIME] = 1, 0
	if err := unix.IoctlSetTermios(int(p.slave.Fd()), unix.TCSETS, &a); err != nil {
		panic("harness: " + err.Error())
	}
	p.init = p.mode()
	return p
}

// c27: the menu of an endpoint.
func c27(t *Trial) {
	switch t.Index % 6 {
	case 0:
		c27quit(t)
	case 1:
		c27busy(t)
	default:
		c27menu(t)
	}
}

var menuItems = []string{"show this help screen", "show/hide tru statistic", "show/hide tru statistic minilog", "switch logger level",
	"print current logger level", "set new logger level", "set logger filter", "stop this hotkey menu", "quit from application"}

func c27menu(t *Trial) {
	r := t.R
	p := menuPty(r)
	defer p.close()
	out := OpenStdout()
	defer out.Close()
	l := teolog.New()
	level := r.Intn(len(levelNames))
	alts := []string(nil)
	params := []any{tru.Hotkey(true), l, levelNames[level]}
	if r.Bool(0.4) {
		alts = []string{logWords[r.Intn(len(logWords))]}
		params = append(params, teolog.Filter(append([]string{}, alts...)))
	}
	for i := len(params) - 1; i > 0; i-- { // in any order
		j := r.Intn(i + 1)
		params[i], params[j] = params[j], params[i]
	}
	ahead := ""
	if r.Bool(0.4) {
		ahead = []string{"h", "u", "l", "L", "U", "x"}[r.Intn(6)]
		p.master.Write([]byte(ahead))
	}
	e, err := tru.New(0, params...)
	if err != nil {
		t.Inconclusive("no socket: %v", err)
		return
	}
	defer e.Close()
	t.Desc("level=%s filter=%q ahead=%q mode lflag=%x", levelNames[level], alts, ahead, p.init.Lflag)
	saved, pending := 0, false
	stat, minilog := false, false
	probes := 0
	// press types a key and waits for the text it must print; line is typed after the prompt
	press := func(k, line string, typed bool) {
		if !typed && !waitReal(keyWait, p.reading) {
			t.Inconclusive("nobody reads the next key")
			return
		}
		if !typed {
			out.Next()
		}
		if pending {
			level, pending = saved, false
		}
		var texts []string
		unk := fmt.Sprint([]byte(k))
		pause := func() { saved, level, pending = level, 0, true }
		switch k {
		case "h", "?":
			texts = menuItems
			pause()
		case "u":
			stat = !stat
			texts = []string{"stopped"}
			if stat {
				texts[0] = "started"
			}
		case "U":
			minilog = !minilog
			texts = []string{"minilog hide"}
			if minilog {
				texts[0] = "minilog show"
			}
		case "l":
			level = (level + 1) % len(levelNames)
			texts = []string{"level: " + levelNames[level] + "\n"}
		case "L":
			texts = []string{"level: " + levelNames[level] + "\n"}
			pause()
		case "\x0c":
			texts = []string{"level: " + levelNames[level] + "\n", "enter new level"}
		case "f":
			texts = []string{"level:  " + levelNames[level] + "\n", "filter: " + strings.Join(alts, " || ") + "\n", "enter new filter"}
		case "\r":
		case "\x03":
			texts = []string{"menu stopped"}
		default:
			texts = []string{"unknown key", unk}
		}
		if k == "\r" && !typed {
			p.mark()
		}
		if !typed {
			p.master.Write([]byte(k))
		}
		all := func() bool {
			s := out.Peek()
			for _, x := range texts {
				if !strings.Contains(s, x) {
					return false
				}
			}
			return true
		}
		if !waitReal(keyWait, all) {
			t.Violate("key %q: expected %q, printed was %q", k, texts, out.Peek())
			return
		}
		if k == "\x0c" || k == "f" {
			// the logger is silent while a line is typed
			time.Sleep(time.Millisecond)
			if x := l.Level(); x != 0 {
				t.Violate("while a line is typed the logger's level is %v", x)
			}
			probes++
			l.Error.Println("PROBE", probes)
			if m := p.mode(); m != p.init {
				t.Violate("while a line is typed the terminal has another mode than before: %s", modeDiff(p.init, m))
			}
			p.master.Write([]byte(line + "\n"))
			if k == "f" {
				alts = nil
				for _, a := range strings.Split(line, "||") {
					alts = append(alts, strings.TrimSpace(a))
				}
			} else {
				level = 0
				for i, n := range levelNames {
					if strings.EqualFold(n, strings.TrimSpace(line)) {
						level = i
					}
				}
				if strings.EqualFold(strings.TrimSpace(line), "all") {
					level = 8
				}
			}
			if !waitReal(keyWait, func() bool { return p.pending() == 0 && p.reading() }) {
				t.Violate("key %q: a line was typed, but the next key is not awaited", k)
				return
			}
		} else if k == "\r" {
			if !p.nextRead() {
				t.Inconclusive("a key is not read")
				return
			}
		}
		if k == "\x03" {
			time.Sleep(5 * time.Millisecond)
			if m := p.mode(); m != p.init {
				t.Violate("after the menu was stopped the terminal has another mode than before: %s", modeDiff(p.init, m))
			}
		} else if !waitReal(keyWait, p.reading) {
			t.Violate("key %q: the next key is not awaited", k)
			return
		}
		s := out.Next()
		for _, x := range texts {
			if n := strings.Count(s, x); n != 1 && !(x == menuItems[1] && n == 2) {
				t.Violate("key %q printed %q %d times: %q", k, x, n, s)
			}
		}
		if k != "\r" && !strings.HasPrefix(texts[0], "unknown") && strings.Contains(s, "unknown key") {
			t.Violate("key %q was unknown: %q", k, s)
		}
		if strings.Contains(s, "PROBE") {
			t.Violate("the logger printed while a line was typed: %q", s)
		}
		t.Count("keys", 1)
		if x := int(l.Level()); x != level {
			t.Violate("after key %q the logger's level is %s, it should be %s", k, levelNames[x], levelNames[level])
		}
		if x := l.Filter(); x != strings.Join(alts, " || ") {
			t.Violate("after key %q the logger's filter is %q, it should be %q", k, x, strings.Join(alts, " || "))
		}
		if e.StatisticPrintRunning() != stat {
			t.Violate("after key %q printing statistics runs: %v", k, !stat)
		}
		// what the application logs is printed or not, as level and filter say
		if r.Bool(0.3) {
			probes++
			lg := r.Intn(8)
			text := fmt.Sprintf("PROBE <%d> %s", probes, logWords[r.Intn(len(logWords))])
			loggersOf(l)[lg].Println(text)
			if got, want := strings.Contains(out.Next(), text), (logState{level, alts}).allows(lg, text+"\n"); got != want {
				t.Violate("after key %q a message of level %s was printed: %v (level %s, filter %q)", k, levelNames[lg+1], got, levelNames[level], alts)
			}
			t.Count("probes", 1)
		}
		// the application sets the level itself
		if !pending && r.Bool(0.15) {
			level = r.Intn(len(levelNames))
			l.SetLevel(level)
		}
	}
	if ahead != "" {
		press(ahead, "", true)
	}
	keys := []string{"h", "?", "u", "U", "l", "l", "L", "\x0c", "f", "\r", "z", "й", "\x1b[D", "1", "H", "\x04", "\x1b"}
	n := r.Range(8, 40)
	for i := 0; i < n && !t.Violated() && t.incon == ""; i++ {
		k := keys[r.Intn(len(keys))]
		line := ""
		if k == "\x0c" {
			line = append(levelNames, "all", "nonsense", " debug ", "ERROR")[r.Intn(len(levelNames)+4)]
		}
		if k == "f" {
			line = []string{"", logWords[r.Intn(len(logWords))], " Zebra || QuartZ ", "a+b||(Xyz)"}[r.Intn(4)]
		}
		press(k, line, false)
		if stat && !t.Violated() && r.Bool(0.1) {
			if !waitReal(keyWait, func() bool { return strings.Contains(out.Peek(), "TRU "+e.LocalAddr().String()) }) {
				t.Violate("the statistics are switched on, but not printed")
			}
			t.Count("frames", 1)
		}
	}
	if !t.Violated() && t.incon == "" {
		press("\x03", "", false)
		if !t.Violated() {
			// the menu is stopped: the next line is the application's
			p.master.Write([]byte("u\n"))
			b := make([]byte, 10)
			waitReal(keyWait, func() bool { return p.pending() == 2 })
			time.Sleep(3 * time.Millisecond)
			if p.pending() != 2 {
				t.Violate("the stopped menu reads on")
			} else if n, _ := p.slave.Read(b); string(b[:n]) != "u\n" {
				t.Violate("the stopped menu took a key: the application reads %q", b[:n])
			}
		}
	}
	t.Sig("menu", n, ahead, level, stat, minilog, alts)
}

// c27busy: an endpoint that cannot be made leaves no menu behind.
func c27busy(t *Trial) {
	p := menuPty(t.R)
	defer p.close()
	out := OpenStdout()
	defer out.Close()
	c, err := net.ListenPacket("udp", ":0")
	if err != nil {
		t.Inconclusive("no socket: %v", err)
		return
	}
	defer c.Close()
	port := c.LocalAddr().(*net.UDPAddr).Port
	params := []any{tru.Hotkey(true)}
	want := "a port in use"
	if t.R.Bool(0.3) {
		params, port, want = append(params, 3.14), 0, "a wrong parameter"
	}
	e, err := tru.New(port, params...)
	t.Desc("%s", want)
	if err == nil {
		t.Inconclusive("New accepts %s", want)
		e.Close()
		return
	}
	for i := 0; i < 20; i++ {
		time.Sleep(time.Millisecond)
		if p.reading() {
			t.Violate("New failed (%v), but a menu waits for keys", err)
			return
		}
	}
	t.Count("failed_new", 1)
	t.Sig("busy", want, p.init.Lflag)
}

// c27quit: the menu of another process.
func c27quit(t *Trial) {
	r := t.R
	p := menuPty(r)
	defer p.close()
	gone := make(chan time.Time, 10)
	var e *tru.Tru
	e, err := tru.New(0, func(ch *tru.Channel, pac *tru.Packet, err error) bool {
		if err != nil && ch != nil {
			gone <- time.Now()
		}
		return false
	})
	if err != nil {
		t.Inconclusive("no socket: %v", err)
		return
	}
	defer e.Close()
	cmd := exec.Command(os.Args[0], "-test.run", "^TestMenuChild$")
	port := e.LocalAddr().(*net.UDPAddr).Port
	cmd.Env = append(os.Environ(), "VP_MENUCHILD="+fmt.Sprintf("127.0.0.1:%d", port), "VP_PROP=")
	cmd.Stdin = p.slave
	f, err := os.CreateTemp(os.Getenv("VP_SCRATCH"), "child")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.Remove(f.Name())
	defer f.Close()
	cmd.Stdout, cmd.Stderr = f, f
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
	if err := cmd.Start(); err != nil {
		t.Inconclusive("no other process: %v", err)
		return
	}
	end := make(chan error, 1)
	go func() { end <- cmd.Wait() }()
	defer cmd.Process.Kill()
	text := func() string { b, _ := os.ReadFile(f.Name()); return string(b) }
	if !waitReal(2*keyWait, func() bool { return strings.Contains(text(), "READY") && p.reading() }) {
		t.Inconclusive("the other process does not start: %q", text())
		return
	}
	t.Desc("quit, mode lflag=%x", p.init.Lflag)
	for i := r.Intn(3); i > 0; i-- {
		k := []string{"l", "u", "L", "z"}[r.Intn(4)]
		from := len(text())
		p.mark()
		p.master.Write([]byte(k))
		if !p.nextRead() || len(text()) <= from {
			t.Violate("key %q does nothing: %q", k, text())
			return
		}
	}
	select {
	case <-gone:
		t.Inconclusive("the channel ended early")
		return
	default:
	}
	p.master.Write([]byte("q"))
	select {
	case err := <-end:
		if err != nil {
			t.Violate("quitting ended the process with %v: %q", err, text())
		}
	case <-time.After(keyWait):
		t.Violate("the key that quits the application does not end the process: %q", text())
		return
	}
	at := time.Now()
	select {
	case <-gone:
		t.Count("told", 1)
	case <-time.After(4 * time.Second):
		t.Violate("quitting from the menu did not tell the peer of a channel")
	}
	if m := p.mode(); m != p.init {
		t.Violate("after the process ended the terminal has another mode than before: %s", modeDiff(p.init, m))
	}
	_ = at
	t.Count("quits", 1)
	t.Sig("quit", p.init.Lflag)
}

// TestMenuChild is a process with a menu.
func TestMenuChild(tt *testing.T) {
	peer := os.Getenv("VP_MENUCHILD")
	if peer == "" {
		tt.Skip()
	}
	e, err := tru.New(0, tru.Hotkey(true))
	if err != nil {
		fmt.Println(err)
		return
	}
	if _, err := e.Connect(peer); err != nil {
		fmt.Println(err)
		return
	}
	fmt.Println("READY")
	time.Sleep(60 * time.Second)
}
