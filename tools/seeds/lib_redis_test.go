package @NAME@_test

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"testing"
)

// broker is as much of a Redis server as the recorder needs.
type broker struct {
	t    *testing.T
	l    net.Listener
	m    sync.Mutex
	subs map[net.Conn]string
	all  map[net.Conn]bool
	pub  []string // what was published
	dead map[net.Conn]bool // nothing is answered on these
	lose bool              // connections break instead of the reply to PUBLISH
	errs bool              // PUBLISH fails
	nsub int               // how often someone subscribed
	pass string            // needed, if there is one
	auth map[net.Conn]bool // connections that gave it
}

func newBroker(t *testing.T) *broker {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	b := &broker{t: t, l: l, subs: map[net.Conn]string{}, all: map[net.Conn]bool{}, dead: map[net.Conn]bool{}, auth: map[net.Conn]bool{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			b.m.Lock()
			b.all[c] = true
			b.m.Unlock()
			go b.serve(c)
		}
	}()
	t.Cleanup(func() { l.Close(); b.dropAll() })
	return b
}

func (b *broker) addr() string { return b.l.Addr().String() }

func (b *broker) dropAll() {
	b.m.Lock()
	defer b.m.Unlock()
	for c := range b.all {
		c.Close()
	}
}

func (b *broker) send(channel, msg string) int {
	b.m.Lock()
	defer b.m.Unlock()
	n := 0
	for c, ch := range b.subs {
		if ch == channel {
			fmt.Fprintf(c, "*3\r\n$7\r\nmessage\r\n$%d\r\n%s\r\n$%d\r\n%s\r\n", len(channel), channel, len(msg), msg)
			n++
		}
	}
	return n
}

func (b *broker) subscribers() int {
	b.m.Lock()
	defer b.m.Unlock()
	return len(b.subs)
}

func (b *broker) published() []string {
	b.m.Lock()
	defer b.m.Unlock()
	return append([]string{}, b.pub...)
}

func (b *broker) serve(c net.Conn) {
	defer func() {
		b.m.Lock()
		delete(b.subs, c)
		delete(b.all, c)
		b.m.Unlock()
		c.Close()
	}()
	r := bufio.NewReader(c)
	for {
		var n int
		if _, err := fmt.Fscanf(r, "*%d\r\n", &n); err != nil {
			return
		}
		var args []string
		for i := 0; i < n; i++ {
			var l int
			if _, err := fmt.Fscanf(r, "$%d\r\n", &l); err != nil {
				return
			}
			buf := make([]byte, l+2)
			if _, err := io.ReadFull(r, buf); err != nil {
				return
			}
			args = append(args, string(buf[:l]))
		}
		b.m.Lock()
		if !b.dead[c] {
			cmd := strings.ToUpper(args[0])
			if b.pass != "" && cmd != "AUTH" && !b.auth[c] {
				fmt.Fprintf(c, "-NOAUTH Authentication required.\r\n")
				cmd = "none"
			}
			switch cmd {
			case "none":
			case "AUTH":
				b.auth[c] = args[len(args)-1] == b.pass
				if !b.auth[c] {
					fmt.Fprintf(c, "-WRONGPASS\r\n")
					break
				}
				fmt.Fprintf(c, "+OK\r\n")
			case "PUBLISH":
				if b.errs {
					fmt.Fprintf(c, "-ERR not now\r\n")
					break
				}
				b.pub = append(b.pub, args[2])
				if b.lose {
					c.Close()
					break
				}
				fmt.Fprintf(c, ":1\r\n")
			case "SUBSCRIBE":
				b.subs[c] = args[1]
				b.nsub++
				fmt.Fprintf(c, "*3\r\n$9\r\nsubscribe\r\n$%d\r\n%s\r\n:1\r\n", len(args[1]), args[1])
			case "UNSUBSCRIBE":
				ch := b.subs[c]
				delete(b.subs, c)
				fmt.Fprintf(c, "*3\r\n$11\r\nunsubscribe\r\n$%d\r\n%s\r\n:0\r\n", len(ch), ch)
			case "PING":
				if b.subs[c] != "" {
					fmt.Fprintf(c, "*2\r\n$4\r\npong\r\n$0\r\n\r\n")
				} else {
					fmt.Fprintf(c, "+PONG\r\n")
				}
			default:
				fmt.Fprintf(c, "+OK\r\n")
			}
		}
		b.m.Unlock()
	}
}
