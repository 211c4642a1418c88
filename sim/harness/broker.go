package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"simrt"
)

// Broker is a Redis-compatible message broker.
type Broker struct {
	w        *World
	password string
	conns    []*bconn
	busy     bool // answers every command with an error
	full     bool // accepts no more clients
	lose     int  // connections to break before the reply to a PUBLISH
}

type bconn struct {
	c      *simrt.Conn
	buf    []byte
	authed bool
	subs   []string
	dead   bool
}

func (b *Broker) Accept(c *simrt.Conn) {
	bc := &bconn{c: c}
	c.User = bc
	b.conns = append(b.conns, bc)
	if b.full {
		c.Push([]byte("-ERR max number of clients reached\r\n"))
		c.Drop(false)
		bc.dead = true
	}
}

func (b *Broker) Closed(c *simrt.Conn) {
	bc := c.User.(*bconn)
	if len(bc.subs) > 0 && !bc.dead {
		b.w.tracef("broker: subscriber connection %d closed", c.ID)
	}
	bc.dead = true
	bc.subs = nil
}

func (b *Broker) Data(c *simrt.Conn, d []byte) {
	bc := c.User.(*bconn)
	if bc.dead {
		return
	}
	bc.buf = append(bc.buf, d...)
	for {
		args, n, err := parseRESP(bc.buf)
		if err != nil {
			b.w.problem("recorder sent bad RESP: " + err.Error())
			c.Drop(true)
			bc.dead = true
			return
		}
		if n == 0 {
			return
		}
		bc.buf = bc.buf[n:]
		b.cmd(bc, args)
	}
}

func parseRESP(b []byte) ([]string, int, error) {
	i := bytes.Index(b, []byte("\r\n"))
	if i < 0 {
		return nil, 0, nil
	}
	if b[0] != '*' {
		return strings.Fields(string(b[:i])), i + 2, nil
	}
	n, err := strconv.Atoi(string(b[1:i]))
	if err != nil {
		return nil, 0, err
	}
	pos := i + 2
	var out []string
	for k := 0; k < n; k++ {
		j := bytes.Index(b[pos:], []byte("\r\n"))
		if j < 0 {
			return nil, 0, nil
		}
		if b[pos] != '$' {
			return nil, 0, fmt.Errorf("expected bulk string")
		}
		l, err := strconv.Atoi(string(b[pos+1 : pos+j]))
		if err != nil {
			return nil, 0, err
		}
		pos += j + 2
		if len(b) < pos+l+2 {
			return nil, 0, nil
		}
		out = append(out, string(b[pos:pos+l]))
		pos += l + 2
	}
	return out, pos, nil
}

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }

func (b *Broker) cmd(bc *bconn, a []string) {
	if len(a) == 0 {
		return
	}
	say := func(s string) {
		if !bc.dead {
			bc.c.Push([]byte(s))
		}
	}
	cmd := strings.ToUpper(a[0])
	if b.busy {
		b.w.count("broker.busy_reply")
		say("-BUSY Redis is busy running a script. You can only call SCRIPT KILL or SHUTDOWN NOSAVE.\r\n")
		return
	}
	if b.password != "" && !bc.authed && cmd != "AUTH" {
		say("-NOAUTH Authentication required.\r\n")
		return
	}
	switch cmd {
	case "AUTH":
		if a[len(a)-1] == b.password {
			bc.authed = true
			say("+OK\r\n")
		} else {
			say("-WRONGPASS invalid username-password pair\r\n")
		}
	case "PING":
		if len(bc.subs) > 0 {
			m := ""
			if len(a) > 1 {
				m = a[1]
			}
			say("*2\r\n" + bulk("pong") + bulk(m))
		} else {
			say("+PONG\r\n")
		}
	case "SUBSCRIBE":
		for _, ch := range a[1:] {
			has := false
			for _, s := range bc.subs {
				has = has || s == ch
			}
			if !has {
				bc.subs = append(bc.subs, ch)
			}
			say("*3\r\n" + bulk("subscribe") + bulk(ch) + fmt.Sprintf(":%d\r\n", len(bc.subs)))
			b.w.onSubscribed(bc, ch)
		}
	case "UNSUBSCRIBE":
		chs := a[1:]
		if len(chs) == 0 {
			chs = append([]string(nil), bc.subs...)
		}
		for _, ch := range chs {
			for i, s := range bc.subs {
				if s == ch {
					bc.subs = append(bc.subs[:i], bc.subs[i+1:]...)
					break
				}
			}
			say("*3\r\n" + bulk("unsubscribe") + bulk(ch) + fmt.Sprintf(":%d\r\n", len(bc.subs)))
		}
	case "PUBLISH":
		if len(a) != 3 {
			say("-ERR wrong number of arguments for 'publish' command\r\n")
			return
		}
		n := b.publish(a[1], a[2], true)
		if b.lose > 0 {
			b.lose--
			b.w.count("broker.lost_reply")
			bc.c.Drop(true)
			bc.dead = true
			bc.subs = nil
			return
		}
		say(fmt.Sprintf(":%d\r\n", n))
	case "QUIT":
		say("+OK\r\n")
		bc.c.Drop(false)
		bc.dead = true
		bc.subs = nil
	case "HELLO", "CLIENT", "SELECT", "COMMAND":
		say("-ERR unknown command\r\n")
	default:
		say("-ERR unknown command '" + a[0] + "'\r\n")
	}
}

// publish distributes a message; it returns the number of subscribers of the recorder it was sent to.
func (b *Broker) publish(ch, msg string, fromRec bool) int {
	n := 0
	for _, bc := range b.conns {
		if bc.dead || !bc.c.Alive() {
			continue
		}
		for _, s := range bc.subs {
			if s == ch {
				n++
				bc.c.Push([]byte("*3\r\n" + bulk("message") + bulk(ch) + bulk(msg)))
			}
		}
	}
	b.w.onPublish(ch, msg, fromRec, n)
	return n
}

func (b *Broker) subscribed(ch string) bool {
	for _, bc := range b.conns {
		if bc.dead || !bc.c.Alive() {
			continue
		}
		for _, s := range bc.subs {
			if s == ch {
				return true
			}
		}
	}
	return false
}

// dropAll ends every connection.
func (b *Broker) dropAll(rst bool) {
	for _, bc := range b.conns {
		if !bc.dead {
			bc.c.Drop(rst)
			bc.dead = true
			bc.subs = nil
		}
	}
}

func (b *Broker) vanishAll() {
	for _, bc := range b.conns {
		if !bc.dead {
			bc.c.Vanish()
			bc.dead = true
			bc.subs = nil
		}
	}
}
