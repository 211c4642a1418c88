package main

import (
	"fmt"
	"net/url"
	"path"
	"sort"
	"strings"
)

// ---- files over HTTP (C28) ----

// wantRange is what a request for a range of b should get; ok = false if there is no such range.
func wantRange(b []byte, rng string) (part []byte, ok bool) {
	from, to := -1, -1
	s := strings.TrimPrefix(rng, "bytes=")
	i := strings.IndexByte(s, '-')
	fmt.Sscan(s[:i], &from)
	fmt.Sscan(s[i+1:], &to)
	switch {
	case from < 0: // the last bytes
		if to > len(b) {
			to = len(b)
		}
		return b[len(b)-to:], to > 0
	case from >= len(b):
		return nil, false
	case to < 0 || to >= len(b):
		return b[from:], true
	}
	return b[from : to+1], to >= from
}

func (a *Analysis) checkMedia() {
	w := a.w
	dirs := map[string]bool{}
	for _, d := range w.sim.FS.Dirs() {
		dirs[d] = true
	}
	for _, h := range w.https {
		if h.Op.K == "http" {
			continue
		}
		p := w.procs[h.Proc]
		if h.At < p.StartAt+150*ms+a.slack || h.At+1000*ms+a.slack > a.procEnd(h.Proc) || len(w.sim.FS.Faults) > 0 {
			continue
		}
		what := fmt.Sprintf("GET %s at t=%dms (op %d)", h.Op.S, h.At/ms, h.Idx)
		if !h.Res.Done {
			w.fail("http_stuck", "%s was not answered", what)
			continue
		}
		w.count("checked.get")
		if !a.cfg.HTTP {
			if h.Res.Code != -1 {
				w.fail("http_served", "%s was served (status %d), but the HTTP endpoint is not enabled", what, h.Res.Code)
			}
			continue
		}
		for _, o := range h.Others {
			if strings.Contains(h.Res.Body, o) {
				w.fail("http_outside", "%s served a file from outside the directory of recordings: %q", what, short(h.Res.Body, 60))
			}
		}
		if h.Res.Panic != "" {
			w.fail("http_panic", "%s: the handler panicked: %s", what, h.Res.Panic)
			continue
		}
		if h.Res.Code == -1 {
			w.fail("http_refused", "%s: nothing listens on port %s", what, a.cfg.httpAddr())
			continue
		}
		u, err := url.Parse(h.Op.S)
		if err != nil {
			continue
		}
		moved := h.Res.Code >= 300 && h.Res.Code < 400
		clean := path.Clean(u.Path) == u.Path || path.Clean(u.Path)+"/" == u.Path
		f, media := w.mediaFile(h.Op.S)
		switch {
		case !clean:
			if !moved && h.Res.Code != 404 && h.Res.Code != 400 && h.Res.Code != 403 && h.Res.Code != 200 && h.Res.Code != 206 {
				w.fail("http_status", "%s got status %d", what, h.Res.Code)
			}
			if h.Seen == nil && h.After == nil && media && !dirs[f] && h.Res.Code == 200 {
				w.fail("http_status", "%s got status 200, but there is no such file", what)
			}
		case u.Path == "/media" || u.Path == "/index.html":
			if !moved && h.Res.Code != 200 && (u.Path != "/media" || h.Res.Code != 404) {
				w.fail("http_status", "%s got status %d", what, h.Res.Code)
			}
		case u.Path == "/":
			if h.Res.Code != 200 || len(h.Res.Body) < 100 {
				w.fail("http_page", "%s: status %d, and no page: %s", what, h.Res.Code, short(h.Res.Body, 60))
			}
		case u.Path == "/sdp":
			if h.Res.Code < 400 {
				w.fail("http_status", "%s got status %d", what, h.Res.Code)
			}
		case u.Path == "/favicon.ico", u.Path == "/metrics":
		case !media:
			if h.Res.Code != 404 {
				w.fail("http_status", "%s got status %d, but there is no such page", what, h.Res.Code)
			}
		case dirs[f] && !h.Dir: // only just, or later
		case h.Dir:
			if strings.HasSuffix(u.Path, "/") && h.Res.Code != 200 {
				w.fail("http_status", "%s got status %d", what, h.Res.Code)
			}
			a.checkListing(h, f, what)
		case strings.HasSuffix(u.Path, "/"):
			// (a file's name, but for the slash, or nothing)
			if h.Res.Code == 200 && h.Seen == nil && h.After == nil {
				w.fail("http_status", "%s got status 200, but there is no such file", what)
			}
		case h.Seen == nil && h.After == nil:
			if h.Res.Code != 404 {
				w.fail("http_status", "%s got status %d, but there is no such file", what, h.Res.Code)
			}
		case h.Seen == nil || h.After == nil || string(*h.Seen) != string(*h.After):
			// it is being written
			w.count("checked.get_growing")
			if h.Seen != nil && h.Res.Code != 200 && h.Res.Code != 206 && h.Res.Code != 416 {
				w.fail("http_status", "%s got status %d", what, h.Res.Code)
			}
		case h.Op.File != "":
			w.count("checked.get_range")
			part, ok := wantRange(*h.Seen, h.Op.File)
			if !ok && h.Res.Code != 416 && !(h.Res.Code == 200 && h.Res.Body == string(*h.Seen)) {
				w.fail("http_range", "%s, %s of %d bytes, got status %d", what, h.Op.File, len(*h.Seen), h.Res.Code)
			}
			if ok && !(h.Res.Code == 206 && h.Res.Body == string(part)) && !(h.Res.Code == 200 && h.Res.Body == string(*h.Seen)) {
				w.fail("http_range", "%s, %s of %d bytes, got status %d and %d bytes, not the %d bytes asked for", what, h.Op.File, len(*h.Seen), h.Res.Code, len(h.Res.Body), len(part))
			}
		default:
			w.count("checked.get_file")
			if h.Res.Code != 200 {
				w.fail("http_status", "%s got status %d, but there is the file", what, h.Res.Code)
			} else if h.Res.Body != string(*h.Seen) {
				w.fail("http_content", "%s served %d bytes that are not those of the file (%d bytes)", what, len(h.Res.Body), len(*h.Seen))
			}
		}
	}
}

// checkListing: a directory lists what was finished in it by then.
func (a *Analysis) checkListing(h *HTTPRun, dir, what string) {
	w := a.w
	if h.Res.Code != 200 {
		return
	}
	w.count("checked.listing")
	var names []string
	for _, f := range w.sim.FS.List() {
		if i := w.sim.FS.Peek(f); path.Dir(f) == dir && i.Created+5*ms < h.At && !i.ByWorld {
			names = append(names, path.Base(f))
		}
	}
	sort.Strings(names)
	for _, n := range names {
		if url.PathEscape(n) == n && !strings.Contains(h.Res.Body, n) {
			w.fail("http_listing", "%s does not list %s", what, n)
		}
	}
}

func genMedia(g *gen) {
	g.cfgBasics()
	c := &g.sc.Cfg
	c.HTTP = g.p(0.92)
	c.Prom = g.p(0.2)
	c.Port = pick(g, 0, 0, 80, 8081, 9000)
	c.Dir = pick(g, "", "", "/var/lib/rec2", "/srv/rec", "/tmp")
	c.IVF = g.p(0.2)
	c.DevNull = false
	c.Omit = g.p(0.4)
	if g.p(0.15) {
		g.sc.Env = append(g.sc.Env, pick(g, "HTTP_PORT=9100", "HTTP_ENABLE=true", "HTTP_ENABLE=false", "RECORDER_DIRECTORY=/srv/rec3"))
	}
	dir := c.withEnv(g.sc.Env).dir()
	secrets := []string{"/etc/secret", path.Dir(dir) + "/secret.webm", dir + "-old/r1.webm", "/media/secret", "/secret"}
	for i, f := range secrets {
		if g.p(0.6) {
			g.op(Op{At: g.n(0, 50), K: "put", File: f, S: fmt.Sprintf("not for everyone %d", i)})
		}
	}
	var files []string
	t := g.n(300, 500)
	for i := g.n(1, 4); i > 0; i-- {
		p := g.pub("", g.n(200, 1500))
		if g.p(0.15) {
			g.livekit(p)
		}
		j := g.add(p)
		sid := g.sid()
		f := g.file()
		if g.p(0.2) {
			f = pick(g, "a b", "100%", "ü", "x+y", "q?a=1", "h#1", "a&b", ".hidden", "a%41", "c%20d", "e%2Ff", "%2e%2e") + fmt.Sprintf("%d.webm", i)
		}
		if p.Room == "" && g.p(0.2) {
			g.op(Op{At: t, K: "http", Pub: j})
			g.op(Op{At: t + g.n(300, 1500), K: "ice", Pub: j, N: 7})
		} else {
			g.start(t, sid, j, f)
			g.stop(t+g.n(300, 1800), sid)
			files = append(files, f)
		}
		if g.p(0.1) {
			g.op(Op{At: t + g.n(0, 2500), K: "kill", Ms: g.n(0, 800)})
		}
		t += pick(g, 0, g.n(0, 50), g.n(500, 2500))
	}
	for i := g.n(4, 20); i > 0; i-- {
		o := Op{At: g.n(250, t+5000), K: "get"}
		f := "nosuch.webm"
		if len(files) > 0 {
			f = files[g.r.Intn(len(files))]
		}
		var seg []string
		for _, s := range strings.Split(f, "/") {
			seg = append(seg, url.PathEscape(s))
		}
		f = strings.Join(seg, "/")
		switch x := g.r.Intn(20); {
		case x < 9:
			o.S = "/media/" + f
		case x < 11:
			o.S = "/media/" + f
			o.File = pick(g, fmt.Sprintf("bytes=%d-%d", g.n(0, 2000), g.n(0, 40000)), fmt.Sprintf("bytes=%d-", g.n(0, 60000)), fmt.Sprintf("bytes=-%d", g.n(1, 3000)))
			var x, y int
			if n, _ := fmt.Sscanf(o.File, "bytes=%d-%d", &x, &y); n == 2 && y < x {
				o.File = fmt.Sprintf("bytes=%d-%d", y, x)
			}
		case x < 13:
			o.S = pick(g, "/", "/index.html", "/nosuch", "/sdp", "/media", "/favicon.ico", "/media/"+pick(g, "m", "meeting/sub", "meeting", "m/nosuch.webm", "r1.webmx"))
		case x < 15:
			o.S = pick(g, "/media/", "/media/m/", "/media/meeting/", "/media/meeting/sub/", "/media/nosuch/", "/media/"+f+"/")
		default:
			up := pick(g, "..", "%2e%2e", ".%2e", "..%2f..", "%2e%2e%2f%2e%2e", "../..", "x/../..", "m/../..", "%2fetc", "..%5c..", "%00", "%252e%252e", "%252e%252e%252f%252e%252e")
			o.S = pick(g, "/media/", "/media", "/", "/media//") + up + pick(g, "/secret", "/secret.webm", "/etc/secret", "/"+path.Base(path.Dir(dir))+"/secret.webm", "/"+path.Base(dir)+"-old/r1.webm", "secret", "-old/r1.webm", "/"+f, "")
			if !strings.HasPrefix(o.S, "/media/") && !strings.HasPrefix(o.S, "/media%") && g.p(0.3) {
				o.S = "/media" + "/.." + o.S
			}
			if strings.HasPrefix(o.S, "//") {
				o.S = "/" + strings.TrimLeft(o.S, "/")
			}
		}
		g.op(o)
	}
	g.end(2500)
}
