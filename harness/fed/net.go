package fed

import (
	"fmt"
	"net"
	"net/http"
	"net/url"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Req is a request seen by the network.
type Req struct {
	Host, Path string
	Query      url.Values
	Form       url.Values
	Method     string
	At         time.Time
	// Cookie is what the request says about earlier answers.
	Cookie string
}

func (r Req) String() string {
	return r.Method + " " + r.Host + r.Path + "?" + r.Query.Encode()
}

// Network is the loopback proxy that serves every host.
type Network struct {
	mu    sync.RWMutex
	hosts map[string]*World
	total int64
	// Cookies is the number of requests with a cookie.
	Cookies int64
	// Moved is the number of requests that were redirected because what they asked for was moved.
	Moved int64
}

// Net is the network.
var Net *Network

// StartNetwork starts the proxy and points the proxy variables of this process at it; must be called first.
func StartNetwork() {
	Net = &Network{hosts: map[string]*World{}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot listen on loopback:", err)
		os.Exit(3)
	}
	srv := &http.Server{Handler: Net}
	go func() { _ = srv.Serve(l) }()
	p := "http://" + l.Addr().String()
	for _, v := range []string{"HTTP_PROXY", "http_proxy", "HTTPS_PROXY", "https_proxy"} {
		_ = os.Setenv(v, p)
	}
	_ = os.Setenv("NO_PROXY", "")
	_ = os.Setenv("no_proxy", "")
	_ = os.Unsetenv("REQUEST_METHOD")
}

// Total gives the number of requests served.
func (n *Network) Total() int64 { return atomic.LoadInt64(&n.total) }

// ServeHTTP dispatches by host suffix.
func (n *Network) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	atomic.AddInt64(&n.total, 1)
	host := r.Host
	if r.URL.Host != "" {
		host = r.URL.Host
	}
	n.mu.RLock()
	var world *World
	h := host
	if i := strings.IndexByte(h, ':'); i >= 0 {
		h = h[:i]
	}
	for h != "" && world == nil {
		world = n.hosts[h]
		i := strings.IndexByte(h, '.')
		if i < 0 {
			break
		}
		h = h[i+1:]
	}
	n.mu.RUnlock()
	if world == nil {
		http.Error(w, "no such host "+host, http.StatusBadGateway)
		return
	}
	world.serve(host, w, r)
}

// Resp is a canned response.
type Resp struct {
	Status int
	Type   string
	Body   []byte
	// Drop closes the connection without a response.
	Drop     bool
	Delay    time.Duration
	Location string
	// Stall lets the client wait until it gives up: for the response (1), for the rest of the body (2), or with a byte of
	// it every second (3).
	Stall int
	// Truncate sends a too large Content-Length
	Truncate bool
}

// World is a set of hosts under a suffix with their resources.
type World struct {
	Suffix string
	mu     sync.RWMutex
	res    map[string]*Resp // by url (the query only matters where it is part of an endpoint) and sub
	dyn    map[string]func(Req) *Resp
	reqs   []Req
	keep   bool
	fault  func(Req) *Resp
	moved  func(Req) bool
}

// movedPrefix is where what was moved is found
const movedPrefix = "/moved"

// SetMoved makes a server redirect the requests that are chosen to another path (once), where they are served.
func (w *World) SetMoved(f func(Req) bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.moved = f
}

var worldSeq int64

// NewWorld registers a world with a fresh suffix.
func NewWorld() *World {
	w := &World{
		Suffix: fmt.Sprintf("w%d.test", atomic.AddInt64(&worldSeq, 1)), res: map[string]*Resp{},
		dyn: map[string]func(Req) *Resp{}, keep: true,
	}
	Net.mu.Lock()
	Net.hosts[w.Suffix] = w
	Net.mu.Unlock()
	return w
}

// Close removes the world from the network.
func (w *World) Close() {
	Net.mu.Lock()
	delete(Net.hosts, w.Suffix)
	Net.mu.Unlock()
}

// Put sets what is served at a url (its query selects; "sub" is given separately).
func (w *World) Put(u, sub string, r *Resp) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.res[key(u, sub)] = r
}

// Handle sets a dynamic resource.
func (w *World) Handle(u string, f func(Req) *Resp) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.dyn[u] = f
}

// SetFault installs a fault injector that may replace the response of a request.
func (w *World) SetFault(f func(Req) *Resp) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.fault = f
}

// key normalizes the query that is part of a url
func key(u, sub string) string {
	if p, q, ok := strings.Cut(u, "?"); ok {
		v, _ := url.ParseQuery(q)
		v.Del("sub")
		u = p
		if len(v) > 0 {
			u += "?" + v.Encode()
		}
	}
	return u + "\x00" + sub
}

func (w *World) lookup(u, sub string) *Resp {
	if r := w.res[key(u, sub)]; r != nil {
		return r
	}
	p, _, _ := strings.Cut(u, "?")
	return w.res[key(p, sub)]
}

// Get gives what is served (without faults).
func (w *World) Get(u, sub string) *Resp {
	w.mu.RLock()
	defer w.mu.RUnlock()
	return w.lookup(u, sub)
}

// Endpoint is the endpoint that is asked, as a Node names it, and the parameters that are sent to it.
func (r Req) Endpoint() (string, url.Values) {
	u := "http://" + r.Host + r.Path
	q := url.Values{}
	for k, v := range r.Query {
		if k != "of" {
			q[k] = v
		}
	}
	if of := r.Query["of"]; len(of) == 1 {
		u += "?of=" + url.QueryEscape(of[0])
	}
	return u, q
}

// Requests returns the requests so far.
func (w *World) Requests() []Req {
	w.mu.RLock()
	defer w.mu.RUnlock()
	return append([]Req(nil), w.reqs...)
}

// ResetRequests forgets them.
func (w *World) ResetRequests() {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.reqs = nil
}

func (w *World) serve(host string, rw http.ResponseWriter, r *http.Request) {
	q := Req{Host: host, Path: r.URL.Path, Query: r.URL.Query(), Method: r.Method, At: time.Now(), Cookie: r.Header.Get("Cookie")}
	if q.Cookie != "" {
		atomic.AddInt64(&Net.Cookies, 1)
	}
	rw.Header().Set("Set-Cookie", "seen="+w.Suffix+"; Path=/")
	if r.Method == http.MethodPost {
		_ = r.ParseForm()
		q.Form = r.PostForm
	}
	w.mu.RLock()
	mv := w.moved
	w.mu.RUnlock()
	if path, ok := strings.CutPrefix(q.Path, movedPrefix+"/"); ok && mv != nil {
		q.Path = "/" + path
	} else if mv != nil && mv(q) {
		atomic.AddInt64(&Net.Moved, 1)
		to := url.URL{Scheme: "http", Host: host, Path: movedPrefix + r.URL.Path, RawQuery: r.URL.RawQuery}
		rw.Header().Set("Location", to.String())
		rw.WriteHeader(http.StatusFound)
		return
	}
	u := "http://" + host + q.Path
	w.mu.Lock()
	if w.keep {
		w.reqs = append(w.reqs, q)
	}
	f := w.fault
	d := w.dyn[u]
	ep, _ := q.Endpoint()
	resp := w.lookup(ep, q.Query.Get("sub"))
	w.mu.Unlock()
	if d != nil {
		resp = d(q)
	}
	if f != nil {
		if fr := f(q); fr != nil {
			if fr.Status == 0 && !fr.Drop && fr.Body == nil && fr.Stall == 0 {
				time.Sleep(fr.Delay)
			} else {
				resp = fr
			}
		}
	}
	if resp == nil {
		rw.Header().Set("Content-Type", "application/json")
		rw.WriteHeader(http.StatusNotFound)
		_, _ = rw.Write([]byte(`{"error":"not_found","error_description":"nothing here"}`))
		return
	}
	if resp.Delay > 0 {
		time.Sleep(resp.Delay)
	}
	if resp.Stall > 0 {
		stall(resp, rw, r)
		return
	}
	if resp.Drop {
		if h, ok := rw.(http.Hijacker); ok {
			c, _, err := h.Hijack()
			if err == nil {
				_ = c.Close()
			}
		}
		return
	}
	if resp.Location != "" {
		rw.Header().Set("Location", resp.Location)
	}
	if resp.Type != "" {
		rw.Header().Set("Content-Type", resp.Type)
	}
	st := resp.Status
	if st == 0 {
		st = 200
	}
	if resp.Truncate {
		rw.Header().Set("Content-Length", fmt.Sprint(len(resp.Body)+100))
	}
	rw.WriteHeader(st)
	_, _ = rw.Write(resp.Body)
	if resp.Truncate {
		panic(http.ErrAbortHandler)
	}
}

// stall answers as slowly as the client puts up with.
func stall(resp *Resp, rw http.ResponseWriter, r *http.Request) {
	if resp.Stall > 1 {
		rw.Header().Set("Content-Type", resp.Type)
		rw.Header().Set("Content-Length", fmt.Sprint(len(resp.Body)+1000000))
		_, _ = rw.Write(resp.Body)
		_ = http.NewResponseController(rw).Flush()
	}
	t := time.NewTicker(time.Second)
	defer t.Stop()
	for {
		select {
		case <-r.Context().Done():
			panic(http.ErrAbortHandler)
		case <-t.C:
			if resp.Stall == 3 {
				_, _ = rw.Write([]byte("."))
				_ = http.NewResponseController(rw).Flush()
			}
		}
	}
}

// RequestCount gives the number of requests so far.
func (w *World) RequestCount() int {
	w.mu.RLock()
	defer w.mu.RUnlock()
	return len(w.reqs)
}
