package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"time"
)

// A small federation on loopback: the library's HTTP client reaches it through the proxy variables.

type resp struct {
	status int
	typ    string
	body   []byte
}

var (
	mu     sync.Mutex
	served = map[string]func(r *http.Request) resp{}
	hits   = map[string]int{}
)

func init() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fmt.Println(err)
		os.Exit(9)
	}
	for _, v := range []string{"HTTP_PROXY", "http_proxy"} {
		_ = os.Setenv(v, "http://"+l.Addr().String())
	}
	_ = os.Setenv("NO_PROXY", "")
	_ = os.Setenv("no_proxy", "")
	go func() {
		_ = http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			u := "http://" + r.Host + r.URL.Path
			_ = r.ParseForm()
			mu.Lock()
			h := served[u+"#"+r.Form.Get("sub")]
			if h == nil {
				h = served[u]
			}
			hits[u]++
			mu.Unlock()
			if h == nil {
				w.Header().Set("Content-Type", "application/json")
				w.WriteHeader(404)
				_, _ = w.Write([]byte(`{"error":"not_found"}`))
				return
			}
			x := h(r)
			w.Header().Set("Content-Type", x.typ)
			if x.status != 0 {
				w.WriteHeader(x.status)
			}
			_, _ = w.Write(x.body)
		}))
	}()
}

func serve(u string, h func(r *http.Request) resp) {
	mu.Lock()
	served[u] = h
	mu.Unlock()
}

func put(u, typ string, body []byte) {
	serve(u, func(*http.Request) resp { return resp{typ: typ, body: body} })
}

type obj = map[string]any

type key struct {
	k   *ecdsa.PrivateKey
	kid string
}

func newKey(kid string) *key {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	return &key{k, kid}
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func jwks(ks ...*key) obj {
	l := []any{}
	for _, k := range ks {
		l = append(l, obj{
			"kty": "EC", "crv": "P-256", "alg": "ES256", "use": "sig", "kid": k.kid,
			"x": b64(k.k.X.FillBytes(make([]byte, 32))), "y": b64(k.k.Y.FillBytes(make([]byte, 32))),
		})
	}
	return obj{"keys": l}
}

func js(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func sign(k *key, typ string, claims any) []byte {
	s := b64(js(obj{"alg": "ES256", "typ": typ, "kid": k.kid})) + "." + b64(js(claims))
	h := sha256.Sum256([]byte(s))
	a, b, err := ecdsa.Sign(rand.Reader, k.k, h[:])
	if err != nil {
		panic(err)
	}
	return []byte(s + "." + b64(append(a.FillBytes(make([]byte, 32)), b.FillBytes(make([]byte, 32))...)))
}

const stmtType = "entity-statement+jwt"

type ent struct {
	id    string
	key   *key
	hints []string
	meta  obj
	extra obj
}

func newEnt(id string, hints ...string) *ent {
	return &ent{
		id: id, key: newKey("k-" + id), hints: hints,
		meta: obj{"federation_entity": obj{"federation_fetch_endpoint": id + "/fetch", "federation_list_endpoint": id + "/list"}},
	}
}

func (e *ent) claims(sub *ent) obj {
	c := obj{
		"iss": e.id, "sub": sub.id, "iat": time.Now().Add(-time.Minute).Unix(), "exp": time.Now().Add(time.Hour).Unix(),
		"jwks": jwks(sub.key),
	}
	if e == sub {
		if len(e.hints) > 0 {
			c["authority_hints"] = e.hints
		}
		if e.meta != nil {
			c["metadata"] = e.meta
		}
		for k, v := range e.extra {
			c[k] = v
		}
	}
	return c
}

func ecURL(id string) string { return strings.TrimSuffix(id, "/") + "/.well-known/openid-federation" }

// publish serves the configuration of an entity.
func (e *ent) publish() {
	serve(ecURL(e.id), func(*http.Request) resp {
		return resp{typ: "application/entity-statement+jwt", body: sign(e.key, stmtType, e.claims(e))}
	})
}

// about serves the statement of e about sub, changed by f.
func (e *ent) about(sub *ent, f func(c obj)) {
	serve(e.id+"/fetch#"+sub.id, func(*http.Request) resp {
		c := e.claims(sub)
		if f != nil {
			f(c)
		}
		return resp{typ: "application/entity-statement+jwt", body: sign(e.key, stmtType, c)}
	})
}

func fail(f string, a ...any) {
	fmt.Printf("BROKEN: "+f+"\n", a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		fmt.Println("unexpected:", err)
		os.Exit(9)
	}
}
