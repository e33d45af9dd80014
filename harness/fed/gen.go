package fed

import (
	"crypto/hmac"
	"crypto/sha256"
	"fmt"
	"math/rand"
	"net/url"
	"strings"
	"time"
)

// Node is an entity of a generated federation.
type Node struct {
	ID    string
	Host  string
	Level int // 0: trust anchor
	Keys  []*Key
	Hints []string
	// Claims are additional claims of the entity configuration
	Claims map[string]any
	// Meta is the metadata by entity type
	Meta map[string]any
	EC   *Stmt
	// About are the statements this node issues by subject
	About map[string]*Stmt
	List  []string
	// Tenant: the endpoints of the node are on a shared host and told apart by their query
	Tenant string
}

// Fetch is the fetch endpoint.
func (n *Node) Fetch() string { return n.Endpoint("fetch") }

// Endpoint is another endpoint.
func (n *Node) Endpoint(name string) string {
	if n.Tenant != "" {
		return n.Tenant + name + "?of=" + url.QueryEscape(n.Host)
	}
	return "http://" + n.Host + "/" + name
}

// ListEP is the list endpoint.
func (n *Node) ListEP() string { return n.Endpoint("list") }

// Stmt is a statement to be signed.
type Stmt struct {
	Header map[string]any
	Claims map[string]any
	Key    *Key
	Mut    string
	// Post modifies the serialized token
	Post func([]byte) []byte
	// Resp replaces the response
	Resp *Resp
	raw  []byte
}

// Raw serializes and signs (once).
func (s *Stmt) Raw() []byte {
	if s.raw == nil {
		s.raw = Sign(s.Key, s.Header, s.Claims)
		if s.Post != nil {
			s.raw = s.Post(s.raw)
		}
	}
	return s.raw
}

// Reset makes the statement be signed again.
func (s *Stmt) Reset() { s.raw = nil }

// Fed is a generated federation.
type Fed struct {
	W     *World
	Nodes []*Node
	By    map[string]*Node
	Rng   *rand.Rand
	Muts  []string
	// Life is the lifetime of statements
	Life func() time.Duration
}

// Opts shapes a federation.
type Opts struct {
	TAs, Mids   int
	Leaves      int
	Cycles      bool
	RichAlgs    bool
	PathIDs     bool
	ExtraTypes  bool
	MaxHints    int
	LeafTypes   []string
	MidTypes    bool
	DeadHints   bool
	DoubleHints bool
}

// Pick picks one.
func Pick[T any](r *rand.Rand, l ...T) T { return l[r.Intn(len(l))] }

// Chance is true with probability p.
func Chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

// Algs of the generated keys.
var Algs = []string{"ES256", "ES256", "ES256", "ES256", "EdDSA", "ES384", "ES512", "RS256", "PS256"}

func (f *Fed) key(o Opts) *Key {
	alg := "ES256"
	if o.RichAlgs {
		alg = Pick(f.Rng, Algs...)
	}
	return NewKey(alg, fmt.Sprintf("k%x", f.Rng.Int63()))
}

// NewFed generates the topology and the (unmutated) statements.
func NewFed(r *rand.Rand, w *World, o Opts) *Fed {
	f := &Fed{W: w, By: map[string]*Node{}, Rng: r, Life: func() time.Duration { return time.Hour }}
	add := func(prefix string, level int) *Node {
		host := fmt.Sprintf("%s%d.%s", prefix, len(f.Nodes), w.Suffix)
		if o.PathIDs && Chance(r, 0.15) {
			host = fmt.Sprintf("%s%d.sub.%s", prefix, len(f.Nodes), w.Suffix)
		}
		id := "http://" + host
		if o.PathIDs {
			switch r.Intn(6) {
			case 0:
				id += "/some/path"
			case 1:
				id += "/"
			case 2:
				host += ":8080"
				id += ":8080"
			case 4:
				// what has a meaning in queries
				id += Pick(r, "/a+b", "/a&sub=b", "/a;b=c", "/a@b:c", "/a,b!$'()*", "/~a.b-c_d", "/a//b", "/a=b", "/a//")
			case 3:
				// identifiers that differ little
				if len(f.Nodes) > 0 && Chance(r, 0.7) {
					base := f.Nodes[r.Intn(len(f.Nodes))].ID
					alt := strings.TrimSuffix(base, "/") + fmt.Sprintf("/%d", len(f.Nodes))
					if strings.HasSuffix(base, "path") && Chance(r, 0.5) {
						alt = strings.TrimSuffix(base, "path") + Pick(r, "Path", "pat", "path2")
					}
					if f.By[alt] == nil {
						id = alt
					}
				}
			}
		}
		n := &Node{
			ID: id, Host: host, Level: level, About: map[string]*Stmt{}, Claims: map[string]any{},
			Meta: map[string]any{},
		}
		if o.PathIDs && Chance(r, 0.25) {
			n.Tenant = "http://shared." + w.Suffix + "/"
		}
		for i := 0; i <= r.Intn(2); i++ {
			n.Keys = append(n.Keys, f.key(o))
		}
		f.Nodes = append(f.Nodes, n)
		f.By[id] = n
		return n
	}
	for i := 0; i < o.TAs; i++ {
		add("ta", 0)
	}
	for i := 0; i < o.Mids; i++ {
		add("ia", 1+r.Intn(3))
	}
	for i := 0; i < o.Leaves; i++ {
		add("leaf", 9)
	}
	if o.MaxHints == 0 {
		o.MaxHints = 3
	}
	for i, n := range f.Nodes {
		if n.Level == 0 {
			if o.Cycles && Chance(r, 0.3) {
				n.Hints = append(n.Hints, f.Nodes[r.Intn(len(f.Nodes))].ID)
			}
			continue
		}
		nh := 1 + r.Intn(o.MaxHints)
		for h := 0; h < nh; h++ {
			var c []*Node
			for j, x := range f.Nodes {
				if j == i && !o.Cycles {
					continue
				}
				if x.Level < n.Level || (o.Cycles && x.Level < 9 && Chance(r, 0.4)) {
					c = append(c, x)
				}
			}
			if len(c) == 0 {
				break
			}
			id := c[r.Intn(len(c))].ID
			if contains(n.Hints, id) && !(o.DoubleHints && Chance(r, 0.3)) {
				continue
			}
			n.Hints = append(n.Hints, id)
		}
		if o.DeadHints && Chance(r, 0.2) {
			n.Hints = append(n.Hints, "http://dead."+w.Suffix)
			r.Shuffle(len(n.Hints), func(i, j int) { n.Hints[i], n.Hints[j] = n.Hints[j], n.Hints[i] })
		}
	}
	for _, n := range f.Nodes {
		if n.Level < 9 {
			n.Meta["federation_entity"] = map[string]any{
				"federation_fetch_endpoint": n.Fetch(), "federation_list_endpoint": n.ListEP(),
				"organization_name": "org of " + n.Host,
			}
			if o.MidTypes && Chance(r, 0.2) {
				n.Meta["openid_relying_party"] = RPMeta(n.ID)
			}
		} else {
			if o.LeafTypes == nil {
				o.LeafTypes = []string{"openid_provider", "openid_relying_party"}
			}
			for _, t := range o.LeafTypes {
				if Chance(r, 0.6) {
					n.Meta[t] = f.meta(t, n.ID)
				}
			}
			if len(n.Meta) == 0 {
				n.Meta[o.LeafTypes[0]] = f.meta(o.LeafTypes[0], n.ID)
			}
			if o.ExtraTypes && Chance(r, 0.3) {
				n.Meta["custom_entity"] = map[string]any{"foo": "bar"}
			}
			if o.ExtraTypes && Chance(r, 0.2) {
				n.Meta["federation_entity"] = map[string]any{"organization_name": "leaf org"}
			}
		}
	}
	f.Rebuild()
	return f
}

// Rebuild makes the honest statements for the topology.
func (f *Fed) Rebuild() {
	for _, n := range f.Nodes {
		n.EC = f.newStmt(n, n)
		for _, h := range n.Hints {
			if s := f.By[h]; s != nil {
				s.About[n.ID] = f.newStmt(s, n)
				if !contains(s.List, n.ID) {
					s.List = append(s.List, n.ID)
				}
			}
		}
	}
}

// Claim makes iss issue a statement about sub with the given keys.
func (f *Fed) Claim(iss, sub *Node, keys ...*Key) {
	s := f.newStmt(iss, sub)
	s.Claims["jwks"] = JWKS(keys...)
	iss.About[sub.ID] = s
}

// Forge builds a statement of iss about sub that is signed with another key; a configuration carries that key.
func (f *Fed) Forge(iss, sub *Node, key *Key, hint string) *Stmt {
	s := f.newStmt(iss, sub)
	s.Key = key
	s.Claims["jwks"] = JWKS(key)
	if hint != "" {
		s.Claims["authority_hints"] = []any{hint}
	}
	return s
}

// RPMeta is simple relying party metadata.
func RPMeta(id string) map[string]any {
	return map[string]any{
		"redirect_uris": []any{id + "/cb"}, "client_name": "client " + id,
		"client_registration_types": []any{"automatic"},
	}
}

// OPMeta is simple provider metadata.
func OPMeta(id string) map[string]any {
	return map[string]any{
		"issuer": id, "authorization_endpoint": id + "/authorize", "token_endpoint": id + "/token",
		"response_types_supported": []any{"code"}, "scopes_supported": []any{"openid", "profile"},
		"grant_types_supported":                 []any{"authorization_code"},
		"subject_types_supported":               []any{"public"},
		"id_token_signing_alg_values_supported": []any{"ES256"},
		"client_registration_types_supported":   []any{"automatic"},
		"organization_name":                     "op " + id,
	}
}

func (f *Fed) meta(t, id string) any {
	switch t {
	case "openid_provider", "oauth_authorization_server":
		return OPMeta(id)
	case "oauth_resource":
		return map[string]any{"resource": id}
	}
	return RPMeta(id)
}

// newStmt builds the honest statement of iss about sub.
func (f *Fed) newStmt(iss, sub *Node) *Stmt {
	now := time.Now()
	c := map[string]any{
		"iss": iss.ID, "sub": sub.ID, "iat": now.Add(-time.Minute).Unix(), "exp": now.Add(f.Life()).Unix(),
		"jwks": JWKS(sub.Keys...),
	}
	if iss == sub {
		if len(sub.Hints) > 0 {
			h := make([]any, len(sub.Hints))
			for i, x := range sub.Hints {
				h[i] = x
			}
			c["authority_hints"] = h
		}
		if len(sub.Meta) > 0 {
			c["metadata"] = sub.Meta
		}
		for k, v := range sub.Claims {
			c[k] = v
		}
	} else if Chance(f.Rng, 0.2) {
		c["source_endpoint"] = iss.Fetch()
	}
	return &Stmt{
		Header: map[string]any{"typ": TypStatement}, Claims: c, Key: iss.Keys[f.Rng.Intn(len(iss.Keys))],
	}
}

// Publish serves everything.
func (f *Fed) Publish() {
	for _, n := range f.Nodes {
		f.PublishNode(n)
	}
}

// PublishNode serves what belongs to a node.
func (f *Fed) PublishNode(n *Node) {
	put := func(u, sub string, s *Stmt) {
		if s.Resp != nil {
			f.W.Put(u, sub, s.Resp)
			return
		}
		f.W.Put(u, sub, &Resp{Type: "application/entity-statement+jwt", Body: s.Raw()})
	}
	put(ECURL(n.ID), "", n.EC)
	for sub, s := range n.About {
		put(n.Fetch(), sub, s)
	}
	l := n.List
	if l == nil {
		l = []string{}
	}
	f.W.Put(n.ListEP(), "", &Resp{Type: "application/json", Body: MustJSON(l)})
}

// Stmts lists all statements.
func (f *Fed) Stmts() (r []*Stmt) {
	for _, n := range f.Nodes {
		r = append(r, n.EC)
		for _, h := range f.Nodes {
			if s := n.About[h.ID]; s != nil {
				r = append(r, s)
			}
		}
	}
	return
}

// Mutations that attack or break one statement.
var Mutations = []string{
	"wrong-key", "foreign-key", "foreign-key-own-kid", "tamper-payload", "tamper-sig", "typ-JWT", "typ-none", "typ-tm",
	"typ-resolve", "typ-case", "alg-none", "iss-other", "sub-other", "iss-slash", "sub-slash", "exp-past", "exp-just-past",
	"exp-none", "iat-future", "jwks-none", "jwks-empty", "jwks-other", "jwks-attacker", "truncated", "garbage", "empty",
	"json-serialized", "json-two-sigs", "not-found", "no-fetch", "no-metadata", "hmac", "embedded-jwk", "swap-stmt",
	"self-as-sub", "no-kid", "hints-none", "drop", "html-200", "iss-missing", "sub-missing", "space-around",
	"own-extra-key", "own-extra-key-self", "attest-subset", "attest-extra", "sign-superior", "sign-subordinate",
	"sign-anchor", "kid-collision", "jwks-no-kid",
}

// TimeMutations concern time only.
var TimeMutations = []string{"exp-past", "exp-just-past", "exp-none", "iat-future", "exp-zero", "exp-float-past", "exp-neg"}

// Mutate applies a named mutation to a random statement.
func (f *Fed) Mutate(name string) {
	all := f.Stmts()
	s := all[f.Rng.Intn(len(all))]
	f.MutateStmt(name, s)
}

// MutateStmt applies a mutation to a statement.
func (f *Fed) MutateStmt(name string, s *Stmt) {
	r := f.Rng
	all := f.Stmts()
	other := f.Nodes[r.Intn(len(f.Nodes))]
	attacker := NewKey("ES256", s.Key.Kid)
	resign := func(k *Key, h map[string]any) {
		s.Post = func([]byte) []byte { return Sign(k, h, s.Claims) }
	}
	s.Mut += name + " "
	f.Muts = append(f.Muts, fmt.Sprintf("%s(%v about %v)", name, s.Claims["iss"], s.Claims["sub"]))
	switch name {
	case "wrong-key":
		k := NewKey(s.Key.Alg, s.Key.Kid)
		s.Key = k
	case "foreign-key":
		s.Key = other.Keys[0]
	case "foreign-key-own-kid":
		s.Key = &Key{Priv: other.Keys[0].Priv, Alg: other.Keys[0].Alg, Kid: s.Key.Kid}
	case "tamper-payload":
		s.Post = func(raw []byte) []byte {
			p := strings.Split(string(raw), ".")
			c := map[string]any{}
			for k, v := range s.Claims {
				c[k] = v
			}
			c["metadata"] = map[string]any{"openid_provider": OPMeta("http://evil.test")}
			c["exp"] = time.Now().Add(10 * time.Hour).Unix()
			return []byte(p[0] + "." + B64(MustJSON(c)) + "." + p[2])
		}
	case "tamper-sig":
		s.Post = func(raw []byte) []byte {
			p := strings.Split(string(raw), ".")
			b, _ := UnB64(p[2])
			b[r.Intn(len(b))] ^= 1 << r.Intn(8)
			return []byte(p[0] + "." + p[1] + "." + B64(b))
		}
	case "typ-JWT":
		s.Header = map[string]any{"typ": "JWT"}
	case "typ-none":
		s.Header = map[string]any{}
	case "typ-tm":
		s.Header = map[string]any{"typ": "trust-mark+jwt"}
	case "typ-resolve":
		s.Header = map[string]any{"typ": "resolve-response+jwt"}
	case "typ-case":
		s.Header = map[string]any{"typ": "entity-statement"}
	case "alg-none":
		s.Post = func(raw []byte) []byte {
			return []byte(B64(MustJSON(map[string]any{"alg": "none", "typ": TypStatement, "kid": s.Key.Kid})) + "." +
				strings.Split(string(raw), ".")[1] + ".")
		}
	case "iss-other":
		s.Claims["iss"] = other.ID
	case "sub-other":
		s.Claims["sub"] = other.ID
	case "iss-slash":
		s.Claims["iss"] = ToggleSlash(s.Claims["iss"])
	case "sub-slash":
		s.Claims["sub"] = ToggleSlash(s.Claims["sub"])
	case "iss-missing":
		delete(s.Claims, "iss")
	case "sub-missing":
		delete(s.Claims, "sub")
	case "exp-past":
		s.Claims["exp"] = time.Now().Add(-time.Duration(1+r.Intn(100000)) * time.Minute).Unix()
	case "exp-just-past":
		s.Claims["exp"] = time.Now().Unix() - 2
	case "exp-float-past":
		s.Claims["exp"] = float64(time.Now().Unix()-2) + 0.25
	case "exp-zero":
		s.Claims["exp"] = 0
	case "exp-neg":
		s.Claims["exp"] = -1000
	case "exp-none":
		delete(s.Claims, "exp")
	case "iat-future":
		s.Claims["iat"] = time.Now().Add(time.Duration(2+r.Intn(100000)) * time.Minute).Unix()
		s.Claims["exp"] = time.Now().Add(200000 * time.Minute).Unix()
	case "jwks-none":
		delete(s.Claims, "jwks")
	case "jwks-empty":
		s.Claims["jwks"] = map[string]any{"keys": []any{}}
	case "jwks-other":
		s.Claims["jwks"] = JWKS(other.Keys...)
	case "jwks-attacker":
		s.Claims["jwks"] = JWKS(attacker)
		s.Key = attacker
	case "truncated":
		s.Post = func(raw []byte) []byte { return raw[:r.Intn(len(raw))] }
	case "garbage":
		s.Post = func([]byte) []byte { b := make([]byte, r.Intn(300)); r.Read(b); return b }
	case "empty":
		s.Post = func([]byte) []byte { return nil }
	case "json-serialized":
		s.Post = func([]byte) []byte { return SignJSON(s.Claims, []*Key{s.Key}, []map[string]any{s.Header}) }
	case "json-two-sigs":
		s.Post = func([]byte) []byte {
			return SignJSON(
				s.Claims, []*Key{attacker, s.Key}, []map[string]any{{"typ": TypStatement}, {"typ": "JWT"}},
			)
		}
	case "not-found":
		s.Resp = &Resp{Status: 404, Type: "application/json", Body: []byte(`{"error":"not_found"}`)}
		if Chance(r, 0.5) {
			// an error all the same
			s.Resp = &Resp{Status: Pick(r, 400, 401, 403, 404, 410, 500, 503), Type: Pick(r, "application/entity-statement+jwt", "text/plain"), Body: s.Raw()}
		}
	case "html-200":
		s.Resp = &Resp{Status: 200, Type: "text/html", Body: []byte(`<html>hello</html>`)}
	case "drop":
		s.Resp = &Resp{Status: 503, Type: "text/plain", Body: []byte("unavailable")}
	case "no-fetch":
		if md, ok := s.Claims["metadata"].(map[string]any); ok {
			c := map[string]any{}
			for k, v := range md {
				c[k] = v
			}
			if _, ok := md["federation_entity"]; ok {
				c["federation_entity"] = map[string]any{"organization_name": "x"}
			}
			s.Claims["metadata"] = c
		}
	case "no-metadata":
		delete(s.Claims, "metadata")
	case "hmac":
		s.Post = func([]byte) []byte {
			in := B64(MustJSON(map[string]any{"alg": "HS256", "typ": TypStatement, "kid": s.Key.Kid})) + "." +
				B64(MustJSON(s.Claims))
			x, _ := s.Key.JWK()["x"].(string)
			xb, _ := UnB64(x)
			h := hmac.New(sha256.New, Pick(r, xb, MustJSON(s.Key.JWK()), []byte(x)))
			h.Write([]byte(in))
			return []byte(in + "." + B64(h.Sum(nil)))
		}
	case "embedded-jwk":
		resign(attacker, map[string]any{"typ": TypStatement, "jwk": attacker.JWK()})
	case "swap-stmt":
		o := all[r.Intn(len(all))]
		if o != s && o.Post == nil {
			s.Post = func([]byte) []byte { return Sign(o.Key, o.Header, o.Claims) }
		}
	case "self-as-sub":
		for _, n := range f.Nodes {
			if n.ID == s.Claims["sub"] && n.EC != s && n.EC.Post == nil {
				ec := n.EC
				s.Post = func([]byte) []byte { return Sign(ec.Key, ec.Header, ec.Claims) }
			}
		}
	case "no-kid":
		h := map[string]any{"kid": nil}
		for k, v := range s.Header {
			h[k] = v
		}
		s.Header = h
	case "own-extra-key", "own-extra-key-self":
		// the issuer lists a key in its own configuration only and signs with it
		if n := f.By[fmt.Sprint(s.Claims["iss"])]; n != nil {
			k := NewKey("ES256", fmt.Sprintf("k%x", r.Int63()))
			n.EC.Claims["jwks"] = JWKS(append(append([]*Key{}, n.Keys...), k)...)
			t := s
			if name == "own-extra-key-self" {
				t = n.EC
			}
			t.Key = k
		}
	case "attest-subset":
		// only one of the keys of the subject is attested
		if n := f.By[fmt.Sprint(s.Claims["sub"])]; n != nil {
			if len(n.Keys) < 2 {
				k := NewKey("ES256", fmt.Sprintf("k%x", r.Int63()))
				n.Keys = append(n.Keys, k)
				n.EC.Claims["jwks"] = JWKS(n.Keys...)
				for _, h := range n.Hints {
					if x := f.By[h]; x != nil && x.About[n.ID] != nil {
						x.About[n.ID].Claims["jwks"] = JWKS(n.Keys...)
					}
				}
			}
			s.Claims["jwks"] = JWKS(n.Keys[r.Intn(len(n.Keys))])
			for _, x := range n.About {
				x.Key = n.Keys[r.Intn(len(n.Keys))]
			}
		}
	case "attest-extra":
		// the superior attests a further key, which the subject uses for one statement
		if n := f.By[fmt.Sprint(s.Claims["sub"])]; n != nil {
			k := NewKey("ES256", fmt.Sprintf("k%x", r.Int63()))
			s.Claims["jwks"] = JWKS(append(append([]*Key{}, n.Keys...), k)...)
			ss := []*Stmt{n.EC}
			for _, x := range f.Nodes {
				if st := n.About[x.ID]; st != nil {
					ss = append(ss, st)
				}
			}
			ss[r.Intn(len(ss))].Key = k
		}
	case "sign-superior":
		if n := f.By[fmt.Sprint(s.Claims["iss"])]; n != nil && len(n.Hints) > 0 {
			if x := f.By[n.Hints[r.Intn(len(n.Hints))]]; x != nil {
				s.Key = x.Keys[r.Intn(len(x.Keys))]
			}
		}
	case "sign-subordinate":
		if n := f.By[fmt.Sprint(s.Claims["sub"])]; n != nil {
			s.Key = n.Keys[r.Intn(len(n.Keys))]
		}
	case "sign-anchor":
		s.Key = f.Nodes[0].Keys[0]
	case "kid-collision":
		// a second key with the same kid is attested as well
		if n := f.By[fmt.Sprint(s.Claims["sub"])]; n != nil {
			ks := append([]*Key{NewKey("ES256", n.Keys[0].Kid)}, n.Keys...)
			if Chance(r, 0.5) {
				ks = append(append([]*Key{}, n.Keys...), NewKey("ES256", n.Keys[0].Kid))
			}
			s.Claims["jwks"] = JWKS(ks...)
		}
	case "jwks-no-kid":
		if n := f.By[fmt.Sprint(s.Claims["sub"])]; n != nil {
			l := []any{}
			for _, k := range n.Keys {
				j := k.JWK()
				delete(j, "kid")
				l = append(l, j)
			}
			s.Claims["jwks"] = map[string]any{"keys": l}
		}
	case "hints-none":
		delete(s.Claims, "authority_hints")
	case "space-around":
		s.Claims["iss"] = fmt.Sprint(" ", s.Claims["iss"])
	default:
		panic(name)
	}
}

func ToggleSlash(v any) string {
	s, _ := v.(string)
	if strings.HasSuffix(s, "/") {
		return strings.TrimSuffix(s, "/")
	}
	return s + "/"
}

// AddConstraints puts random constraints on random subordinate statements.
func (f *Fed) AddConstraints(p float64) {
	r := f.Rng
	for _, n := range f.Nodes {
		for _, h := range f.Nodes {
			s := n.About[h.ID]
			if s == nil || !Chance(r, p) {
				continue
			}
			f.ConstrainStmt(s, 1+r.Intn(7))
		}
	}
}

// ConstrainStmt adds random constraints; bits of which choose the kinds.
func (f *Fed) ConstrainStmt(s *Stmt, which int) {
	r := f.Rng
	c := map[string]any{}
	if which&1 != 0 {
		c["max_path_length"] = r.Intn(4)
	}
	if which&2 != 0 {
		nc := map[string]any{}
		k := r.Intn(4)
		if k != 1 {
			nc["permitted"] = f.names(r, true)
		}
		if k == 1 || k == 2 {
			nc["excluded"] = f.names(r, false)
		}
		c["naming_constraints"] = nc
	}
	if which&4 != 0 || which == 3 && Chance(r, 0.5) {
		l := []any{}
		for _, t := range []string{
			"openid_provider", "openid_relying_party", "custom_entity", "oauth_client", "oauth_resource", "federation_entity",
		} {
			if Chance(r, 0.65) {
				l = append(l, t)
			}
		}
		c["allowed_entity_types"] = l
	}
	s.Claims["constraints"] = c
}

func (f *Fed) names(r *rand.Rand, wide bool) []any {
	l := []any{}
	for i := r.Intn(4); i > 0; i-- {
		n := f.Nodes[r.Intn(len(f.Nodes))]
		h := strings.Split(n.Host, ":")[0]
		switch r.Intn(7) {
		case 0, 1:
			l = append(l, h)
		case 2:
			l = append(l, "."+h)
		case 3:
			l = append(l, h[1:])
		case 4:
			l = append(l, ".sub."+f.W.Suffix)
		case 5:
			l = append(l, "."+f.W.Suffix[1:])
		case 6:
			l = append(l, f.W.Suffix)
		}
	}
	if wide && Chance(r, 0.6) {
		l = append(l, "."+f.W.Suffix)
	}
	return l
}
