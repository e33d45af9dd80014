package main

import (
	"errors"
	"fmt"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"

	"github.com/go-oidfed/lib/verifharness/fed"
	"github.com/go-oidfed/lib/verifharness/rt"
)

func init() {
	register("C18", property{run: runC18})
}

// rpKey is the key of a client with the kid that the library uses.
func rpKey(k *rt.Case) *fed.Key {
	key := fed.NewKey(fed.Pick(k.Rng, fed.Algs...), "")
	key.Kid = fed.Thumbprint(key.JWK())
	return key
}

// assertionIs checks a JWT of the client: signed with its key, fresh, with exactly the wanted claims and a new jti.
func assertionIs(k *rt.Case, what, raw string, key *fed.Key, want map[string]any, jtis map[string]bool, givenJTI bool, life int64, t0, t1 time.Time) {
	det := map[string]any{"jwt": raw, "want": want}
	t, err := fed.Decode([]byte(raw))
	if err != nil {
		k.Violation(what+" is not a compact JWT", det)
		return
	}
	if t.Verify(generic(fed.JWKS(key))) != fed.Yes || t.Header["alg"] != key.Alg {
		det["header"] = t.Header
		k.Violation(what+" is not signed with the key of the client", det)
	}
	got := map[string]any{}
	for n, v := range t.Claims {
		got[n] = v
	}
	iat, ok := t.Num("iat")
	exp, ok2 := t.Num("exp")
	if !ok || !ok2 || iat < float64(t0.Unix()) || iat > float64(t1.Unix()) || exp != iat+float64(life) {
		k.Violation(what+" has wrong times", det)
	}
	if !givenJTI {
		jti := t.Str("jti")
		if len(jti) < 8 || jtis[jti] {
			det["jti"] = jti
			k.Violation(what+" does not have a jti of its own", det)
		}
		jtis[jti] = true
		delete(got, "jti")
	}
	delete(got, "iat")
	delete(got, "exp")
	if !reflect.DeepEqual(any(got), generic(want)) {
		det["got"] = got
		k.Violation(what+" has other claims", det)
	}
}

// objectCase makes request objects and client assertions.
func objectCase(k *rt.Case) {
	r := k.Rng
	g := docGen(k)
	key := rpKey(k)
	id := "https://rp.example/" + fmt.Sprint(r.Intn(100))
	life := fed.Pick[int64](r, 60, 1, 3600, 100000)
	rop := oidfed.NewRequestObjectProducer(id, key.Priv, alg(key.Alg), life)
	jtis := map[string]bool{}
	var mu sync.Mutex
	if fed.Chance(r, 0.15) {
		vals := map[string]any{"x": 1.0}
		for _, v := range []map[string]any{nil, {}, vals} {
			if ro, err := rop.RequestObject(v); err == nil {
				k.Violation("a request object without audience", map[string]any{"jwt": string(ro)})
			}
		}
		k.Eval("no aud")
		return
	}
	vals := map[string]any{}
	for _, n := range []string{"scope", "state", "nonce", "response_type", "claims", "max_age", "sub", "client_secret", "iss", "client_id", "exp", "iat", "nbf", "x_y", "prompt"} {
		if fed.Chance(r, 0.4) {
			vals[n] = g.Any(2)
		}
	}
	vals["aud"] = fed.Pick[any](r, "https://op.example", []any{"https://op.example", "https://op2.example"})
	givenJTI := fed.Chance(r, 0.2)
	if givenJTI {
		vals["jti"] = "my-" + g.Str()
	}
	want := map[string]any{}
	for n, v := range vals {
		switch n {
		case "sub", "client_secret", "iss", "client_id", "exp", "iat":
		default:
			want[n] = v
		}
	}
	want["iss"], want["client_id"] = id, id
	before := string(canon(generic(vals)))
	work := func() {
		t0 := time.Now()
		ro, err := rop.RequestObject(vals)
		t1 := time.Now()
		mu.Lock()
		defer mu.Unlock()
		if err != nil {
			k.Violation("no request object", map[string]any{"err": err.Error(), "values": vals})
			return
		}
		assertionIs(k, "a request object", string(ro), key, want, jtis, givenJTI, life, t0, t1)
		k.Count("request_objects", 1)
	}
	assertion := func() {
		aud := "https://op.example/token"
		t0 := time.Now()
		ca, err := rop.ClientAssertion(aud)
		t1 := time.Now()
		mu.Lock()
		defer mu.Unlock()
		if err != nil {
			k.Violation("no client assertion", map[string]any{"err": err.Error()})
			return
		}
		assertionIs(k, "a client assertion", string(ca), key, map[string]any{"iss": id, "sub": id, "aud": aud}, jtis, false, life, t0, t1)
		k.Count("client_assertions", 1)
	}
	if fed.Chance(r, 0.3) {
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				work()
				assertion()
			}()
		}
		wg.Wait()
		k.Count("concurrent", 1)
	} else {
		for i := 0; i < 3; i++ {
			work()
			assertion()
		}
	}
	if after := string(canon(generic(vals))); after != before {
		k.Violation("the values for a request object are changed", map[string]any{"before": before, "after": after})
	}
	var names []string
	for n := range vals {
		names = append(names, n)
	}
	sort.Strings(names)
	k.Eval("object/" + key.Alg + "/" + strings.Join(names, ","))
}

// answer of a token endpoint with what is expected.
type tokenAnswer struct {
	kind string
	resp *fed.Resp
	tok  map[string]any
	oerr map[string]any
	fail bool
}

var tokenKinds = []string{
	"ok", "ok", "ok", "bare", "error", "error200", "html500", "json500", "empty200", "empty500", "array", "string", "null", "drop", "cut",
	"badtype", "json404", "garbage", "json302", "bom",
}

func genToken(k *rt.Case, kind string) *tokenAnswer {
	r := k.Rng
	g := docGen(k)
	a := &tokenAnswer{kind: kind}
	tok := map[string]any{
		"access_token": "at-" + g.Str(), "token_type": "Bearer", "expires_in": float64(1 + r.Intn(100000)), "scope": "openid " + g.Str(), "id_token": g.JWT(),
	}
	if fed.Chance(r, 0.5) {
		tok["refresh_token"] = "rt-" + g.Str()
	}
	g.Extras(tok, "OIDCTokenResponse")
	delete(tok, "error")
	js := func(st int, v any) *fed.Resp {
		return &fed.Resp{Status: st, Type: fed.Pick(r, "application/json", "application/json;charset=UTF-8"), Body: fed.MustJSON(v)}
	}
	a.fail = true
	switch kind {
	case "ok":
		a.fail, a.tok = false, tok
		a.resp = js(200, tok)
	case "bare":
		a.fail, a.tok = false, map[string]any{"access_token": "a", "token_type": "Bearer"}
		a.resp = js(200, a.tok)
	case "error", "error200":
		a.fail = false
		a.oerr = map[string]any{"error": fed.Pick(r, "invalid_grant", "invalid_client", "server_error", "x")}
		if fed.Chance(r, 0.5) {
			a.oerr["error_description"] = g.Str()
		}
		st := fed.Pick(r, 400, 401, 403, 500, 503)
		if kind == "error200" {
			st = 200
		}
		a.resp = js(st, a.oerr)
	case "html500":
		a.resp = &fed.Resp{Status: fed.Pick(r, 500, 502, 404), Type: "text/html", Body: []byte("<html>oops</html>")}
	case "json500":
		a.resp = js(fed.Pick(r, 500, 503, 400), map[string]any{"message": "oops"})
	case "json404":
		a.resp = js(404, fed.Pick[any](r, tok, map[string]any{}))
	case "json302":
		a.resp = js(304, map[string]any{})
		a.resp.Body = nil
	case "empty200":
		a.resp = &fed.Resp{Status: 200, Type: "application/json"}
	case "empty500":
		a.resp = &fed.Resp{Status: 500, Type: "application/json"}
	case "array":
		a.resp = js(200, []any{tok})
	case "string":
		a.resp = js(200, "token")
	case "null":
		a.resp = js(500, nil)
	case "drop":
		a.resp = &fed.Resp{Drop: true}
	case "cut":
		a.resp = js(200, tok)
		a.resp.Truncate = true
	case "badtype":
		tok["expires_in"] = []any{1}
		a.resp = js(200, tok)
	case "garbage":
		a.resp = js(200, tok)
		a.resp.Body = a.resp.Body[:len(a.resp.Body)/2]
	case "bom":
		a.resp = js(200, tok)
		a.resp.Body = append([]byte("\xef\xbb\xbf"), a.resp.Body...)
	}
	return a
}

// opWorld is a federation with a provider and a client.
type opWorld struct {
	k       *rt.Case
	f       *fed.Fed
	op      *fed.Node
	leaf    *oidfed.FederationLeaf
	key     *fed.Key
	id      string
	anchors []fed.Anchor
}

func newOPWorld(k *rt.Case) *opWorld {
	r := k.Rng
	w := fed.NewWorld()
	o := randOpts(r)
	o.LeafTypes = []string{"openid_provider"}
	if fed.Chance(r, 0.1) {
		o.LeafTypes = []string{"openid_relying_party"}
	}
	f := fed.NewFed(r, w, o)
	x := &opWorld{k: k, f: f, op: f.Nodes[len(f.Nodes)-1]}
	if m, ok := x.op.Meta["openid_provider"].(map[string]any); ok {
		base := "http://" + x.op.Host
		m["authorization_endpoint"] = base + fed.Pick(
			r, "/authorize", "/authorize?tenant=a%26b&x=1", "/a/b?request=old", "", "/auth#frag", "/auth?q=a%20b&q=c", "?only=query", "/%2Fenc", "/auth/", "/auth/?x=/", "/", "/Auth//a",
		)
		m["token_endpoint"] = base + fed.Pick(r, "/token", "/t/oken", "/t/oken/", "/Token")
		if fed.Chance(r, 0.2) {
			m["issuer"] = base + "/issuer"
		}
		f.Rebuild()
		if fed.Chance(r, 0.4) {
			// superiors decide
			e := fed.Policies{"openid_provider": {}}
			switch r.Intn(4) {
			case 0:
				e["openid_provider"]["token_endpoint"] = fed.PolicyEntry{"value": base + "/forced"}
			case 1:
				e["openid_provider"]["authorization_endpoint"] = fed.PolicyEntry{"value": base + "/login?forced=1"}
			case 2:
				e["openid_provider"]["issuer"] = fed.PolicyEntry{"one_of": []any{"https://nobody.example"}}
			case 3:
				e["openid_provider"]["acr_values_supported"] = fed.PolicyEntry{"essential": true}
			}
			for _, n := range f.Nodes {
				if s := n.About[x.op.ID]; s != nil && fed.Chance(r, 0.8) {
					s.Claims["metadata_policy"] = generic(e)
				}
			}
		}
	}
	if fed.Chance(r, 0.3) {
		for i := 0; i <= r.Intn(3); i++ {
			f.Mutate(allMutations[r.Intn(len(allMutations))])
		}
	}
	f.Publish()
	for _, n := range f.Nodes {
		if n.Level == 0 && (fed.Chance(r, 0.8) || len(x.anchors) == 0) {
			x.anchors = append(x.anchors, fed.Anchor{ID: n.ID})
		}
	}
	x.id = "http://rp." + w.Suffix
	x.key = rpKey(k)
	fk := fed.NewKey("ES256", "")
	var err error
	x.leaf, err = oidfed.NewFederationLeaf(
		x.id, nil, toAnchors(x.anchors), nil, oidfed.NewEntityStatementSigner(fk.Priv, alg("ES256")), 0, x.key.Priv, alg(x.key.Alg), nil,
	)
	if err != nil {
		panic(err)
	}
	return x
}

// metas gives the provider metadata that may be used (those of the shortest valid chains), and whether there must be one.
func (x *opWorld) metas(t0, t1 time.Time) (v fed.Verdict, ms []map[string]any) {
	m := &fed.Model{W: x.f.W, Anchors: x.anchors, Types: []string{"openid_provider"}, T0: t0, T1: t1}
	short := 1 << 30
	chains := m.Chains(x.op.ID)
	ok := make([]map[string]any, len(chains))
	for i, c := range chains {
		md, err := chainMeta(c.Raw)
		if err != nil {
			continue
		}
		op, _ := md["openid_provider"].(map[string]any)
		if op == nil {
			op = map[string]any{"missing": true}
		}
		ok[i] = op
		if c.V == fed.Yes && len(c.Raw) < short {
			short = len(c.Raw)
		}
		if c.V > v {
			v = c.V
		}
	}
	for i, c := range chains {
		// an anchor's own configuration and a chain with one statement both have no intermediates
		if ok[i] != nil && (len(c.Raw) <= short || len(c.Raw) <= 3) {
			ms = append(ms, ok[i])
		}
	}
	return
}

func (x *opWorld) det() map[string]any {
	return map[string]any{"op": x.op.ID, "anchors": anchorIDs(x.anchors), "mutations": x.f.Muts, "metadata": x.op.EC.Claims["metadata"]}
}

func params(k *rt.Case) url.Values {
	r := k.Rng
	if fed.Chance(r, 0.3) {
		return nil
	}
	p := url.Values{}
	for i := 0; i < r.Intn(4); i++ {
		n := fed.Pick(r, "nonce", "prompt", "code_verifier", "x y", "login_hint", "resource", "grant_type", "client_id", "state", "aud", "request", "client_assertion")
		p[n] = append(p[n], fed.Pick(r, "a", "b c", "ü&=", ""))
	}
	return p
}

func flowCase(k *rt.Case) {
	x := newOPWorld(k)
	defer x.f.W.Close()
	var i int
	_, _ = fmt.Sscanf(k.Name, "flow#%d", &i)
	x.flow(k, i*3, map[string]bool{})
}

// flowChange uses a provider again after it has moved.
func flowChange(k *rt.Case) {
	x := newOPWorld(k)
	defer x.f.W.Close()
	jtis := map[string]bool{}
	x.flow(k, k.Rng.Intn(3)*3, jtis)
	for range 1 + k.Rng.Intn(2) {
		did := x.move(k)
		k.Logf("changes %v", did)
		for _, d := range did {
			what, _, _ := strings.Cut(d, " of ")
			what, _, _ = strings.Cut(what, ":")
			k.Count("change: "+what, 1)
		}
		x.flow(k, k.Rng.Intn(len(tokenKinds)), jtis)
	}
}

// flow uses a provider.
func (x *opWorld) flow(k *rt.Case, i int, jtis map[string]bool) {
	r := k.Rng
	w := x.f.W
	var mu sync.Mutex
	var forms []fed.Req
	var cur *tokenAnswer
	handle := func(q fed.Req) *fed.Resp {
		mu.Lock()
		defer mu.Unlock()
		forms = append(forms, q)
		return cur.resp
	}
	for _, p := range []string{"/token", "/t/oken", "/t/oken/", "/Token", "/token2", "/forced"} {
		w.Handle("http://"+x.op.Host+p, handle)
	}
	t0 := time.Now()
	// metadata
	om, omErr := x.leaf.ResolveOPMetadata(x.op.ID)
	state, scope, redirect := "st"+fmt.Sprint(r.Intn(99)), "openid "+fed.Pick(r, "profile", "a+b"), x.id+fed.Pick(r, "/cb", "/cb?a=b&c=d")
	ap := params(k)
	apBefore := string(fed.MustJSON(ap))
	a0 := time.Now()
	au, auErr := x.leaf.GetAuthorizationURL(x.op.ID, redirect, state, scope, ap)
	a1 := time.Now()
	if string(fed.MustJSON(ap)) != apBefore {
		k.Violation("the additional parameters of the authorization request are changed", map[string]any{"before": apBefore, "after": ap})
	}
	type exchange struct {
		a      *tokenAnswer
		p      url.Values
		code   string
		tok    *oidfed.OIDCTokenResponse
		oerr   *oidfed.OIDCErrorResponse
		err    error
		q      []fed.Req
		t0, t1 time.Time
	}
	var exs []*exchange
	tp := params(k)
	for j := 0; j < 3; j++ {
		e := &exchange{a: genToken(k, tokenKinds[(i+j)%len(tokenKinds)]), p: tp, code: fmt.Sprintf("c%d", j)}
		mu.Lock()
		cur, forms = e.a, nil
		mu.Unlock()
		before := string(fed.MustJSON(tp))
		e.t0 = time.Now()
		e.tok, e.oerr, e.err = x.leaf.CodeExchange(x.op.ID, e.code, redirect, tp)
		e.t1 = time.Now()
		mu.Lock()
		e.q = forms
		mu.Unlock()
		if string(fed.MustJSON(tp)) != before {
			k.Violation("the additional parameters of the token request are changed", map[string]any{"before": before, "after": tp})
			return
		}
		exs = append(exs, e)
	}
	t1 := time.Now()
	v, ms := x.metas(t0, t1)
	key := fmt.Sprintf("flow/%d/%d/%s/%v", v, len(ms), mutNames(x.f.Muts), ap != nil)
	defer func() { k.Eval(key) }()
	pick := func(f func(m map[string]any) bool) bool {
		for _, m := range ms {
			if f(m) {
				return true
			}
		}
		return false
	}
	missing := func(m map[string]any) bool { return m["missing"] == true }
	untrusted := v == fed.No
	if untrusted {
		// nothing may be used, and nobody is given the code
		if omErr == nil || auErr == nil {
			k.Violation("a provider is used that is not trusted", x.det())
		}
		for _, e := range exs {
			if e.err == nil || len(e.q) > 0 || e.tok != nil || e.oerr != nil {
				k.Violation("a code is sent to a provider that is not trusted", x.det())
			}
		}
		k.Count("untrusted_providers", 1)
		return
	}
	k.Count("trusted_providers", 1)
	must := v == fed.Yes && !pick(missing)
	if must && (omErr != nil || auErr != nil) {
		d := x.det()
		d["err"] = fmt.Sprint(omErr, auErr)
		k.Violation("a trusted provider cannot be used", d)
		return
	}
	if omErr == nil {
		got := string(canon(generic(om)))
		if !pick(func(m map[string]any) bool { return docDiff("OpenIDProviderMetadata", m, []byte(got)) == "" }) {
			d := x.det()
			d["got"], d["want"] = generic(om), ms
			k.Violation("the metadata of a provider is not that of a trusted chain", d)
			return
		}
	}
	if auErr == nil {
		if !pick(func(m map[string]any) bool { return x.authURL(au, m, nil) == "" }) {
			d := x.det()
			d["url"], d["want"] = au, ms
			if len(ms) > 0 {
				d["why"] = x.authURL(au, ms[0], nil)
			}
			k.Violation("an authorization request goes to another place", d)
		} else {
			u, _ := url.Parse(au)
			q := u.Query()
			want := map[string]string{"client_id": x.id, "response_type": "code", "redirect_uri": redirect, "scope": scope}
			for n, s := range want {
				if !reflect.DeepEqual(q[n], []string{s}) {
					d := x.det()
					d["url"], d["param"] = au, n
					k.Violation("a parameter of the authorization request is wrong", d)
				}
			}
			if len(q["request"]) != 1 {
				k.Violation("no request object in the authorization request", map[string]any{"url": au})
			} else {
				claims := map[string]any{}
				for n, l := range ap {
					if len(l) == 1 {
						claims[n] = l[0]
					} else {
						claims[n] = l
					}
				}
				delete(claims, "sub")
				delete(claims, "client_secret")
				claims["redirect_uri"], claims["state"], claims["response_type"], claims["scope"] = redirect, state, "code", scope
				claims["iss"], claims["client_id"] = x.id, x.id
				t, err := fed.Decode([]byte(q.Get("request")))
				if err == nil {
					aud := t.Str("aud")
					if !pick(func(m map[string]any) bool { return m["issuer"] == aud }) {
						k.Violation("a request object is made out to somebody else", map[string]any{"aud": aud, "op": ms})
					}
					claims["aud"] = aud
				}
				assertionIs(k, "a request object", q.Get("request"), x.key, claims, jtis, false, 60, a0, a1)
				k.Count("authorization_urls", 1)
			}
		}
	}
	for _, e := range exs {
		x.exchange(k, e.a, e.p, e.code, redirect, e.tok, e.oerr, e.err, e.q, ms, must, jtis, e.t0, e.t1)
		key += "/" + e.a.kind
	}
}

// authURL tells why a URL does not belong to the endpoint.
func (x *opWorld) authURL(au string, m map[string]any, _ any) string {
	ep, _ := m["authorization_endpoint"].(string)
	a, err := url.Parse(au)
	if err != nil {
		return err.Error()
	}
	b, err := url.Parse(ep)
	if err != nil {
		return err.Error()
	}
	if a.Scheme != b.Scheme || a.Host != b.Host || a.EscapedPath() != b.EscapedPath() {
		return "another endpoint"
	}
	aq := a.Query()
	for n, l := range b.Query() {
		switch n {
		case "request", "client_id", "response_type", "redirect_uri", "scope":
			continue
		}
		if !reflect.DeepEqual(aq[n], l) {
			return "query of the endpoint is lost"
		}
	}
	for n := range aq {
		switch n {
		case "request", "client_id", "response_type", "redirect_uri", "scope":
			continue
		}
		if !b.Query().Has(n) {
			return "another parameter " + n
		}
	}
	return ""
}

func (x *opWorld) exchange(
	k *rt.Case, a *tokenAnswer, p url.Values, code, redirect string, tok *oidfed.OIDCTokenResponse, oerr *oidfed.OIDCErrorResponse, err error, qs []fed.Req,
	ms []map[string]any, must bool, jtis map[string]bool, t0, t1 time.Time,
) {
	d := x.det()
	d["answer"] = a.kind
	if a.resp != nil {
		d["body"] = string(a.resp.Body)
	}
	if len(qs) == 0 {
		if must {
			d["err"] = fmt.Sprint(err)
			k.Violation("no token request is sent", d)
		} else if err == nil {
			k.Violation("a token response without token request", d)
		}
		return
	}
	if len(qs) > 1 && a.kind != "drop" {
		k.Violation("a code is sent more than once", d)
	}
	for _, q := range qs {
		ep := "http://" + q.Host + q.Path
		var ok bool
		for _, m := range ms {
			ok = ok || m["token_endpoint"] == ep
		}
		if !ok || q.Method != "POST" {
			d["endpoint"] = q.String()
			k.Violation("a code is sent to another endpoint", d)
			continue
		}
		want := url.Values{}
		for n, l := range p {
			want[n] = l
		}
		want["grant_type"], want["code"], want["redirect_uri"], want["client_id"] = []string{"authorization_code"}, []string{code}, []string{redirect}, []string{x.id}
		want["client_assertion_type"] = []string{"urn:ietf:params:oauth:client-assertion-type:jwt-bearer"}
		got := url.Values{}
		for n, l := range q.Form {
			got[n] = l
		}
		ca := q.Form["client_assertion"]
		delete(got, "client_assertion")
		delete(want, "client_assertion")
		if !reflect.DeepEqual(got, want) || len(ca) != 1 || len(q.Query) > 0 {
			d["got"], d["want"] = q.Form, want
			k.Violation("a token request has other parameters", d)
			continue
		}
		if len(qs) == 1 {
			assertionIs(
				k, "a client assertion", ca[0], x.key, map[string]any{"iss": x.id, "sub": x.id, "aud": ep}, jtis, false, 60, t0, t1,
			)
		}
		k.Count("token_requests", 1)
	}
	n := 0
	for _, b := range []bool{tok != nil, oerr != nil, err != nil} {
		if b {
			n++
		}
	}
	if n != 1 {
		k.Violation("a token request does not have exactly one outcome", d)
		return
	}
	switch {
	case a.fail:
		if tok != nil {
			d["got"] = generic(tok)
			k.Violation("a failed token request is a success", d)
		}
		// an error may be told either way
	case a.oerr != nil:
		if oerr == nil || string(canon(generic(oerr))) != string(canon(generic(a.oerr))) {
			d["err"] = fmt.Sprint(err)
			k.Violation("the error of a token endpoint is lost", d)
		}
	case a.tok != nil:
		if tok == nil {
			d["err"] = fmt.Sprint(err)
			k.Violation("a token response is refused", d)
		} else if diff := fieldDiff("OIDCTokenResponse", generic(a.tok).(map[string]any), tok); diff != "" {
			d["diff"] = diff
			k.Violation("a token response is not what the provider said", d)
		}
	}
	k.Count("answers "+a.kind, 1)
}

// stubResolver is a metadata resolver that says what it is told to.
type stubResolver struct {
	m   *oidfed.Metadata
	err error
	req *apimodel.ResolveRequest
}

func (s stubResolver) Resolve(req apimodel.ResolveRequest) (*oidfed.Metadata, error) {
	*s.req = req
	return s.m, s.err
}

func (s stubResolver) ResolveResponsePayload(apimodel.ResolveRequest) (p oidfed.ResolveResponsePayload, err error) {
	return p, s.err
}

func (stubResolver) ResolvePossible(apimodel.ResolveRequest) (bool, bool) { return true, false }

// customResolver replaces the default resolver.
func customResolver(k *rt.Case) {
	r := k.Rng
	x := newOPWorld(k)
	defer x.f.W.Close()
	old := oidfed.DefaultMetadataResolver
	defer func() { oidfed.DefaultMetadataResolver = old }()
	var req apimodel.ResolveRequest
	s := stubResolver{req: &req}
	kind := fed.Pick(r, "ok", "none", "other", "error", "both")
	switch kind {
	case "ok", "both":
		s.m = decode[oidfed.Metadata](map[string]any{"openid_provider": fed.OPMeta("http://stub.test")})
	case "other":
		s.m = decode[oidfed.Metadata](map[string]any{"openid_relying_party": fed.RPMeta("http://stub.test")})
	}
	if kind == "error" || kind == "both" {
		s.err = errors.New("no")
	}
	oidfed.DefaultMetadataResolver = s
	m, err := x.leaf.ResolveOPMetadata(x.op.ID)
	d := map[string]any{"kind": kind}
	if (kind == "ok") != (err == nil) || (err == nil && m == nil) {
		d["err"] = fmt.Sprint(err)
		k.Violation("the answer of the metadata resolver is not used", d)
	} else if kind == "ok" && (m.Issuer != "http://stub.test" || m.TokenEndpoint != "http://stub.test/token") {
		k.Violation("the answer of the metadata resolver is not used", d)
	}
	if req.Subject != x.op.ID || !reflect.DeepEqual(req.TrustAnchor, x.leaf.TrustAnchors.EntityIDs()) || !reflect.DeepEqual(req.EntityTypes, []string{"openid_provider"}) {
		d["request"] = generic(req)
		k.Violation("the metadata resolver is asked for something else", d)
	}
	u, err2 := x.leaf.GetAuthorizationURL(x.op.ID, x.id+"/cb", "s", "openid", nil)
	if (kind == "ok") != (err2 == nil) || (kind == "ok" && !strings.HasPrefix(u, "http://stub.test/authorize?")) {
		d["url"], d["err"] = u, fmt.Sprint(err2)
		k.Violation("the answer of the metadata resolver is not used", d)
	}
	if kind != "ok" {
		tok, oerr, err3 := x.leaf.CodeExchange(x.op.ID, "c", x.id+"/cb", nil)
		if tok != nil || oerr != nil || err3 == nil {
			k.Violation("a code exchange without provider", d)
		}
	}
	k.Eval("custom/" + kind)
	k.Count("custom_resolver", 1)
}

func runC18(c *rt.Ctx) {
	c.Rule = "Request objects and client assertions are made from random values, repeatedly and concurrently from the same values, and decoded and " +
		"verified by an independent JOSE implementation. Random federations (with attacks, policies on the endpoints, endpoints with queries) with a " +
		"provider are served; authorization URLs are taken apart and compared with the metadata the reference derives for the shortest valid chains, " +
		"scripted token endpoints record the form of every token request and answer in 20 ways; a provider the reference does not trust must never be " +
		"asked. Distinct by verdict, number of metadata variants, mutations, answers, claim names, algorithm."
	c.Assume = []string{"parameters named as the library's own are overwritten", "an endpoint without chain of valid metadata is not trusted"}
	c.RunParallel("object", c.N(3000, 80000), objectCase)
	c.RunParallel("flow", c.N(1500, 40000), flowCase)
	c.Run("custom", c.N(100, 2000), customResolver)
	uncached(func() { c.RunParallel("change", c.N(500, 12000), flowChange) })
}
