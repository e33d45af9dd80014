package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/unixtime"

	"github.com/go-oidfed/lib/verifharness/fed"
	"github.com/go-oidfed/lib/verifharness/rt"
)

func init() {
	register("C10", property{run: runC10})
	register("C11", property{run: runC11, race: true})
}

func alg(a string) jwa.SignatureAlgorithm {
	r, ok := jwa.LookupSignatureAlgorithm(a)
	if !ok {
		panic(a)
	}
	return r
}

// ownKid gives the key the kid under which the library publishes it.
func ownKid(k *fed.Key, set any) *fed.Key {
	m, _ := generic(set).(map[string]any)
	l, _ := m["keys"].([]any)
	if len(l) == 1 {
		j, _ := l[0].(map[string]any)
		k.Kid, _ = j["kid"].(string)
	}
	return k
}

// jwtIs checks a JWT issued by the library: header, signature with the published keys, and exactly the expected claims;
// numeric times iat and exp are given as ranges.
func jwtIs(k *rt.Case, what string, raw []byte, typ string, key *fed.Key, set any, want map[string]any, t0, t1 time.Time, life time.Duration) bool {
	t, err := fed.Decode(raw)
	det := map[string]any{"jwt": string(raw), "expected": want, "lifetime": life.String()}
	if err != nil {
		k.Violation(what+" is not a compact JWT", det)
		return false
	}
	if t.Typ() != typ {
		det["typ"] = t.Header["typ"]
		k.Violation(what+" has the wrong token type", det)
		return false
	}
	if t.Header["alg"] != key.Alg {
		det["alg"] = t.Header["alg"]
		k.Violation(what+" is signed with another algorithm", det)
		return false
	}
	if v := t.Verify(generic(set)); v != fed.Yes {
		det["set"] = generic(set)
		k.Violation(what+" does not verify with the published keys", det)
		return false
	}
	if t.Verify(generic(fed.JWKS(key))) != fed.Yes {
		k.Violation(what+" is not signed with the given key", det)
		return false
	}
	got := map[string]any{}
	for n, v := range t.Claims {
		got[n] = v
	}
	iat, ok := t.Num("iat")
	if !ok || iat < float64(t0.UnixNano())/1e9-0.001 || iat > float64(t1.UnixNano())/1e9+0.001 {
		k.Violation(what+" has a wrong issue time", det)
		return false
	}
	delete(got, "iat")
	exp, has := t.Num("exp")
	_, raw2 := t.Claims["exp"]
	switch {
	case life == 0 && raw2:
		k.Violation(what+" expires although it has no lifetime", det)
		return false
	case life != 0 && (!has || math.Abs(exp-iat-life.Seconds()) > 0.01):
		k.Violation(what+" does not expire after its lifetime", det)
		return false
	}
	delete(got, "exp")
	w := generic(want)
	if !reflect.DeepEqual(w, any(got)) {
		det["got"] = got
		k.Violation(what+" has other claims than specified", det)
		return false
	}
	return true
}

func extras(k *rt.Case) map[string]any {
	if fed.Chance(k.Rng, 0.4) {
		return nil
	}
	m := map[string]any{}
	for i := 0; i <= k.Rng.Intn(3); i++ {
		m[fmt.Sprintf("x_%d", k.Rng.Intn(9))] = fed.Pick[any](
			k.Rng, "v", 1.5, true, nil, []any{"a", 1.0}, map[string]any{"k": "v"}, "", 0.0, false,
		)
	}
	return m
}

// issueCase issues marks and delegations.
func issueCase(k *rt.Case) {
	r := k.Rng
	w := fed.NewWorld()
	defer w.Close()
	f := fed.NewFed(r, w, fed.Opts{TAs: 1, Mids: r.Intn(3), Leaves: 2, MaxHints: 1})
	ta, issuer := f.Nodes[0], f.Nodes[len(f.Nodes)-1]
	ik, ok := fed.NewKey(fed.Pick(r, fed.Algs...), ""), fed.NewKey(fed.Pick(r, fed.Algs...), "")
	var signer *oidfed.TrustMarkSigner
	var dsigner *oidfed.TrustMarkDelegationSigner
	if fed.Chance(r, 0.5) {
		signer = oidfed.NewTrustMarkSigner(ik.Priv, alg(ik.Alg))
		dsigner = oidfed.NewTrustMarkDelegationSigner(ok.Priv, alg(ok.Alg))
	} else {
		signer = oidfed.NewGeneralJWTSigner(ik.Priv, alg(ik.Alg)).TrustMarkSigner()
		dsigner = oidfed.NewGeneralJWTSigner(ok.Priv, alg(ok.Alg)).TrustMarkDelegationSigner()
	}
	ownKid(ik, signer.JWKS())
	ownKid(ok, dsigner.JWKS())
	issuer.Keys = []*fed.Key{ik}
	ownerID := "http://owner." + w.Suffix
	f.Rebuild()
	// owned types
	var owned []oidfed.OwnedTrustMark
	var specs []oidfed.TrustMarkSpec
	n := 1 + r.Intn(4)
	listed, owners := map[string]any{}, map[string]any{}
	life := func() time.Duration {
		return fed.Pick(r, 0, 0, time.Hour, 90*time.Minute, 24*time.Hour, 365*24*time.Hour, 2500*time.Millisecond)
	}
	byType := map[string]oidfed.TrustMarkSpec{}
	ownedBy := map[string]oidfed.OwnedTrustMark{}
	for i := 0; i < n; i++ {
		t := fed.RandType(r)
		s := oidfed.TrustMarkSpec{
			TrustMarkType: t, Lifetime: unixtime.DurationInSeconds{Duration: life()}, Extra: extras(k),
			IncludeExtraClaimsInInfo: fed.Chance(r, 0.4),
		}
		if fed.Chance(r, 0.4) {
			s.Ref = "https://ref.example/" + t
		}
		if fed.Chance(r, 0.4) {
			s.LogoURI = "https://logo.example/" + t
		}
		if fed.Chance(r, 0.5) {
			o := oidfed.OwnedTrustMark{ID: t, DelegationLifetime: life(), Extra: extras(k)}
			if fed.Chance(r, 0.4) {
				o.Ref = "https://owner.example/" + t
			}
			owned = append(owned, o)
			ownedBy[t] = o
			owners[t] = map[string]any{"sub": ownerID, "jwks": fed.JWKS(ok)}
		}
		if fed.Chance(r, 0.7) {
			listed[t] = []any{issuer.ID}
		}
		specs = append(specs, s)
		byType[t] = s
	}
	if len(listed) > 0 {
		ta.EC.Claims["trust_mark_issuers"] = listed
	}
	if len(owners) > 0 {
		ta.EC.Claims["trust_mark_owners"] = owners
	}
	f.Publish()
	es, err := oidfed.ParseEntityStatement(ta.EC.Raw())
	if err != nil {
		panic(err)
	}
	// delegations
	first := r.Intn(len(owned) + 1)
	tmo := oidfed.NewTrustMarkOwner(ownerID, dsigner, owned[:first])
	for _, o := range owned[first:] {
		tmo.AddTrustMark(o)
	}
	before := string(fed.MustJSON([]any{specs, owned}))
	lifeArg := func(d time.Duration) ([]time.Duration, time.Duration) {
		if fed.Chance(r, 0.5) {
			return nil, d
		}
		x := fed.Pick(r, 0, time.Hour, 7*time.Minute, 48*time.Hour)
		return []time.Duration{x}, x
	}
	for i := range specs {
		o, has := ownedBy[specs[i].TrustMarkType]
		if !has {
			if _, err := tmo.DelegationJWT(specs[i].TrustMarkType, issuer.ID); err == nil {
				k.Violation("a delegation is issued for an unknown type", nil)
			}
			continue
		}
		arg, want := lifeArg(o.DelegationLifetime)
		t0 := time.Now()
		d, err := tmo.DelegationJWT(o.ID, issuer.ID, arg...)
		t1 := time.Now()
		if err != nil {
			k.Violation("no delegation is issued", map[string]any{"err": err.Error()})
			return
		}
		claims := map[string]any{"iss": ownerID, "sub": issuer.ID, "trust_mark_type": o.ID}
		if o.Ref != "" {
			claims["ref"] = o.Ref
		}
		for n, v := range o.Extra {
			claims[n] = v
		}
		jwtIs(k, "an issued delegation", d, fed.TypDelegation, ok, dsigner.JWKS(), claims, t0, t1, want)
		k.Count("delegations", 1)
		k.Eval(fmt.Sprintf("delegation/%s/%v/%v/%d", ok.Alg, want, o.Ref != "", len(o.Extra)))
		if fed.Chance(r, 0.9) {
			specs[i].DelegationJWT = string(d)
			byType[o.ID] = specs[i]
		}
	}
	before = string(fed.MustJSON([]any{specs, owned}))
	first = r.Intn(len(specs) + 1)
	tmi := oidfed.NewTrustMarkIssuer(issuer.ID, signer, specs[:first])
	for _, s := range specs[first:] {
		tmi.AddTrustMark(s)
	}
	types := tmi.TrustMarkTypes()
	sort.Strings(types)
	var wantTypes []string
	for t := range byType {
		wantTypes = append(wantTypes, t)
	}
	sort.Strings(wantTypes)
	if strings.Join(types, " ") != strings.Join(wantTypes, " ") {
		k.Violation("the types of an issuer are not those it was given", map[string]any{"got": types, "want": wantTypes})
	}
	if _, err := tmi.IssueTrustMark("urn:unknown", "http://x.test"); err == nil {
		k.Violation("a trust mark is issued for an unknown type", nil)
	}
	type job struct {
		s   oidfed.TrustMarkSpec
		sub string
		arg []time.Duration
		d   time.Duration
	}
	var jobs []job
	for i := 0; i < 6; i++ {
		s := byType[wantTypes[r.Intn(len(wantTypes))]]
		arg, d := lifeArg(s.Lifetime.Duration)
		jobs = append(jobs, job{s, fmt.Sprintf("http://subject%d.%s", r.Intn(3), w.Suffix), arg, d})
	}
	taTok, _ := fed.Decode(ta.EC.Raw())
	issue := func(j job) {
		t0 := time.Now()
		info, err := tmi.IssueTrustMark(j.s.TrustMarkType, j.sub, j.arg...)
		t1 := time.Now()
		if err != nil {
			k.Violation("no trust mark is issued", map[string]any{"err": err.Error()})
			return
		}
		claims := map[string]any{"iss": issuer.ID, "sub": j.sub, "trust_mark_type": j.s.TrustMarkType}
		for n, v := range map[string]string{"ref": j.s.Ref, "logo_uri": j.s.LogoURI, "delegation": j.s.DelegationJWT} {
			if v != "" {
				claims[n] = v
			}
		}
		for n, v := range j.s.Extra {
			claims[n] = v
		}
		jwtIs(k, "an issued trust mark", []byte(info.TrustMarkJWT), fed.TypMark, ik, signer.JWKS(), claims, t0, t1, j.d)
		obj := map[string]any{"trust_mark_type": j.s.TrustMarkType, "trust_mark": info.TrustMarkJWT}
		if j.s.IncludeExtraClaimsInInfo {
			for n, v := range j.s.Extra {
				obj[n] = v
			}
		}
		if !reflect.DeepEqual(generic(obj), generic(info)) {
			k.Violation("the info of an issued trust mark is not as specified", map[string]any{"got": generic(info), "want": obj})
		}
		k.Count("trust marks", 1)
		// as issued, and as it comes out of a configuration
		var again oidfed.TrustMarkInfo
		if err = json.Unmarshal(fed.MustJSON(info), &again); err != nil {
			panic(err)
		}
		for how, x := range map[string]*oidfed.TrustMarkInfo{"fresh": info, "published": &again} {
			t0 = time.Now()
			err = x.VerifyFederation(&es.EntityStatementPayload)
			err2 := x.VerifyExternal(signer.JWKS())
			v, why := fed.FederationVerdict(w, []byte(info.TrustMarkJWT), taTok, t0, time.Now())
			ev, _ := fed.ExternalVerdict([]byte(info.TrustMarkJWT), generic(signer.JWKS()), nil, t0, time.Now())
			det := map[string]any{"how": how, "mark": info.TrustMarkJWT, "err": fmt.Sprint(err), "err2": fmt.Sprint(err2), "why": why}
			if (v == fed.Yes && err != nil) || (ev == fed.Yes && err2 != nil) {
				k.Violation("an issued trust mark is refused by the library", det)
			}
			if (v == fed.No && err == nil) || (ev == fed.No && err2 == nil) {
				k.Violation("an issued trust mark that is not valid is accepted by the library", det)
			}
			k.Count(fmt.Sprintf("verified in the federation: %v", []string{"no", "undecided", "yes"}[v]), 1)
			k.Eval(fmt.Sprintf("mark/%s/%s/%d/%s/%v", ik.Alg, how, v, why, j.d))
		}
	}
	if fed.Chance(r, 0.3) {
		var wg sync.WaitGroup
		for _, j := range jobs {
			wg.Add(1)
			go func() { defer wg.Done(); issue(j) }()
		}
		wg.Wait()
	} else {
		for _, j := range jobs {
			issue(j)
		}
	}
	if after := string(fed.MustJSON([]any{specs, owned})); after != before {
		k.Violation("issuing changes the specification", map[string]any{"before": before, "after": after})
	}
}

// reissueCase: issuers and owners of one name with different keys, whose specifications change.
func reissueCase(k *rt.Case) {
	r := k.Rng
	id := "http://issuer.example"
	types := []string{"https://mark.example/a", "https://mark.example/b"}
	type party struct {
		key  *fed.Key
		set  any
		tmi  *oidfed.TrustMarkIssuer
		tmo  *oidfed.TrustMarkOwner
		spec map[string]oidfed.TrustMarkSpec
		own  map[string]oidfed.OwnedTrustMark
	}
	life := func() time.Duration { return fed.Pick(r, 0, time.Hour, 90*time.Minute, 24*time.Hour) }
	newSpec := func(t string) oidfed.TrustMarkSpec {
		s := oidfed.TrustMarkSpec{
			TrustMarkType: t, Lifetime: unixtime.DurationInSeconds{Duration: life()}, Extra: extras(k),
			IncludeExtraClaimsInInfo: fed.Chance(r, 0.5), Ref: fed.Pick(r, "", "https://ref.example/1", "https://ref.example/2"),
			LogoURI: fed.Pick(r, "", "https://logo.example/1", "https://logo.example/2"),
		}
		return s
	}
	newOwned := func(t string) oidfed.OwnedTrustMark {
		return oidfed.OwnedTrustMark{ID: t, DelegationLifetime: life(), Extra: extras(k), Ref: fed.Pick(r, "", "https://o.example/1", "https://o.example/2")}
	}
	var ps []*party
	for range 2 {
		p := &party{key: fed.NewKey(fed.Pick(r, fed.Algs...), ""), spec: map[string]oidfed.TrustMarkSpec{}, own: map[string]oidfed.OwnedTrustMark{}}
		g := oidfed.NewGeneralJWTSigner(p.key.Priv, alg(p.key.Alg))
		ownKid(p.key, g.TrustMarkSigner().JWKS())
		p.set = g.TrustMarkSigner().JWKS()
		p.tmi = oidfed.NewTrustMarkIssuer(id, g.TrustMarkSigner(), nil)
		p.tmo = oidfed.NewTrustMarkOwner(id, g.TrustMarkDelegationSigner(), nil)
		for _, t := range types {
			p.spec[t], p.own[t] = newSpec(t), newOwned(t)
			p.tmi.AddTrustMark(p.spec[t])
			p.tmo.AddTrustMark(p.own[t])
		}
		ps = append(ps, p)
	}
	sub := func() string { return fed.Pick(r, "http://s.example", "http://s.example/", "http://s2.example") }
	var ops []string
	for range 6 + r.Intn(8) {
		i := r.Intn(len(ps))
		p, t := ps[i], types[r.Intn(2)]
		op := fed.Pick(r, "mark", "mark", "delegation", "delegation", "spec", "owned")
		ops = append(ops, fmt.Sprint(op, i))
		k.Count(op, 1)
		t0 := time.Now()
		switch op {
		case "spec":
			p.spec[t] = newSpec(t)
			p.tmi.AddTrustMark(p.spec[t])
		case "owned":
			p.own[t] = newOwned(t)
			p.tmo.AddTrustMark(p.own[t])
		case "mark":
			s, to := p.spec[t], sub()
			info, err := p.tmi.IssueTrustMark(t, to)
			if err != nil {
				k.Violation("no trust mark is issued", map[string]any{"err": err.Error()})
				return
			}
			want := map[string]any{"iss": id, "sub": to, "trust_mark_type": t}
			for n, v := range map[string]string{"ref": s.Ref, "logo_uri": s.LogoURI} {
				if v != "" {
					want[n] = v
				}
			}
			for n, v := range s.Extra {
				want[n] = v
			}
			jwtIs(k, "an issued trust mark", []byte(info.TrustMarkJWT), fed.TypMark, p.key, p.set, want, t0, time.Now(), s.Lifetime.Duration)
			obj := map[string]any{"trust_mark_type": t, "trust_mark": info.TrustMarkJWT}
			if s.IncludeExtraClaimsInInfo {
				for n, v := range s.Extra {
					obj[n] = v
				}
			}
			if !reflect.DeepEqual(generic(obj), generic(info)) {
				k.Violation("the info of an issued trust mark is not as specified", map[string]any{"got": generic(info), "want": obj})
			}
		case "delegation":
			o, to := p.own[t], sub()
			d, err := p.tmo.DelegationJWT(t, to)
			if err != nil {
				k.Violation("no delegation is issued", map[string]any{"err": err.Error()})
				return
			}
			want := map[string]any{"iss": id, "sub": to, "trust_mark_type": t}
			if o.Ref != "" {
				want["ref"] = o.Ref
			}
			for n, v := range o.Extra {
				want[n] = v
			}
			jwtIs(k, "an issued delegation", d, fed.TypDelegation, p.key, p.set, want, t0, time.Now(), o.DelegationLifetime)
		}
	}
	k.Eval("reissue/" + strings.Join(ops, ","))
}

func runC10(c *rt.Ctx) {
	c.Rule = "Random specifications of trust marks and delegations (types, lifetimes, custom lifetimes, references, logos, extra claims, all " +
		"signing algorithms) are issued by the library, sequentially or concurrently; every JWT is decoded and verified by an " +
		"independent JOSE implementation against the published keys and compared claim by claim with the specification, and given " +
		"back to the library for verification in a federation judged by the reference. Distinct by algorithm, lifetime, verdict and reason."
	c.Assume = []string{"extra claims do not repeat the names of standard claims"}
	c.RunParallel("issue", c.N(1500, 40000), issueCase)
	c.RunParallel("again", c.N(800, 20000), reissueCase)
}

// markIssuer is a scripted trust mark endpoint.
type markIssuer struct {
	mu      sync.Mutex
	w       *fed.World
	id      string
	key     *fed.Key
	mode    string
	life    time.Duration // of new marks; 0: no expiry
	release chan struct{}
	reqs    []fed.Req
	minted  map[string]bool
	broke   bool // a connection was broken
}

func newMarkIssuer(w *fed.World, id string) *markIssuer {
	m := &markIssuer{
		w: w, id: id, key: fed.NewKey("ES256", "mk"), life: 100 * time.Hour,
		minted: map[string]bool{},
	}
	now := time.Now()
	ec := map[string]any{
		"iss": m.id, "sub": m.id, "iat": now.Unix() - 60, "exp": now.Add(time.Hour).Unix(), "jwks": fed.JWKS(m.key),
		"metadata": map[string]any{"federation_entity": map[string]any{"federation_trust_mark_endpoint": m.id + "/mark?of=marks"}},
	}
	w.Put(
		fed.ECURL(m.id), "", &fed.Resp{
			Type: "application/entity-statement+jwt",
			Body: fed.Sign(m.key, map[string]any{"typ": fed.TypStatement}, ec),
		},
	)
	w.Handle(m.id+"/mark", m.serve)
	w.Handle(m.id+"/own", m.serve)
	return m
}

// mint makes a mark that ends in d (0: never).
func (m *markIssuer) mint(t, sub string, d time.Duration) string {
	c := map[string]any{
		"iss": m.id, "sub": sub, "trust_mark_type": t, "iat": time.Now().Unix() - 100, "jti": fmt.Sprint(time.Now().UnixNano()),
	}
	if d != 0 {
		c["exp"] = time.Now().Add(d).Unix()
	}
	return string(fed.Sign(m.key, map[string]any{"typ": fed.TypMark}, c))
}

func (m *markIssuer) serve(q fed.Req) *fed.Resp {
	m.mu.Lock()
	m.reqs = append(m.reqs, q)
	mode, life, rel, n := m.mode, m.life, m.release, len(m.reqs)
	m.mu.Unlock()
	if rel != nil {
		<-rel
	}
	if (mode == "500" || mode == "404") && n%2 == 0 {
		// an error all the same
		st, _ := strconv.Atoi(mode)
		return &fed.Resp{Status: st, Type: "application/trust-mark+jwt", Body: []byte(m.mint(q.Query.Get("trust_mark_type"), q.Query.Get("sub"), time.Hour))}
	}
	switch mode {
	case "500":
		return &fed.Resp{Status: 500, Type: "text/plain", Body: []byte("oops")}
	case "404":
		return &fed.Resp{Status: 404, Type: "application/json", Body: []byte(`{"error":"not_found"}`)}
	case "garbage":
		return &fed.Resp{Type: "application/trust-mark+jwt", Body: []byte("garbage")}
	case "empty":
		return &fed.Resp{Type: "application/trust-mark+jwt"}
	case "drop":
		m.mu.Lock()
		m.broke = true
		m.mu.Unlock()
		return &fed.Resp{Type: "application/trust-mark+jwt", Body: []byte("eyJ"), Truncate: true}
	case "typ":
		return &fed.Resp{
			Type: "application/trust-mark+jwt",
			Body: fed.Sign(m.key, map[string]any{"typ": "JWT"}, map[string]any{"iss": m.id, "trust_mark_type": q.Query.Get("trust_mark_type")}),
		}
	}
	if mode == "expired" {
		life = -time.Minute
	}
	raw := m.mint(q.Query.Get("trust_mark_type"), q.Query.Get("sub"), life)
	m.mu.Lock()
	m.minted[raw] = mode != "expired"
	m.mu.Unlock()
	return &fed.Resp{Type: "application/trust-mark+jwt", Body: []byte(raw)}
}

func (m *markIssuer) set(mode string, life time.Duration, rel chan struct{}) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.mode, m.life, m.release = mode, life, rel
}

func (m *markIssuer) requests(t string) (r []fed.Req) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, q := range m.reqs {
		if q.Query.Get("trust_mark_type") == t {
			r = append(r, q)
		}
	}
	return
}

func (m *markIssuer) isMinted(raw string) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.minted[raw]
}

var failModes = []string{"500", "404", "garbage", "empty", "drop", "typ", "expired"}

// cfgKind is one configured mark with what is expected of it.
type cfgKind struct {
	kind  string
	c     *oidfed.EntityConfigurationTrustMarkConfig
	iss   *markIssuer
	typ   string
	jwt   string    // configured
	until time.Time // when that expires, if it does
}

// refreshCase drives one entity with several configured marks.
type refreshCase struct {
	k     *rt.Case
	w     *fed.World
	ent   *oidfed.FederationEntity
	key   *fed.Key
	marks []*cfgKind
	sub   string
}

var refreshKinds = []string{
	"static", "static-expired", "fresh", "grace", "grace-fail", "grace-short", "expired", "short", "expired-fail", "none", "none-fail",
	"none-unexpiring", "jwt-unexpiring", "self", "self-unexpiring", "own", "no-endpoint", "no-configuration",
}

func newRefreshCase(k *rt.Case, kinds []string) *refreshCase {
	r := k.Rng
	rc := &refreshCase{k: k, w: fed.NewWorld()}
	rc.sub = "http://me." + rc.w.Suffix
	rc.key = fed.NewKey("ES256", "")
	g := oidfed.NewGeneralJWTSigner(rc.key.Priv, alg(rc.key.Alg))
	ownKid(rc.key, g.JWKS())
	var err error
	rc.ent, err = oidfed.NewFederationEntity(
		rc.sub, []string{"http://ta." + rc.w.Suffix}, nil, g.EntityStatementSigner(), int64(1+r.Intn(100000)), nil,
	)
	if err != nil {
		panic(err)
	}
	for i, kind := range kinds {
		m := &cfgKind{kind: kind, typ: fmt.Sprintf("urn:tm:%d:%s", i, kind), iss: newMarkIssuer(
			rc.w, fed.Pick(
				r, fmt.Sprintf("http://tmi%d.%s", i, rc.w.Suffix), fmt.Sprintf("http://tmi%d.%s", i, rc.w.Suffix),
				fmt.Sprintf("%s/%d", rc.sub, i), fmt.Sprintf("%s:%d", rc.sub, 8000+i),
			),
		)}
		c := &oidfed.EntityConfigurationTrustMarkConfig{}
		m.c = c
		given := func(d time.Duration) {
			m.jwt = m.iss.mint(m.typ, rc.sub, d)
			c.JWT = m.jwt
		}
		linked := func() { c.TrustMarkType, c.TrustMarkIssuer = m.typ, m.iss.id }
		own := ""
		switch kind {
		case "static":
			d := fed.Pick(r, 0, time.Hour, 30*time.Second, 100*time.Hour)
			given(d)
			if d != 0 {
				m.until = time.Now().Add(d)
			}
		case "static-expired":
			given(-time.Hour)
		case "fresh":
			given(100 * time.Hour)
			c.Refresh = true
		case "grace", "grace-fail", "grace-short":
			given(fed.Pick(r, 20*time.Minute, 50*time.Minute))
			c.Refresh = true
			if fed.Chance(r, 0.3) {
				c.RefreshGracePeriod = unixtime.DurationInSeconds{Duration: 2 * time.Hour}
				c.MinLifetime = unixtime.DurationInSeconds{Duration: 5 * time.Minute}
			}
			if kind == "grace-fail" {
				m.iss.mode = fed.Pick(r, failModes...)
			}
			if kind == "grace" && fed.Chance(r, 0.2) {
				m.iss.life = 0
			}
			if kind == "grace-short" {
				m.iss.life = 30 * time.Minute // again in the grace period
			}
		case "expired", "expired-fail":
			given(fed.Pick(r, -time.Minute, -1000*time.Hour))
			c.Refresh = true
			if kind == "expired-fail" {
				m.iss.mode = fed.Pick(r, failModes...)
			}
			if fed.Chance(r, 0.3) {
				m.iss.life = 0 // the new one never expires
			}
		case "short":
			given(5 * time.Minute)
			c.MinLifetime = unixtime.DurationInSeconds{Duration: 30 * time.Minute}
			c.Refresh = true
			if fed.Chance(r, 0.3) {
				m.iss.life = 0
			}
		case "none":
			linked()
		case "none-fail":
			linked()
			m.iss.mode = fed.Pick(r, failModes...)
		case "none-unexpiring":
			linked()
			m.iss.life = 0
		case "jwt-unexpiring":
			given(0)
			c.Refresh = true
		case "self", "self-unexpiring":
			c.SelfIssued = true
			c.TrustMarkType = m.typ
			c.SelfIssuanceSpec = oidfed.TrustMarkSpec{Ref: "https://ref.example", Extra: map[string]any{"x": "y"}}
			if kind == "self" {
				c.SelfIssuanceSpec.Lifetime = unixtime.DurationInSeconds{Duration: 30 * time.Minute}
			}
		case "own":
			c.TrustMarkType, c.TrustMarkIssuer = m.typ, rc.sub
			own = m.iss.id + "/own?of=own"
		case "no-endpoint", "no-configuration":
			linked()
			if kind == "no-configuration" {
				rc.w.Put(fed.ECURL(m.iss.id), "", &fed.Resp{Status: 404, Type: "text/plain"})
			} else {
				ec := map[string]any{
					"iss": m.iss.id, "sub": m.iss.id, "iat": time.Now().Unix() - 60, "exp": time.Now().Add(time.Hour).Unix(),
					"jwks": fed.JWKS(m.iss.key),
				}
				rc.w.Put(
					fed.ECURL(m.iss.id), "", &fed.Resp{
						Type: "application/entity-statement+jwt", Body: fed.Sign(m.iss.key, map[string]any{"typ": fed.TypStatement}, ec),
					},
				)
			}
		}
		if err := c.Verify(rc.sub, own, g.TrustMarkSigner()); err != nil {
			k.Violation(
				"a correct trust mark configuration is refused", map[string]any{"kind": kind, "err": err.Error(), "jwt": m.jwt},
			)
			rc.marks = nil
			return rc
		}
		if c.TrustMarkType != m.typ {
			k.Violation("the trust mark type is not taken from the configured JWT", map[string]any{"kind": kind, "got": c.TrustMarkType})
		}
		if m.jwt != "" && c.TrustMarkIssuer != m.iss.id {
			k.Violation("the trust mark issuer is not taken from the configured JWT", map[string]any{"kind": kind, "got": c.TrustMarkIssuer})
		}
		rc.marks = append(rc.marks, m)
		rc.ent.TrustMarks = append(rc.ent.TrustMarks, c)
	}
	return rc
}

// observe makes a configuration and gives the published marks by type.
func (rc *refreshCase) observe() map[string]string {
	t0 := time.Now()
	raw, err := rc.ent.EntityConfigurationJWT()
	t1 := time.Now()
	if err != nil {
		rc.k.Violation("no entity configuration because of its trust marks", map[string]any{"err": err.Error()})
		return nil
	}
	t, err := fed.Decode(raw)
	if err != nil || t.Verify(generic(fed.JWKS(rc.key))) != fed.Yes || fed.TimeVerdict(t, t0, t1, true) == fed.No {
		rc.k.Violation("an entity configuration is not valid", map[string]any{"raw": string(raw)})
		return nil
	}
	got := map[string]string{}
	pos := -1
	l, _ := t.Claims["trust_marks"].([]any)
	for _, x := range l {
		o, _ := x.(map[string]any)
		typ, _ := o["trust_mark_type"].(string)
		got[typ], _ = o["trust_mark"].(string)
		i := 0
		for i < len(rc.marks) && rc.marks[i].typ != typ {
			i++
		}
		if i == len(rc.marks) || i <= pos {
			rc.k.Violation("the published trust marks are not those configured", map[string]any{"got": l})
		}
		pos = i
	}
	rc.k.Count("configurations", 1)
	return got
}

// expect judges one published mark; phase: "first", "later" (background refreshes may have happened) or "settled".
func (rc *refreshCase) expect(m *cfgKind, got map[string]string, phase string) {
	raw, has := got[m.typ]
	det := map[string]any{"kind": m.kind, "phase": phase, "published": raw, "configured": m.jwt, "issuer mode": m.iss.mode}
	bad := func(s string) { rc.k.Violation(s, det) }
	minted := m.iss.isMinted(raw)
	switch m.kind {
	case "static", "fresh", "jwt-unexpiring", "grace-fail":
		if !m.until.IsZero() && time.Until(m.until) < 10*time.Second {
			if has && time.Since(m.until) > 10*time.Second {
				bad("an expired trust mark is published")
			}
			break
		}
		if !has || raw != m.jwt {
			bad("a configured trust mark is not published")
		}
	case "grace", "grace-short":
		if !has || (raw != m.jwt && !minted) {
			bad("a trust mark in its grace period is not published")
		}
		if phase == "settled" && !minted {
			bad("a trust mark in its grace period is not refreshed")
		}
	case "expired", "short", "none", "none-unexpiring", "own":
		if !has || !minted {
			bad("a trust mark is not obtained from its issuer")
		}
	case "static-expired", "expired-fail", "none-fail", "no-endpoint", "no-configuration":
		if has {
			bad("a trust mark is published that is not valid and could not be obtained")
		}
	case "self", "self-unexpiring":
		if !has {
			bad("a self-issued trust mark is not published")
			return
		}
		t, err := fed.Decode([]byte(raw))
		if err != nil || t.Typ() != fed.TypMark || t.Verify(generic(fed.JWKS(rc.key))) != fed.Yes || t.Str("iss") != rc.sub ||
			t.Str("sub") != rc.sub || t.Str("trust_mark_type") != m.typ || t.Str("ref") != "https://ref.example" ||
			fed.MarkTime(t, time.Now().Add(-time.Second), time.Now()) == fed.No {
			bad("a self-issued trust mark is not valid")
		}
		if _, exp := t.Claims["exp"]; exp != (m.kind == "self") {
			bad("a self-issued trust mark has the wrong lifetime")
		}
	}
	if has && minted {
		t, _ := fed.Decode([]byte(raw))
		if t.Str("sub") != rc.sub || t.Str("trust_mark_type") != m.typ {
			bad("a trust mark was obtained for something else")
		}
	}
	rc.k.Eval("refresh/" + m.kind + "/" + phase + "/" + m.iss.mode)
}

// limit checks the number of requests.
func (rc *refreshCase) limit(m *cfgKind, max int) {
	reqs := m.iss.requests(m.typ)
	switch m.kind {
	case "static", "static-expired", "fresh", "jwt-unexpiring", "self", "self-unexpiring":
		max = 0
	}
	for i, q := range reqs {
		want := m.iss.id + "/mark?of=marks"
		if m.kind == "own" {
			want = m.iss.id + "/own?of=own"
		}
		if ep, _ := q.Endpoint(); ep != want {
			rc.k.Violation("a trust mark is requested from another endpoint", map[string]any{"request": q.String()})
		}
		if q.Query.Get("sub") != rc.sub {
			rc.k.Violation("a trust mark is requested for another subject", map[string]any{"request": q.String()})
		}
		if i > 0 && !m.iss.broke && q.At.Sub(reqs[i-1].At) < 50*time.Second { // broken connections are tried again
			rc.k.Violation(
				"a trust mark is requested more than once a minute",
				map[string]any{"kind": m.kind, "gap": q.At.Sub(reqs[i-1].At).String(), "mode": m.iss.mode},
			)
		}
	}
	if len(reqs) > max && max == 0 {
		rc.k.Violation("a trust mark is requested without need", map[string]any{"kind": m.kind})
	}
	rc.k.Count("trust mark requests", len(reqs))
}

func (rc *refreshCase) settle() map[string]string {
	var got map[string]string
	for i := 0; i < 600; i++ {
		got = rc.observe()
		ok := true
		for _, m := range rc.marks {
			if strings.HasPrefix(m.kind, "grace") && m.kind != "grace-fail" && !m.iss.isMinted(got[m.typ]) {
				ok = false
			}
		}
		if ok {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	return got
}

func refreshRun(k *rt.Case) {
	r := k.Rng
	var kinds []string
	for i := 0; i < 1+r.Intn(5); i++ {
		kinds = append(kinds, fed.Pick(r, refreshKinds...))
	}
	rc := newRefreshCase(k, kinds)
	defer rc.w.Close()
	if rc.marks == nil {
		return
	}
	k.Logf("kinds %v", kinds)
	// issuers of marks in their grace period stall: nobody must have to wait for them
	rel := make(chan struct{})
	for _, m := range rc.marks {
		if strings.HasPrefix(m.kind, "grace") && fed.Chance(r, 0.7) {
			m.iss.set(m.iss.mode, m.iss.life, rel)
		}
	}
	if fed.Chance(r, 0.4) {
		// concurrent configurations
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 2+r.Intn(6); g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < 3; i++ {
					got := rc.observe()
					for _, m := range rc.marks {
						rc.expect(m, got, "concurrent")
					}
				}
			}()
		}
		close(start)
		wg.Wait()
	} else {
		for i := 0; i < 1+r.Intn(4); i++ {
			got := rc.observe()
			for _, m := range rc.marks {
				rc.expect(m, got, "first")
			}
		}
	}
	close(rel)
	got := rc.settle()
	for _, m := range rc.marks {
		rc.expect(m, got, "settled")
	}
	for i := 0; i < 10; i++ {
		got = rc.observe()
	}
	for _, m := range rc.marks {
		rc.expect(m, got, "settled")
		rc.limit(m, 1)
	}
	k.Sample(map[string]any{"case": k.Name, "kinds": kinds, "published": len(got)})
}

// recover lets issuers fail and then recover after more than a minute, and marks age.
func recoverRun(k *rt.Case) {
	rc := newRefreshCase(k, []string{"none-fail", "expired-fail", "grace-fail", "grace-short", "no-configuration", "none", "static", "none-unexpiring"})
	defer rc.w.Close()
	if rc.marks == nil {
		return
	}
	got := rc.settle()
	for _, m := range rc.marks {
		rc.expect(m, got, "settled")
	}
	was := got
	for _, m := range rc.marks {
		switch m.kind {
		case "none-fail":
			m.kind = "none"
		case "expired-fail":
			m.kind = "expired"
		case "grace-fail":
			m.kind = "grace"
		case "no-configuration":
			continue
		}
		m.iss.set("", 100*time.Hour, nil)
	}
	for i := 0; i < 31; i++ {
		time.Sleep(2 * time.Second)
		if i%10 == 5 {
			_ = rc.observe()
		}
	}
	// a minute after the last attempt: the attempts during the wait are refused and do not count
	got = rc.settle()
	for _, m := range rc.marks {
		rc.expect(m, got, "settled")
		rc.limit(m, 3)
		if m.kind == "grace-short" && got[m.typ] == was[m.typ] {
			for i := 0; i < 600 && got[m.typ] == was[m.typ]; i++ {
				time.Sleep(50 * time.Millisecond)
				got = rc.observe()
			}
			if got[m.typ] == was[m.typ] {
				k.Violation("a trust mark that is again in its grace period is not refreshed again", nil)
			}
		}
		if (m.kind == "none-unexpiring" || m.kind == "static" && m.until.IsZero()) && got[m.typ] != was[m.typ] {
			k.Violation("a trust mark is replaced without need", map[string]any{"kind": m.kind})
		}
		k.Eval("recovered/" + m.kind)
	}
}

func configErrors(k *rt.Case) {
	w := fed.NewWorld()
	defer w.Close()
	iss := newMarkIssuer(w, "http://tmi."+w.Suffix)
	g := oidfed.NewGeneralJWTSigner(iss.key.Priv, alg("ES256"))
	noType := string(fed.Sign(iss.key, map[string]any{"typ": fed.TypMark}, map[string]any{"iss": iss.id, "sub": "http://x"}))
	for name, c := range map[string]*oidfed.EntityConfigurationTrustMarkConfig{
		"nothing": {}, "only issuer": {TrustMarkIssuer: iss.id}, "only type": {TrustMarkType: "t"}, "self without type": {SelfIssued: true},
		"garbage jwt": {JWT: "garbage"}, "jwt without type": {JWT: noType},
	} {
		if err := c.Verify("http://me."+w.Suffix, "", g.TrustMarkSigner()); err == nil {
			k.Violation("an incomplete trust mark configuration is accepted", map[string]any{"what": name})
		}
		k.Eval("config/" + name)
	}
}

func runC11(c *rt.Ctx) {
	c.Rule = "Entities with up to five configured trust marks (static, fresh, in the grace period, too short, expired, missing, self-issued, never " +
		"expiring) against scripted issuers (prompt, stalling, failing in seven ways, recovering after a minute) make configurations, " +
		"sequentially and concurrently under the race detector; every configuration is decoded, and its marks and the requests at the " +
		"issuers are compared with what the kind of each mark prescribes. Distinct by kind of mark, phase and failure."
	c.Assume = []string{"configured lifetimes are longer than the minimal lifetime and a minute"}
	c.Run("config", 1, configErrors)
	done := make(chan struct{})
	go func() {
		defer close(done)
		c.RunParallel("recover", 8, recoverRun)
	}()
	c.RunParallel("refresh", c.N(600, 8000), refreshRun)
	<-done
}
