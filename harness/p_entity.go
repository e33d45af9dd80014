package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sync"
	"time"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/jwks"

	"github.com/go-oidfed/lib/verifharness/fed"
	"github.com/go-oidfed/lib/verifharness/rt"
)

func init() {
	register("C17", property{run: runC17})
}

// literal copies what a user could have written as a composite literal: exported fields only.
func literal(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || v.Elem().Kind() != reflect.Struct {
			return v
		}
		c := reflect.New(v.Elem().Type())
		for i := 0; i < v.Elem().NumField(); i++ {
			if v.Elem().Type().Field(i).IsExported() {
				c.Elem().Field(i).Set(literal(v.Elem().Field(i)))
			}
		}
		return c
	}
	return v
}

func decode[T any](doc any) *T {
	v := new(T)
	if err := json.Unmarshal(fed.MustJSON(doc), v); err != nil {
		panic(fmt.Sprintf("%v: %s", err, fed.MustJSON(doc)))
	}
	return v
}

// publishedKey checks the published key set: the public key, its thumbprint as kid, its algorithm, nothing private.
func publishedKey(k *rt.Case, what string, set any, key *fed.Key) {
	m, _ := generic(set).(map[string]any)
	l, _ := m["keys"].([]any)
	det := map[string]any{"set": m, "alg": key.Alg}
	if len(l) != 1 {
		k.Violation(what+": not exactly the own key is published", det)
		return
	}
	want := key.JWK()
	want["kid"] = fed.Thumbprint(want)
	if !reflect.DeepEqual(generic(want), l[0]) {
		det["want"] = want
		k.Violation(what+": the published key is not the public key of the entity", det)
	}
}

// configurationCase makes entities from random configurations and looks at their entity configurations.
func configurationCase(k *rt.Case) {
	r := k.Rng
	g := docGen(k)
	key := fed.NewKey(fed.Pick(r, fed.Algs...), "")
	id := fmt.Sprintf("https://e%d.example%s", r.Intn(1000), fed.Pick(r, "", "/", "/a/b", ":8443", "/ü?x=1#f", "/<&>"))
	var signer *oidfed.EntityStatementSigner
	if fed.Chance(r, 0.5) {
		signer = oidfed.NewEntityStatementSigner(key.Priv, alg(key.Alg))
	} else {
		signer = oidfed.NewGeneralJWTSigner(key.Priv, alg(key.Alg)).EntityStatementSigner()
	}
	publishedKey(k, "a signer", signer.JWKS(), key)
	ownKid(key, signer.JWKS())
	want := map[string]any{"iss": id, "sub": id, "jwks": generic(signer.JWKS())}
	var hints []string
	for i := 0; i < r.Intn(4); i++ {
		hints = append(hints, fmt.Sprintf("https://ta%d.example", r.Intn(9)))
	}
	if len(hints) > 0 {
		want["authority_hints"] = hints
	}
	var meta *oidfed.Metadata
	if fed.Chance(r, 0.8) {
		doc := g.Doc("Metadata")
		for len(doc) == 0 {
			doc = map[string]any{"openid_relying_party": g.Doc("OpenIDRelyingPartyMetadata")}
		}
		meta = decode[oidfed.Metadata](doc)
		if fed.Chance(r, 0.5) {
			meta = literal(reflect.ValueOf(meta)).Interface().(*oidfed.Metadata)
		}
		want["metadata"] = doc
	}
	extra := extras(k)
	for n, v := range extra {
		want[n] = v
	}
	life := fed.Pick[int64](r, 1, 60, 3600, 86400, 31536000, 0, -1, -86400, 1e9)
	expLife := life
	if life <= 0 {
		expLife = 86400
	}
	ent, err := oidfed.NewFederationEntity(id, hints, meta, signer, life, extra)
	leaf := fed.Chance(r, 0.4)
	if leaf {
		rp := fed.NewKey(fed.Pick(r, fed.Algs...), "")
		var l *oidfed.FederationLeaf
		l, err = oidfed.NewFederationLeaf(id, hints, nil, meta, signer, life, rp.Priv, alg(rp.Alg), extra)
		if err == nil {
			ent = &l.FederationEntity
		}
	}
	if err != nil {
		k.Violation("no entity from a valid configuration", map[string]any{"err": err.Error()})
		return
	}
	if fed.Chance(r, 0.3) {
		issuers := generic(g.Value(fed.Claim{Kind: "AllowedTrustMarkIssuers"}))
		ent.TrustMarkIssuers = *decode[oidfed.AllowedTrustMarkIssuers](issuers)
		want["trust_mark_issuers"] = issuers
	}
	if fed.Chance(r, 0.3) {
		owners := generic(g.Value(fed.Claim{Kind: "TrustMarkOwners"}))
		ent.TrustMarkOwners = *decode[oidfed.TrustMarkOwners](owners)
		want["trust_mark_owners"] = owners
	}
	var infos []any
	nMarks := r.Intn(4)
	for i := 0; i < nMarks; i++ {
		typ := fmt.Sprintf("https://tm.example/%d%s", i, g.JWT()[:3])
		c := &oidfed.EntityConfigurationTrustMarkConfig{}
		switch r.Intn(4) {
		case 0:
			// self-issued
			c.TrustMarkType, c.SelfIssued = typ, true
		case 1:
			// not obtainable: the issuer does not exist
			c.TrustMarkType, c.TrustMarkIssuer = typ, "http://nobody.invalid.test"
		default:
			c.JWT = string(
				fed.Sign(
					fed.NewKey("ES256", "x"), map[string]any{"typ": fed.TypMark},
					map[string]any{"iss": "https://tmi.example", "sub": id, "trust_mark_type": typ, "iat": time.Now().Unix()},
				),
			)
			infos = append(infos, map[string]any{"trust_mark_type": typ, "trust_mark": c.JWT})
		}
		kind := "given"
		if c.SelfIssued {
			kind = "self"
		} else if c.JWT == "" {
			kind = "unobtainable"
		}
		if err := c.Verify(id, "", signer.GeneralJWTSigner.TrustMarkSigner()); err != nil {
			k.Violation("a correct trust mark configuration is refused", map[string]any{"err": err.Error(), "kind": kind})
			return
		}
		if kind == "self" {
			infos = append(infos, map[string]any{"trust_mark_type": typ, "self": true})
		}
		k.Count("marks "+kind, 1)
		ent.TrustMarks = append(ent.TrustMarks, c)
	}
	before := string(fed.MustJSON([]any{ent.Metadata, ent.AuthorityHints, ent.Extra, ent.TrustMarkIssuers, ent.TrustMarkOwners}))
	check := func(raw []byte, t0, t1 time.Time) {
		t, err := fed.Decode(raw)
		if err != nil {
			k.Violation("an entity configuration is not a compact JWT", map[string]any{"jwt": string(raw)})
			return
		}
		// self-issued marks are different each time
		w := map[string]any{}
		for n, v := range want {
			w[n] = v
		}
		got, _ := t.Claims["trust_marks"].([]any)
		if len(got) != len(infos) {
			k.Violation("an entity configuration has other trust marks", map[string]any{"got": got, "want": infos})
			return
		}
		var exp []any
		for i, x := range infos {
			x := x.(map[string]any)
			if x["self"] == true {
				y, _ := got[i].(map[string]any)
				m, _ := y["trust_mark"].(string)
				tm, err := fed.Decode([]byte(m))
				if err != nil || tm.Str("iss") != id || tm.Str("sub") != id || tm.Str("trust_mark_type") != x["trust_mark_type"] || tm.Typ() != fed.TypMark ||
					tm.Verify(want["jwks"]) != fed.Yes {
					k.Violation("a self-issued trust mark in an entity configuration is not one", map[string]any{"got": y})
					return
				}
				x = map[string]any{"trust_mark_type": x["trust_mark_type"], "trust_mark": m}
			}
			exp = append(exp, x)
		}
		if len(exp) > 0 {
			w["trust_marks"] = exp
		}
		if jwtIs(k, "an entity configuration", raw, fed.TypStatement, key, want["jwks"], w, t0, t1, time.Duration(expLife)*time.Second) {
			k.Count("configurations", 1)
		}
		// and the library reads back what it wrote
		es, err := oidfed.ParseEntityStatement(raw)
		if err != nil {
			k.Violation("an own entity configuration is not parsed", map[string]any{"jwt": string(raw), "err": err.Error()})
			return
		}
		if !es.Verify(jwks.JWKS(signer.JWKS())) || !es.TimeValid() {
			k.Violation("an own entity configuration is not valid", map[string]any{"jwt": string(raw)})
		}
		if d := docDiff("EntityStatementPayload", generic(t.Claims).(map[string]any), fed.MustJSON(es.EntityStatementPayload)); d != "" {
			k.Violation("an own entity configuration is read differently", map[string]any{"jwt": string(raw), "diff": d})
		}
	}
	if fed.Chance(r, 0.3) {
		var wg sync.WaitGroup
		for i := 0; i < 6; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 3; j++ {
					t0 := time.Now()
					raw, err := ent.EntityConfigurationJWT()
					if err != nil {
						k.Violation("no entity configuration", map[string]any{"err": err.Error()})
						return
					}
					check(raw, t0, time.Now())
				}
			}()
		}
		wg.Wait()
		k.Count("concurrent", 1)
	} else {
		for i := range 2 + r.Intn(3) {
			if i > 0 && fed.Chance(r, 0.6) {
				// what is changed is changed in the next entity configuration
				if fed.Chance(r, 0.5) {
					if ent.AuthorityHints != nil && fed.Chance(r, 0.5) {
						ent.AuthorityHints[0] = "https://changed.example"
					} else {
						ent.AuthorityHints = []string{"https://other.example"}
					}
					want["authority_hints"] = generic(ent.AuthorityHints)
				}
				if fed.Chance(r, 0.5) {
					expLife = fed.Pick[int64](r, 77, 7777)
					ent.ConfigurationLifetime = expLife
				}
				if fed.Chance(r, 0.5) {
					m := map[string]any{"federation_entity": map[string]any{"organization_name": fmt.Sprint("new ", r.Intn(99))}}
					if ent.Metadata != nil && fed.Chance(r, 0.5) {
						*ent.Metadata = *decode[oidfed.Metadata](m)
					} else {
						ent.Metadata = decode[oidfed.Metadata](m)
					}
					want["metadata"] = m
				}
				if fed.Chance(r, 0.3) {
					l := map[string]any{fmt.Sprint("https://tm.example/", r.Intn(9)): []any{"https://tmi.example"}}
					ent.TrustMarkIssuers = *decode[oidfed.AllowedTrustMarkIssuers](l)
					want["trust_mark_issuers"] = l
				}
				if fed.Chance(r, 0.3) {
					for n := range extra {
						delete(want, n)
					}
					extra = map[string]any{"x_new": fmt.Sprint(r.Intn(9))}
					want["x_new"] = extra["x_new"]
					ent.Extra = extra
				}
				if n := len(ent.TrustMarks); n > 0 && fed.Chance(r, 0.3) {
					ent.TrustMarks, infos = nil, nil
				}
				before = string(fed.MustJSON([]any{ent.Metadata, ent.AuthorityHints, ent.Extra, ent.TrustMarkIssuers, ent.TrustMarkOwners}))
				k.Count("changed", 1)
			}
			t0 := time.Now()
			raw, err := ent.EntityConfigurationJWT()
			if err != nil {
				k.Violation("no entity configuration", map[string]any{"err": err.Error()})
				return
			}
			check(raw, t0, time.Now())
		}
	}
	if after := string(fed.MustJSON([]any{ent.Metadata, ent.AuthorityHints, ent.Extra, ent.TrustMarkIssuers, ent.TrustMarkOwners})); after != before {
		k.Violation("making an entity configuration changes the entity", map[string]any{"before": before, "after": after})
	}
	k.Eval(fmt.Sprintf("%s/%v/%d/%d/%d/%v/%v", key.Alg, meta != nil, len(hints), len(infos), life, len(extra), leaf))
}

// signerCase signs documents with all kinds of signers.
func signerCase(k *rt.Case) {
	r := k.Rng
	g := docGen(k)
	key := fed.NewKey(fed.Pick(r, fed.Algs...), "")
	gen := oidfed.NewGeneralJWTSigner(key.Priv, alg(key.Alg))
	publishedKey(k, "a signer", gen.JWKS(), key)
	ownKid(key, gen.JWKS())
	doc := g.Doc("EntityStatementPayload")
	p := decode[oidfed.EntityStatementPayload](doc)
	if fed.Chance(r, 0.4) {
		p = literal(reflect.ValueOf(p)).Interface().(*oidfed.EntityStatementPayload)
		p.Metadata, _ = literal(reflect.ValueOf(p.Metadata)).Interface().(*oidfed.Metadata)
	}
	ent, err := oidfed.NewFederationEntity("https://me.example", nil, nil, gen.EntityStatementSigner(), 0, nil)
	if err != nil {
		panic(err)
	}
	var raw []byte
	typ := fed.TypStatement
	by := r.Intn(9)
	switch by {
	case 0:
		raw, err = ent.SignEntityStatement(*p)
	case 1:
		raw, err = oidfed.NewEntityStatementSigner(key.Priv, alg(key.Alg)).JWT(p)
	case 2:
		raw, err = gen.EntityStatementSigner().JWT(*p)
	case 3:
		typ = fed.Pick(r, "JWT", "at+jwt", "x", "entity-statement+jwt")
		raw, err = gen.JWT(p, typ)
	case 4:
		typ = fed.Pick(r, "JWT", "at+jwt", "x", "resolve-response+jwt")
		raw, err = gen.Typed(typ).JWT(p)
	case 5:
		typ = typResolve
		raw, err = fed.Pick(r, gen.ResolveResponseSigner(), oidfed.NewResolveResponseSigner(key.Priv, alg(key.Alg))).JWT(p)
	case 6:
		typ = fed.TypMark
		raw, err = fed.Pick(r, gen.TrustMarkSigner(), oidfed.NewTrustMarkSigner(key.Priv, alg(key.Alg))).JWT(p)
	case 7:
		typ = fed.TypDelegation
		raw, err = fed.Pick(r, gen.TrustMarkDelegationSigner(), oidfed.NewTrustMarkDelegationSigner(key.Priv, alg(key.Alg))).JWT(p)
	case 8:
		// anything that has a JSON form
		typ = "any"
		doc = map[string]any{"a": g.Any(3), "b": g.Any(3)}
		raw, err = gen.Typed(typ).JWT(doc)
	}
	det := map[string]any{"doc": doc, "signer": by}
	if err != nil {
		det["err"] = err.Error()
		k.Violation("a document is not signed", det)
		return
	}
	t, err := fed.Decode(raw)
	if err != nil {
		k.Violation("a signed document is not a compact JWT", det)
		return
	}
	det["header"] = t.Header
	if !reflect.DeepEqual(t.Header, map[string]any{"typ": typ, "alg": key.Alg, "kid": key.Kid}) {
		k.Violation("a signed document has another header", det)
	}
	if t.Verify(generic(gen.JWKS())) != fed.Yes || t.Verify(generic(fed.JWKS(key))) != fed.Yes {
		k.Violation("a signed document does not verify with the published key", det)
	}
	var d string
	if by == 8 {
		if a, b := string(canon(generic(doc))), string(canon(generic(t.Claims))); a != b {
			d = firstDiff(a, b)
		}
	} else {
		d = docDiff("EntityStatementPayload", doc, t.Payload)
	}
	if d != "" {
		det["diff"] = d
		k.Violation("a signed document is not what was to be signed", det)
	}
	k.Count("signed", 1)
	k.Eval(fmt.Sprintf("sign/%d/%s/%s", by, key.Alg, typ))
}

// ownFederation is a federation all of whose statements are made by the library.
func ownFederation(k *rt.Case) {
	r := k.Rng
	w := fed.NewWorld()
	defer w.Close()
	o := randOpts(r)
	o.RichAlgs = fed.Chance(r, 0.5)
	f := fed.NewFed(r, w, o)
	ents := map[string]*oidfed.FederationEntity{}
	signers := map[string]*oidfed.GeneralJWTSigner{}
	for _, n := range f.Nodes {
		n.Keys = n.Keys[:1]
		g := oidfed.NewGeneralJWTSigner(n.Keys[0].Priv, alg(n.Keys[0].Alg))
		ownKid(n.Keys[0], g.JWKS())
		signers[n.ID] = g
	}
	f.Rebuild()
	if fed.Chance(r, 0.4) {
		f.AddConstraints(0.3)
	}
	pol := fed.Policies{
		"openid_relying_party": {"contacts": {"add": []any{"ops@" + w.Suffix}}, "client_name": {"default": "unnamed"}},
		"openid_provider":      {"contacts": {"add": []any{"ops@" + w.Suffix}}, "scopes_supported": {"subset_of": []any{"openid", "profile", "email"}}},
	}
	withPolicy := fed.Chance(r, 0.5)
	for _, n := range f.Nodes {
		var meta *oidfed.Metadata
		if len(n.Meta) > 0 {
			meta = decode[oidfed.Metadata](n.Meta)
		}
		e, err := oidfed.NewFederationEntity(n.ID, n.Hints, meta, signers[n.ID].EntityStatementSigner(), fed.Pick[int64](r, 0, 3600, 100000), nil)
		if err != nil {
			panic(err)
		}
		ents[n.ID] = e
		raw, err := e.EntityConfigurationJWT()
		if err != nil {
			k.Violation("no entity configuration", map[string]any{"err": err.Error()})
			return
		}
		n.EC.Post = func([]byte) []byte { return raw }
		n.EC.Reset()
		for sub, s := range n.About {
			if withPolicy && fed.Chance(r, 0.7) {
				s.Claims["metadata_policy"] = generic(pol)
			}
			raw, err := e.SignEntityStatement(*decode[oidfed.EntityStatementPayload](s.Claims))
			if err != nil {
				k.Violation("no entity statement", map[string]any{"err": err.Error(), "sub": sub})
				return
			}
			s.Post = func([]byte) []byte { return raw }
			s.Reset()
			k.Count("statements", 1)
		}
	}
	f.Publish()
	for _, n := range f.Nodes {
		c := &chainCase{k: k, f: f, start: n.ID}
		for _, x := range f.Nodes {
			if x.Level == 0 {
				a := fed.Anchor{ID: x.ID}
				if fed.Chance(r, 0.5) {
					a.JWKS = generic(signers[x.ID].JWKS())
				}
				c.anchors = append(c.anchors, a)
			}
		}
		c.run(r.Intn(len(entryNames)), true, true)
	}
	k.Count("federations", 1)
}

func runC17(c *rt.Ctx) {
	c.Rule = "Entities are made from random configurations (identifiers, hints, metadata of all types with known and unknown claims, decoded or " +
		"written as Go values, lifetimes, given, self-issued and unobtainable trust marks, issuers, owners, extra claims, all signing algorithms); " +
		"their entity configurations (made repeatedly, concurrently and after a change) and random statements signed by every kind of signer are " +
		"decoded and verified by an independent JOSE implementation and compared claim by claim with the configuration. Whole federations made " +
		"by the library are served and resolved by it, and the chains compared with the reference resolver's. Distinct by algorithm, signer, configuration shape, chain shapes."
	c.Assume = []string{"extra claims do not repeat the names of standard claims"}
	c.RunParallel("configuration", c.N(1500, 40000), configurationCase)
	c.RunParallel("sign", c.N(3000, 60000), signerCase)
	c.RunParallel("own", c.N(250, 6000), ownFederation)
}
