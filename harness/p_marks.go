package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"

	"github.com/go-oidfed/lib/verifharness/fed"
	"github.com/go-oidfed/lib/verifharness/rt"
)

func init() {
	register("C09", property{run: runC09})
}

type markCase struct {
	k      *rt.Case
	f      *fed.Fed
	m      *fed.Marks
	anchor *fed.Node
	infos  map[string][]fed.MarkInfo
}

// genMarks generates a federation with trust marks.
func genMarks(k *rt.Case, chainMuts int, pMut float64) *markCase {
	r := k.Rng
	w := fed.NewWorld()
	o := fed.Opts{
		TAs: 1 + r.Intn(2), Mids: r.Intn(4), Leaves: 2 + r.Intn(3), RichAlgs: fed.Chance(r, 0.2), PathIDs: fed.Chance(r, 0.4),
		MaxHints: 1 + r.Intn(2),
	}
	f := fed.NewFed(r, w, o)
	c := &markCase{k: k, f: f, anchor: f.Nodes[0], infos: map[string][]fed.MarkInfo{}}
	c.m = fed.NewMarks(f, c.anchor)
	for i := 0; i < chainMuts; i++ {
		f.Mutate(fed.Mutations[r.Intn(len(fed.Mutations))])
	}
	for _, n := range f.Nodes {
		var l []fed.MarkInfo
		for i := r.Intn(4); i > 0; i-- {
			mut := ""
			if fed.Chance(r, pMut) {
				mut = fed.MarkMutations[r.Intn(len(fed.MarkMutations))]
			}
			l = append(l, c.m.New(n, mut))
		}
		if len(l) > 0 {
			c.m.Publish(n, l)
			c.infos[n.ID] = l
		}
	}
	f.Publish()
	k.Logf("mutations %v listed %v", f.Muts, c.m.Listed)
	for _, n := range f.Nodes {
		for _, i := range c.infos[n.ID] {
			k.Logf("%s has %q (%s): %s", n.ID, i.Type, i.Mut, i.Raw)
		}
	}
	return c
}

// anchorPayload is what the user passes as the anchor.
func (c *markCase) anchorPayload() (*oidfed.EntityStatementPayload, *fed.Token) {
	r := c.f.W.Get(fed.ECURL(c.anchor.ID), "")
	if r == nil || r.Status != 0 {
		return nil, nil
	}
	es, err := oidfed.ParseEntityStatement(r.Body)
	if err != nil {
		return nil, nil
	}
	t, err := fed.Decode(r.Body)
	if err != nil {
		return nil, nil
	}
	return &es.EntityStatementPayload, t
}

func infosOf(l []fed.MarkInfo) (r oidfed.TrustMarkInfos) {
	var objs []any
	for _, i := range l {
		objs = append(objs, i.Obj)
	}
	if err := json.Unmarshal(fed.MustJSON(objs), &r); err != nil {
		panic(err)
	}
	return
}

func (c *markCase) det(i fed.MarkInfo, v fed.Verdict, why string, extra ...any) map[string]any {
	m := map[string]any{
		"mutation": i.Mut, "info type": i.Type, "mark": string(i.Raw), "reference": int(v), "why": why, "anchor": c.anchor.ID,
		"mutations": c.f.Muts,
	}
	for j := 0; j+1 < len(extra); j += 2 {
		m[fmt.Sprint(extra[j])] = extra[j+1]
	}
	return m
}

// check compares an outcome with the reference.
func (c *markCase) check(how string, i fed.MarkInfo, v fed.Verdict, why string, err error) {
	if err == nil && v == fed.No {
		c.k.Violation(how+" accepts a trust mark that is not valid", c.det(i, v, why))
	}
	if err != nil && v == fed.Yes {
		c.k.Violation(how+" refuses a valid trust mark", c.det(i, v, why, "error", err.Error()))
	}
	c.k.Count(fmt.Sprintf("%s %v", how, []string{"no", "undecided", "yes"}[v]), 1)
	c.k.Eval(fmt.Sprintf("%s/%d/%s/%s/%d", how, v, why, i.Mut, len(c.f.Muts)))
}

func (i infoVerdict) eff() fed.Verdict {
	if !i.same {
		return fed.No
	}
	return i.v
}

type infoVerdict struct {
	v    fed.Verdict
	why  string
	same bool // info type equals that of the jwt
}

// sameType tells if the type of the info object is that of the JWT.
func sameType(i fed.MarkInfo) bool {
	t, err := fed.Decode(i.Raw)
	return err == nil && t.Str("trust_mark_type") == i.Type
}

func ownerOf(ta *fed.Token, typ string) map[string]any {
	l, _ := ta.Claims["trust_mark_owners"].(map[string]any)
	o, _ := l[typ].(map[string]any)
	return o
}

// verify observes all ways to verify marks in the federation.
func (c *markCase) verify() {
	ta, taTok := c.anchorPayload()
	if ta == nil {
		return
	}
	k := c.k
	for _, n := range c.f.Nodes {
		l := c.infos[n.ID]
		if len(l) == 0 {
			continue
		}
		t0 := time.Now()
		infos := infosOf(l)
		errs := make([]error, len(l))
		perr := make([]error, len(l))
		derr := make([]error, len(l))
		hasD := make([]bool, len(l))
		for i := range infos {
			errs[i] = infos[i].VerifyFederation(ta)
			mark, err := oidfed.ParseTrustMark([]byte(infos[i].TrustMarkJWT))
			if err == nil {
				err = mark.VerifyFederation(ta)
				if d, e := mark.Delegation(); e == nil && d != nil {
					hasD[i] = true
					derr[i] = d.VerifyFederation(ta)
				}
			}
			perr[i] = err
		}
		all := infosOf(l).VerifiedFederation(ta)
		t1 := time.Now()
		var vs []infoVerdict
		for i, x := range l {
			v, why := fed.FederationVerdict(c.f.W, x.Raw, taTok, t0, t1)
			iv := infoVerdict{v, why, sameType(x)}
			vs = append(vs, iv)
			if !iv.same && iv.v != fed.No {
				why = "info type"
			}
			c.check("TrustMarkInfo.VerifyFederation", x, iv.eff(), why, errs[i])
			c.check("TrustMark.VerifyFederation", x, v, iv.why, perr[i])
			if hasD[i] {
				c.delegationFed(x, taTok, derr[i], t0, t1)
			}
		}
		// the filtered list
		c.list("VerifiedFederation", n, l, vs, all, nil)
	}
	// resolve responses
	for _, n := range c.f.Nodes {
		t0 := time.Now()
		res, err := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(
			apimodel.ResolveRequest{Subject: n.ID, TrustAnchor: []string{c.anchor.ID}},
		)
		t1 := time.Now()
		if err != nil {
			k.Count("unresolved holders", 1)
			continue
		}
		var raw []string
		data, _ := json.Marshal(res.TrustChain)
		_ = json.Unmarshal(data, &raw)
		if len(raw) == 0 {
			k.Violation("a resolve response has no chain", map[string]any{"subject": n.ID})
			continue
		}
		last, e1 := fed.Decode([]byte(raw[len(raw)-1]))
		first, e2 := fed.Decode([]byte(raw[0]))
		if e1 != nil || e2 != nil {
			continue // C01
		}
		var l []fed.MarkInfo
		var vs []infoVerdict
		pub, _ := first.Claims["trust_marks"].([]any)
		for _, p := range pub {
			o, _ := p.(map[string]any)
			x := fed.MarkInfo{Type: fmt.Sprint(o["trust_mark_type"]), Raw: []byte(fmt.Sprint(o["trust_mark"])), Obj: o}
			for _, y := range c.infos[n.ID] {
				if string(y.Raw) == string(x.Raw) {
					x.Mut = y.Mut
				}
			}
			v, why := fed.FederationVerdict(c.f.W, x.Raw, last, t0, t1)
			if t, err := fed.Decode(x.Raw); err == nil && t.Str("sub") != n.ID && v != fed.No {
				v, why = fed.No, "about somebody else"
			}
			l = append(l, x)
			vs = append(vs, infoVerdict{v, why, sameType(x)})
		}
		c.list("resolve response", n, l, vs, res.TrustMarks, nil)
	}
}

// list compares a filtered list with what should be in it.
func (c *markCase) list(
	how string, n *fed.Node, l []fed.MarkInfo, vs []infoVerdict, got oidfed.TrustMarkInfos, det map[string]any,
) {
	j := 0
	for i, x := range l {
		in := j < len(got) && got[j].TrustMarkJWT == string(x.Raw) && got[j].TrustMarkType == x.Type
		var err error
		if in {
			j++
		} else {
			err = fmt.Errorf("not in the list")
		}
		why := vs[i].why
		if !vs[i].same && vs[i].v != fed.No {
			why = "info type"
		}
		c.check(how, x, vs[i].eff(), why, err)
	}
	if j != len(got) {
		c.k.Violation(how+" has a trust mark that was not published", map[string]any{"holder": n.ID, "got": generic(got)})
	}
}

func (c *markCase) delegationFed(x fed.MarkInfo, ta *fed.Token, err error, t0, t1 time.Time) {
	mark, e := fed.Decode(x.Raw)
	if e != nil {
		return
	}
	d, e := fed.Decode([]byte(mark.Str("delegation")))
	if e != nil {
		c.k.Violation("a delegation is parsed that is none", c.det(x, fed.No, "delegation"))
		return
	}
	if d.Typ() != fed.TypDelegation {
		c.k.Violation("a delegation of another token type is parsed", c.det(x, fed.No, "delegation"))
		return
	}
	owner := ownerOf(ta, d.Str("trust_mark_type"))
	v, why := fed.No, "no owner"
	if owner != nil {
		id, _ := owner["sub"].(string)
		v, why = fed.And(fed.MarkTime(d, t0, t1), d.Verify(owner["jwks"])), "owner"
		if d.Str("iss") != id {
			v, why = fed.No, "not from the owner"
		}
	}
	c.check("DelegationJWT.VerifyFederation", x, v, why, err)
}

// external observes verification with given keys.
func (c *markCase) external() {
	r := c.k.Rng
	for _, n := range c.f.Nodes {
		l := c.infos[n.ID]
		if len(l) == 0 {
			continue
		}
		iss := c.f.Nodes[r.Intn(len(c.f.Nodes))]
		if t, err := fed.Decode(l[0].Raw); err == nil && fed.Chance(r, 0.8) {
			if x := c.f.By[t.Str("iss")]; x != nil {
				iss = x
			}
		}
		keys := generic(fed.JWKS(iss.Keys...))
		var owner map[string]any
		var spec []oidfed.TrustMarkOwnerSpec
		if o := c.m.Owners[l[0].Type]; o != nil && fed.Chance(r, 0.8) {
			owner = generic(map[string]any{"sub": o.ID, "jwks": fed.JWKS(o.Keys...)}).(map[string]any)
			if fed.Chance(r, 0.1) {
				owner["sub"] = fed.Pick(r, "http://somebody.else", "")
			}
			if fed.Chance(r, 0.1) {
				owner["jwks"] = generic(fed.JWKS(fed.NewKey("ES256", o.Keys[0].Kid)))
			}
			spec = append(spec, oidfed.TrustMarkOwnerSpec{ID: owner["sub"].(string), JWKS: toJWKS(owner["jwks"])})
		}
		if fed.Chance(r, 0.05) {
			keys = generic(map[string]any{"keys": []any{}})
		}
		set := toJWKS(keys)
		t0 := time.Now()
		infos := infosOf(l)
		errs := make([]error, len(l))
		for i := range infos {
			errs[i] = infos[i].VerifyExternal(set, spec...)
		}
		got := infosOf(l).VerifiedExternal(set, spec...)
		var dErr error
		checkD := false
		if mark, err := oidfed.ParseTrustMark(l[0].Raw); err == nil && owner != nil {
			if d, err := mark.Delegation(); err == nil && d != nil {
				checkD = true
				dErr = d.VerifyExternal(spec[0].JWKS)
			}
		}
		t1 := time.Now()
		var vs []infoVerdict
		for i, x := range l {
			v, why := fed.ExternalVerdict(x.Raw, keys, owner, t0, t1)
			iv := infoVerdict{v, why, sameType(x)}
			vs = append(vs, iv)
			if !iv.same && iv.v != fed.No {
				why = "info type"
			}
			c.check("VerifyExternal", x, iv.eff(), why, errs[i])
		}
		c.list("VerifiedExternal", n, l, vs, got, nil)
		if checkD {
			mark, _ := fed.Decode(l[0].Raw)
			d, err := fed.Decode([]byte(mark.Str("delegation")))
			if err != nil {
				continue
			}
			c.check(
				"DelegationJWT.VerifyExternal", l[0], fed.And(fed.MarkTime(d, t0, t1), d.Verify(owner["jwks"])), "keys", dErr,
			)
		}
	}
}

// reuse verifies different marks through the same variable.
func (c *markCase) reuse() {
	ta, tok := c.anchorPayload()
	if ta == nil {
		return
	}
	var info oidfed.TrustMarkInfo
	var infos oidfed.TrustMarkInfos
	r := c.k.Rng
	c.reuseDelegation()
	for _, n := range c.f.Nodes {
		for _, x := range c.infos[n.ID] {
			t0 := time.Now()
			how := "VerifyFederation of a reused TrustMarkInfo"
			switch r.Intn(3) {
			case 0:
				if err := json.Unmarshal(fed.MustJSON(x.Obj), &info); err != nil {
					panic(err)
				}
			case 1:
				info.TrustMarkJWT, info.TrustMarkType = string(x.Raw), x.Type
			case 2:
				if err := json.Unmarshal(fed.MustJSON([]any{x.Obj}), &infos); err != nil {
					panic(err)
				}
				info = infos[0]
			}
			err := info.VerifyFederation(ta)
			err2 := info.VerifyFederation(ta)
			if (err == nil) != (err2 == nil) {
				c.k.Violation("the verdict on a trust mark changes when it is asked again", c.det(x, 0, ""))
			}
			if len(infos) > 0 {
				_ = infos[0].VerifyFederation(ta)
			}
			v, why := fed.FederationVerdict(c.f.W, x.Raw, tok, t0, time.Now())
			iv := infoVerdict{v, why, sameType(x)}
			c.check(how, x, iv.eff(), why, err)
		}
	}
}

// reuseDelegation: the delegation of a mark is the one it has now.
func (c *markCase) reuseDelegation() {
	var mark *oidfed.TrustMark
	for _, n := range c.f.Nodes {
		for _, x := range c.infos[n.ID] {
			t, err := fed.Decode(x.Raw)
			if err != nil || t.Str("delegation") == "" {
				continue
			}
			d, err := fed.Decode([]byte(t.Str("delegation")))
			if err != nil || d.Typ() != fed.TypDelegation {
				continue
			}
			if mark == nil {
				if mark, err = oidfed.ParseTrustMark(x.Raw); err != nil {
					mark = nil
					continue
				}
			}
			mark.DelegationJWT = t.Str("delegation")
			got, err := mark.Delegation()
			if err != nil || got == nil {
				continue
			}
			c.k.Count("delegations asked again", 1)
			if got.Issuer != d.Str("iss") || got.Subject != d.Str("sub") || got.TrustMarkType != d.Str("trust_mark_type") {
				c.k.Violation(
					"the delegation of a trust mark is not the one it has",
					map[string]any{"got": generic(got), "want": d.Claims},
				)
			}
		}
	}
}

// markLive lets marks and delegations expire.
func markLive(k *rt.Case) {
	c := genMarks(k, 0, 0)
	defer c.f.W.Close()
	exp := float64(time.Now().Add(1500*time.Millisecond).UnixMilli()) / 1000
	// marks that expire soon
	for _, n := range c.f.Nodes {
		var l []fed.MarkInfo
		for i := 0; i < 3; i++ {
			t := c.m.Types[k.Rng.Intn(len(c.m.Types))]
			iss := c.f.Nodes[k.Rng.Intn(len(c.f.Nodes))]
			if ls := c.m.Listed[t]; len(ls) > 0 {
				iss = c.f.By[ls[0]]
			}
			claims := map[string]any{
				"iss": iss.ID, "sub": n.ID, "trust_mark_type": t, "iat": time.Now().Unix() - 10, "exp": exp,
			}
			if o := c.m.Owners[t]; o != nil {
				d := map[string]any{"iss": o.ID, "sub": iss.ID, "trust_mark_type": t, "iat": time.Now().Unix() - 10, "exp": exp}
				if fed.Chance(k.Rng, 0.5) {
					delete(claims, "exp")
				}
				claims["delegation"] = string(fed.Sign(o.Keys[0], map[string]any{"typ": fed.TypDelegation}, d))
			}
			raw := fed.Sign(iss.Keys[0], map[string]any{"typ": fed.TypMark}, claims)
			l = append(
				l, fed.MarkInfo{
					Type: t, Raw: raw, Mut: "live", Obj: map[string]any{"trust_mark_type": t, "trust_mark": string(raw)},
				},
			)
		}
		c.infos[n.ID] = l
		c.m.Publish(n, l)
	}
	c.f.Publish()
	c.verify()
	time.Sleep(time.Until(time.Unix(0, int64(exp*1e9)).Add(50 * time.Millisecond)))
	c.verify()
}

func runC09(c *rt.Ctx) {
	c.Rule = "Cases are random federations with an anchor that may list issuers and owners per trust mark type, and holders that publish " +
		"marks signed by an independent JOSE implementation, most of them with one of " + fmt.Sprint(len(fed.MarkMutations)) + " attacks on " +
		"the mark, its info object or its delegation, some with attacks on the issuer's chain. Every way to verify a mark " +
		"(for an anchor, with given keys, single, lists, resolve responses, delegations, reused variables) is compared with an " +
		"independent three-valued reference. Distinct by way, verdict, reason, attack and number of attacks on statements."
	c.Assume = []string{
		"the key that verifies carries the kid of the token and is both in the issuer's configuration and attested (else undecided)",
		"a type with an empty list of issuers, and a mark issued by the owner without a delegation, are undecided",
	}
	c.RunParallel(
		"mutation", len(fed.MarkMutations)*c.N(6, 60), func(k *rt.Case) {
			var i int
			_, _ = fmt.Sscanf(k.Name, "mutation#%d", &i)
			mut := fed.MarkMutations[i%len(fed.MarkMutations)]
			c := genMarks(k, 0, 0)
			defer c.f.W.Close()
			n := c.f.Nodes[len(c.f.Nodes)-1]
			l := append(c.infos[n.ID], c.m.New(n, mut))
			k.Rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			c.infos[n.ID] = l
			c.m.Publish(n, l)
			c.f.Publish()
			c.verify()
			c.external()
		},
	)
	c.RunParallel(
		"random", c.N(900, 14000), func(k *rt.Case) {
			n := 0
			if fed.Chance(k.Rng, 0.4) {
				n = 1 + k.Rng.Intn(2)
			}
			c := genMarks(k, n, 0.5)
			defer c.f.W.Close()
			c.verify()
			if fed.Chance(k.Rng, 0.5) {
				c.external()
			}
			if fed.Chance(k.Rng, 0.5) {
				c.reuse()
			}
			var muts []string
			for _, l := range c.infos {
				for _, i := range l {
					muts = append(muts, i.Mut)
				}
			}
			k.Sample(map[string]any{"case": k.Name, "marks": strings.Join(muts, ","), "statement mutations": c.f.Muts})
		},
	)
	c.RunParallel("live", c.N(16, 64), markLive)
	// other resolvers that a program may choose for the library
	for _, d := range []struct {
		name string
		r    oidfed.MetadataResolver
	}{
		{"pointer", &oidfed.LocalMetadataResolver{}}, {"smart", oidfed.SmartRemoteMetadataResolver{}},
		{"smart pointer", &oidfed.SmartRemoteMetadataResolver{}},
	} {
		old := oidfed.DefaultMetadataResolver
		oidfed.DefaultMetadataResolver = d.r
		c.RunParallel("resolver "+d.name, c.N(120, 2000), markResolver)
		oidfed.DefaultMetadataResolver = old
	}
	uncached(func() { c.RunParallel("change", c.N(350, 6000), marksChange) })
}

// markResolver: the issuers are resolved in another way, possibly by a resolve endpoint of the anchor.
func markResolver(k *rt.Case) {
	r := k.Rng
	n := 0
	if fed.Chance(r, 0.3) {
		n = 1
	}
	c := genMarks(k, n, 0.3)
	defer c.f.W.Close()
	kind := fed.Pick(r, "none", "honest", "honest", "fails", "denies")
	if fe, ok := c.anchor.Meta["federation_entity"].(map[string]any); ok && kind != "none" {
		ep := c.anchor.Endpoint("resolve")
		fe["federation_resolve_endpoint"] = ep
		c.anchor.EC.Reset()
		c.f.PublishNode(c.anchor)
		c.f.W.Handle(
			ep, func(q fed.Req) *fed.Resp {
				no := &fed.Resp{Status: 404, Type: "application/json", Body: []byte(`{"error":"invalid_trust_chain"}`)}
				if kind == "denies" {
					return no
				}
				if kind == "fails" {
					return &fed.Resp{Status: 500, Type: "text/plain", Body: []byte("oops")}
				}
				now := time.Now()
				m := &fed.Model{W: c.f.W, Anchors: []fed.Anchor{{ID: c.anchor.ID}}, T0: now, T1: now}
				sub := q.Query.Get("sub")
				for _, x := range m.Chains(sub) {
					if x.V != fed.Yes {
						continue
					}
					var chain []any
					for _, raw := range x.Raw {
						chain = append(chain, raw)
					}
					ec, _ := fed.Decode([]byte(x.Raw[0]))
					k.Count("resolved_remotely", 1)
					claims := map[string]any{
						"iss": c.anchor.ID, "sub": sub, "iat": now.Unix() - 1, "exp": now.Unix() + 600, "trust_chain": chain,
					}
					for _, n := range []string{"metadata", "trust_marks"} {
						if v, ok := ec.Claims[n]; ok {
							claims[n] = v
						}
					}
					return &fed.Resp{
						Type: "application/resolve-response+jwt",
						Body: fed.Sign(c.anchor.Keys[0], map[string]any{"typ": typResolve}, claims),
					}
				}
				return no
			},
		)
	}
	c.verify()
	k.Count("endpoint "+kind, 1)
}
