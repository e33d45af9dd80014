package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/jwks"

	"github.com/go-oidfed/lib/verifharness/fed"
	"github.com/go-oidfed/lib/verifharness/rt"
)

func init() {
	register("C01", property{run: runC01})
	register("C02", property{run: runC02})
	register("C03", property{run: runC03})
}

// toJWKS parses generic json keys with the library.
func toJWKS(v any) (j jwks.JWKS) {
	if v == nil {
		return
	}
	if m, ok := v.(map[string]any); ok {
		if l, ok := m["keys"].([]any); ok && len(l) == 0 {
			// decoding an empty set gives no set
			return jwks.NewJWKS()
		}
	}
	if err := json.Unmarshal(fed.MustJSON(v), &j); err != nil {
		panic(err)
	}
	return
}

func toAnchors(as []fed.Anchor) (r oidfed.TrustAnchors) {
	for _, a := range as {
		r = append(r, oidfed.TrustAnchor{EntityID: a.ID, JWKS: toJWKS(a.JWKS)})
	}
	return
}

// rawChain gives the tokens of a chain as the user sees them.
func rawChain(c oidfed.TrustChain) (r []string) {
	data, err := json.Marshal(c.Messages())
	if err != nil {
		panic(err)
	}
	if err = json.Unmarshal(data, &r); err != nil {
		panic(err)
	}
	return
}

func chainKeys(cs oidfed.TrustChains) map[string]bool {
	m := map[string]bool{}
	for _, c := range cs {
		m[strings.Join(rawChain(c), "\n")] = true
	}
	return m
}

// consistent checks that the parsed statements say what the signed tokens say.
func consistent(c oidfed.TrustChain) string {
	raw := rawChain(c)
	if len(raw) != len(c) {
		return "number of messages"
	}
	for i, s := range c {
		t, err := fed.Decode([]byte(raw[i]))
		if err != nil {
			return "undecodable message"
		}
		if s.Issuer != t.Str("iss") || s.Subject != t.Str("sub") {
			return "issuer or subject differ from the signed token"
		}
		if f, _ := t.Num("exp"); s.ExpiresAt.Unix() != int64(f) {
			return "exp differs from the signed token"
		}
	}
	return ""
}

func idsOf(raw []string) string {
	var r []string
	for _, x := range raw {
		t, err := fed.Decode([]byte(x))
		if err != nil {
			r = append(r, "?")
			continue
		}
		r = append(r, t.Str("iss")+" about "+t.Str("sub"))
	}
	return strings.Join(r, " <- ")
}

// chainCase is one federation that is resolved in several ways.
type chainCase struct {
	k       *rt.Case
	f       *fed.Fed
	start   string
	anchors []fed.Anchor
	types   []string
}

// genChain generates the federation; muts statements are mutated with the given mutations.
func genChain(k *rt.Case, o fed.Opts, muts []string, nMut int, constraints float64) *chainCase {
	r := k.Rng
	w := fed.NewWorld()
	f := fed.NewFed(r, w, o)
	c := &chainCase{k: k, f: f}
	if constraints > 0 {
		f.AddConstraints(constraints)
	}
	for i := 0; i < nMut; i++ {
		f.Mutate(muts[r.Intn(len(muts))])
	}
	if fed.Chance(r, 0.03) {
		// long statements
		for range 1 + r.Intn(2) {
			grow(r, f)
		}
		k.Count("federations_with_long_statements", 1)
	}
	f.Publish()
	if fed.Chance(r, 0.08) {
		// some of what is published is found elsewhere
		salt := r.Uint32()
		w.SetMoved(
			func(q fed.Req) bool {
				h := fnv.New32a()
				_, _ = h.Write([]byte(q.Host + q.Path + q.Query.Get("sub")))
				return (h.Sum32()^salt)%3 == 0
			},
		)
		k.Count("federations_with_redirects", 1)
	}
	c.start = f.Nodes[len(f.Nodes)-1-r.Intn(o.Leaves)].ID
	if fed.Chance(r, 0.12) {
		c.start = f.Nodes[r.Intn(len(f.Nodes))].ID
	}
	c.anchors = pickAnchors(r, f)
	if fed.Chance(r, 0.25) {
		c.types = []string{fed.Pick(r, "openid_provider", "openid_relying_party", "federation_entity", "custom_entity")}
		if fed.Chance(r, 0.4) {
			c.types = append(c.types, "openid_relying_party")
		}
	}
	k.Logf("start %s anchors %v types %v mutations %v", c.start, anchorIDs(c.anchors), c.types, f.Muts)
	for _, n := range f.Nodes {
		k.Logf("node %s hints %v", n.ID, n.Hints)
	}
	return c
}

// grow makes a statement long.
func grow(r *rand.Rand, f *fed.Fed) {
	st := f.Stmts()
	st[r.Intn(len(st))].Claims["note"] = strings.Repeat("long ", 10000+r.Intn(50000))
}

func anchorIDs(as []fed.Anchor) (r []string) {
	for _, a := range as {
		s := a.ID
		if a.JWKS != nil {
			s += " (pinned)"
		}
		r = append(r, s)
	}
	return
}

func pickAnchors(r *rand.Rand, f *fed.Fed) (as []fed.Anchor) {
	for _, n := range f.Nodes {
		if (n.Level == 0 && fed.Chance(r, 0.8)) || (n.Level < 9 && fed.Chance(r, 0.06)) {
			a := fed.Anchor{ID: n.ID}
			switch r.Intn(6) {
			case 0, 1:
				a.JWKS = generic(fed.JWKS(n.Keys...))
			case 2:
				// wrong keys with the right key ids
				var ks []*fed.Key
				for _, k := range n.Keys {
					ks = append(ks, fed.NewKey("ES256", k.Kid))
				}
				if fed.Chance(r, 0.5) {
					a.JWKS = generic(fed.JWKS(ks...))
				}
			case 3:
				if fed.Chance(r, 0.3) {
					a.JWKS = generic(fed.JWKS(f.Nodes[r.Intn(len(f.Nodes))].Keys...))
				}
			case 4:
				// pinned to no key at all
				if fed.Chance(r, 0.15) {
					a.JWKS = map[string]any{"keys": []any{}}
				}
			}
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		as = append(as, fed.Anchor{ID: f.Nodes[0].ID})
	}
	if fed.Chance(r, 0.1) {
		as = append(as, fed.Anchor{ID: "http://nobody." + f.W.Suffix})
	}
	r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	return
}

// generic passes a value through json so that the model sees what a parser would see.
func generic(v any) (r any) {
	if err := json.Unmarshal(fed.MustJSON(v), &r); err != nil {
		panic(err)
	}
	return
}

// resolve gets the chains from the library through entry point e.
func (c *chainCase) resolve(e int) (chains oidfed.TrustChains) {
	tr := oidfed.TrustResolver{TrustAnchors: toAnchors(c.anchors), StartingEntity: c.start, Types: c.types}
	switch e {
	case 0:
		chains = tr.ResolveToValidChainsWithoutVerifyingMetadata()
	case 1:
		chains = tr.ResolveToValidChains()
	case 2:
		tr.Resolve()
		tr.VerifySignatures()
		chains = tr.Chains()
	case 3:
		tr.Resolve()
		tr.VerifySignatures()
		tr.VerifySignatures()
		chains = tr.Chains()
		chains = tr.Chains()
	case 4:
		// a resolver that is used again
		tr.ResolveToValidChainsWithoutVerifyingMetadata()
		chains = tr.ResolveToValidChainsWithoutVerifyingMetadata()
	}
	return
}

var entryNames = []string{
	"ResolveToValidChainsWithoutVerifyingMetadata", "ResolveToValidChains", "Resolve+VerifySignatures+Chains",
	"Resolve+VerifySignatures+VerifySignatures+Chains", "resolve twice",
}

// run resolves and compares with the model.
func (c *chainCase) run(entry int, sound, complete bool) {
	k := c.k
	m := &fed.Model{W: c.f.W, Anchors: c.anchors, Types: c.types}
	m.T0 = time.Now()
	lib := c.resolve(entry)
	m.T1 = time.Now()
	model := m.Chains(c.start)
	byKey := map[string]fed.Verdict{}
	may := 0
	for _, x := range model {
		if v, ok := byKey[x.Key()]; !ok || x.V > v {
			byKey[x.Key()] = x.V
		}
		if x.V == fed.Maybe {
			may++
		}
	}
	k.Count("chains_returned", len(lib))
	k.Count("chains_in_model", len(byKey))
	k.Count("chains_undecided", may)
	for why, n := range m.Rejected {
		k.Count("rejected: "+why, n)
	}
	if sound {
		for _, x := range lib {
			raw := rawChain(x)
			if byKey[strings.Join(raw, "\n")] == fed.No {
				k.Violation(
					"a chain is returned that is not valid", map[string]any{
						"entry": entryNames[entry], "chain": idsOf(raw), "start": c.start,
						"anchors": anchorIDs(c.anchors), "mutations": c.f.Muts, "raw": raw,
					},
				)
			}
			if why := consistent(x); why != "" {
				k.Violation("a statement of a returned chain is not what was signed: "+why, map[string]any{"raw": raw})
			}
		}
	}
	if complete {
		got := chainKeys(lib)
		for _, x := range model {
			if x.V == fed.Yes && !got[x.Key()] {
				k.Violation(
					"a valid chain is not found", map[string]any{
						"entry": entryNames[entry], "chain": idsOf(x.Raw), "start": c.start,
						"anchors": anchorIDs(c.anchors), "mutations": c.f.Muts, "raw": x.Raw,
					},
				)
			}
		}
	}
	var shape []string
	for _, x := range lib {
		shape = append(shape, fmt.Sprint(len(x)))
	}
	sort.Strings(shape)
	var rej []string
	for why := range m.Rejected {
		rej = append(rej, why)
	}
	sort.Strings(rej)
	key := fmt.Sprintf("%v/%s/%s/%d", shape, strings.Join(rej, ","), mutNames(c.f.Muts), entry)
	if len(model) == 0 && len(rej) == 0 {
		key = ""
	}
	k.Eval(key)
	k.Sample(
		map[string]any{
			"case": k.Name, "start": c.start, "anchors": anchorIDs(c.anchors), "entities": len(c.f.Nodes),
			"mutations": c.f.Muts, "returned": len(lib), "model": len(model), "rejected": m.Rejected,
		},
	)
}

func mutNames(ms []string) string {
	var r []string
	for _, m := range ms {
		r = append(r, strings.SplitN(m, "(", 2)[0])
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

func randOpts(r *rand.Rand) fed.Opts {
	return fed.Opts{
		TAs: 1 + r.Intn(3), Mids: r.Intn(5), Leaves: 1 + r.Intn(2), Cycles: fed.Chance(r, 0.4),
		RichAlgs: fed.Chance(r, 0.3), PathIDs: fed.Chance(r, 0.3), ExtraTypes: fed.Chance(r, 0.4),
		MidTypes: fed.Chance(r, 0.3), DeadHints: fed.Chance(r, 0.2), DoubleHints: fed.Chance(r, 0.1),
		MaxHints: 1 + r.Intn(3),
	}
}

const chainRule = "Cases are random federations (trust anchors, intermediates, leaves, cyclic and repeated hints, pinned, wrong and " +
	"foreign anchor keys) whose statements are signed by an independent JOSE implementation and mutated by a named attack; they are " +
	"served over loopback HTTP, resolved by the library through one of five entry points and compared with the chains an " +
	"independent three-valued reference resolver derives. Non-trivial: the reference found a chain or rejected something; " +
	"distinct by lengths of returned chains, rejection reasons, mutations and entry point."

var allMutations = append(append([]string{}, fed.Mutations...), fed.TimeMutations...)

func runC01(c *rt.Ctx) {
	c.Rule = chainRule
	c.Assume = []string{
		"an entity's statements do not change while one resolution runs",
		"the key that verifies must carry the kid of the token; other keys in the set are judged 'undecided'",
	}
	var done sync.Map
	// every mutation on every position of a small chain
	c.RunParallel(
		"position", len(fed.Mutations)*7*c.N(2, 12), func(k *rt.Case) {
			var i int
			_, _ = fmt.Sscanf(k.Name, "position#%d", &i)
			o := fed.Opts{TAs: 1, Mids: 2, Leaves: 1, MaxHints: 1}
			w := fed.NewWorld()
			defer w.Close()
			f := fed.NewFed(k.Rng, w, o)
			line(f)
			st := f.Stmts()
			f.MutateStmt(fed.Mutations[(i/7)%len(fed.Mutations)], st[i%7%len(st)])
			f.Publish()
			cc := &chainCase{k: k, f: f, start: f.Nodes[3].ID, anchors: []fed.Anchor{{ID: f.Nodes[0].ID}}}
			if fed.Chance(k.Rng, 0.4) {
				cc.anchors[0].JWKS = generic(fed.JWKS(f.Nodes[0].Keys...))
			}
			done.Store(f.Muts[0], true)
			k.Logf("anchors %v mutations %v", anchorIDs(cc.anchors), f.Muts)
			cc.run(k.Rng.Intn(len(entryNames)), true, false)
		},
	)
	c.RunParallel(
		"random", c.N(5000, 80000), func(k *rt.Case) {
			cc := genChain(k, randOpts(k.Rng), fed.Mutations, k.Rng.Intn(4), 0)
			defer cc.f.W.Close()
			cc.run(k.Rng.Intn(len(entryNames)), true, false)
		},
	)
	c.RunParallel("collusion", c.N(900, 12000), collusion)
	uncached(func() { c.RunParallel("change", c.N(1500, 20000), chainChange(true, false)) })
}

// line makes the federation a line ta0 - ia1 - ia2 - leaf3.
func line(f *fed.Fed) {
	for i, n := range f.Nodes {
		n.About = map[string]*fed.Stmt{}
		n.List = nil
		n.Hints = nil
		if i > 0 {
			n.Hints = []string{f.Nodes[i-1].ID}
		}
	}
	f.Rebuild()
}

// collusion lets an attacker control an entity below the anchor that tries to speak for others.
func collusion(k *rt.Case) {
	r := k.Rng
	w := fed.NewWorld()
	defer w.Close()
	f := fed.NewFed(r, w, fed.Opts{TAs: 1, Mids: 3, Leaves: 2, MaxHints: 2, Cycles: fed.Chance(r, 0.3)})
	ta := f.Nodes[0]
	evil := f.Nodes[1+r.Intn(3)]
	victim := f.Nodes[4]
	atk := fed.NewKey("ES256", "atk")
	switch r.Intn(9) {
	case 0: // evil serves a statement about the victim with other keys; the victim's configuration is forged
		f.Claim(evil, victim, atk)
		victim.EC = f.Forge(victim, victim, atk, evil.ID)
	case 1: // evil issues a statement in the name of the anchor
		s := f.Forge(ta, victim, evil.Keys[0], "")
		evil.About[victim.ID] = s
		victim.EC = f.Forge(victim, victim, atk, evil.ID)
	case 2: // the victim's hints point to evil only, evil claims to be an anchor
		evil.EC = f.Forge(ta, ta, evil.Keys[0], "")
		f.Claim(evil, victim, atk)
		victim.EC = f.Forge(victim, victim, atk, evil.ID)
	case 3: // a second configuration of the anchor with other keys
		ta.EC = f.Forge(ta, ta, atk, "")
		ta.EC.Claims["metadata"] = ta.Meta
		for _, s := range ta.About {
			if fed.Chance(r, 0.7) {
				s.Key = atk
			}
		}
	case 4: // the statement about a sibling is replayed
		other := f.Nodes[5]
		for _, n := range f.Nodes {
			if s := n.About[other.ID]; s != nil {
				n.About[victim.ID] = s
			}
		}
		victim.EC = f.Forge(victim, victim, other.Keys[0], ta.ID)
	case 5: // an intermediate that is cut off keeps issuing
		for _, n := range f.Nodes {
			if s := n.About[evil.ID]; s != nil {
				s.Claims["jwks"] = fed.JWKS(atk)
			}
		}
	case 6, 7, 8: // evil is not registered, but a registered entity lends it its name and keys
		x := f.Nodes[5]
		for _, n := range f.Nodes {
			delete(n.About, evil.ID)
		}
		names := [][2]*fed.Node{{x, evil}, {evil, x}, {x, x}, {evil, evil}}[r.Intn(4)]
		evil.EC = f.Forge(names[0], names[1], x.Keys[0], "")
		evil.EC.Claims["jwks"] = fed.JWKS(x.Keys...)
		evil.EC.Claims["metadata"] = evil.Meta
		evil.EC.Claims["authority_hints"] = x.EC.Claims["authority_hints"]
		victim.EC = f.Forge(victim, victim, atk, evil.ID)
		about := f.Forge(fed.Pick(r, evil, evil, x), victim, x.Keys[0], "")
		about.Claims["jwks"] = fed.JWKS(atk)
		evil.About[victim.ID] = about
		if fed.Chance(r, 0.5) {
			// the superiors answer requests about evil with what they know about x
			for _, n := range f.Nodes {
				if s := n.About[x.ID]; s != nil && n != evil {
					n.About[evil.ID] = s
				}
			}
		}
	}
	f.Muts = append(f.Muts, "collusion")
	f.Publish()
	cc := &chainCase{k: k, f: f, start: victim.ID, anchors: []fed.Anchor{{ID: ta.ID}}}
	if fed.Chance(r, 0.7) {
		cc.anchors[0].JWKS = generic(fed.JWKS(ta.Keys...))
	}
	cc.run(r.Intn(len(entryNames)), true, false)
}

func runC02(c *rt.Ctx) {
	c.Rule = chainRule
	c.RunParallel(
		"random", c.N(6000, 80000), func(k *rt.Case) {
			n := 0
			if fed.Chance(k.Rng, 0.4) {
				n = 1 + k.Rng.Intn(2)
			}
			cc := genChain(k, randOpts(k.Rng), allMutations, n, fed.Pick(k.Rng, 0, 0, 0.3, 0.6))
			defer cc.f.W.Close()
			cc.run(k.Rng.Intn(len(entryNames)), false, true)
		},
	)
	c.RunParallel(
		"dense", c.N(120, 900), func(k *rt.Case) {
			// densely connected, cyclic
			o := fed.Opts{TAs: 2, Mids: 4 + k.Rng.Intn(2), Leaves: 1, Cycles: true, MaxHints: 4}
			cc := genChain(k, o, allMutations, k.Rng.Intn(2), 0)
			defer cc.f.W.Close()
			cc.run(k.Rng.Intn(len(entryNames)), false, true)
			if n := cc.f.W.RequestCount(); n > 4*len(cc.f.Nodes)*len(cc.f.Nodes)+200 {
				k.Count("many_requests", 1)
			}
		},
	)
	c.RunParallel(
		"deep", c.N(12, 100), func(k *rt.Case) {
			o := fed.Opts{TAs: 1, Mids: 20 + k.Rng.Intn(30), Leaves: 1, MaxHints: 1}
			w := fed.NewWorld()
			defer w.Close()
			f := fed.NewFed(k.Rng, w, o)
			line(f)
			f.Publish()
			cc := &chainCase{
				k: k, f: f, start: f.Nodes[len(f.Nodes)-1].ID, anchors: []fed.Anchor{{ID: f.Nodes[0].ID}},
			}
			cc.run(k.Rng.Intn(len(entryNames)), false, true)
		},
	)
	c.RunParallel("local", c.N(1500, 15000), localResolver)
	c.RunParallel("endless", c.N(6, 40), endless)
	c.RunParallel("hints", c.N(60, 900), manyHints)
	c.RunParallel("many", c.N(8, 60), manySubs)
	uncached(func() { c.RunParallel("change", c.N(1500, 20000), chainChange(false, true)) })
}

// endless is a federation in which every entity names a new superior.
func endless(k *rt.Case) {
	w := fed.NewWorld()
	defer w.Close()
	key := fed.NewKey("ES256", "k")
	limit := 150 + k.Rng.Intn(100)
	id := func(i int) string { return fmt.Sprintf("http://e%d.%s", i, w.Suffix) }
	w.SetFault(
		func(q fed.Req) *fed.Resp {
			var i int
			if _, err := fmt.Sscanf(q.Host, "e%d.", &i); err != nil || i > limit {
				return &fed.Resp{Status: 404, Type: "application/json", Body: []byte(`{"error":"not_found"}`)}
			}
			now := time.Now().Unix()
			cl := map[string]any{
				"iss": id(i), "sub": id(i), "iat": now - 60, "exp": now + 3600, "jwks": fed.JWKS(key),
				"authority_hints": []any{id(i + 1)},
				"metadata": map[string]any{
					"federation_entity": map[string]any{"federation_fetch_endpoint": id(i) + "/fetch"},
				},
			}
			if s := q.Query.Get("sub"); s != "" {
				cl["sub"] = s
				delete(cl, "metadata")
				delete(cl, "authority_hints")
			}
			return &fed.Resp{Type: "application/entity-statement+jwt", Body: fed.Sign(key, map[string]any{"typ": fed.TypStatement}, cl)}
		},
	)
	tr := oidfed.TrustResolver{
		TrustAnchors: oidfed.NewTrustAnchorsFromEntityIDs("http://ta." + w.Suffix), StartingEntity: id(0),
	}
	chains := tr.ResolveToValidChains()
	if len(chains) > 0 {
		k.Violation("a chain is returned that is not valid", map[string]any{"n": len(chains)})
	}
	k.Eval(fmt.Sprintf("endless/%d", limit))
	k.Count("endless_requests", w.RequestCount())
}

// localResolver checks the metadata resolver that builds on the chains.
func localResolver(k *rt.Case) {
	n := 0
	if fed.Chance(k.Rng, 0.5) {
		n = 1 + k.Rng.Intn(3)
	}
	cc := genChain(k, randOpts(k.Rng), allMutations, n, fed.Pick(k.Rng, 0, 0, 0.3, 0.6))
	defer cc.f.W.Close()
	for i := range cc.anchors {
		cc.anchors[i].JWKS = nil
	}
	m := &fed.Model{W: cc.f.W, Anchors: cc.anchors, Types: cc.types}
	m.T0 = time.Now()
	req := apimodel.ResolveRequest{Subject: cc.start, EntityTypes: cc.types}
	for _, a := range cc.anchors {
		req.TrustAnchor = append(req.TrustAnchor, a.ID)
	}
	res, err := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(req)
	yes, no := oidfed.LocalMetadataResolver{}.ResolvePossible(req)
	m.T1 = time.Now()
	model := m.Chains(cc.start)
	best := fed.No
	short := 0
	for _, x := range model {
		if x.V > best {
			best = x.V
		}
		if x.V == fed.Yes && (short == 0 || len(x.Raw) < short) {
			short = len(x.Raw)
		}
	}
	det := map[string]any{"start": cc.start, "anchors": anchorIDs(cc.anchors), "mutations": cc.f.Muts}
	if yes == no {
		k.Violation("local ResolvePossible is undecided", det)
	}
	switch best {
	case fed.Yes:
		if err != nil || !yes {
			det["err"] = fmt.Sprint(err)
			k.Violation("local resolving fails although there is a valid chain", det)
		}
	case fed.No:
		if err == nil || yes {
			k.Violation("local resolving succeeds although there is no valid chain", det)
		}
	}
	if err == nil {
		var raw []string
		data, _ := json.Marshal(res.TrustChain)
		_ = json.Unmarshal(data, &raw)
		ok := fed.No
		for _, x := range model {
			if x.Key() == strings.Join(raw, "\n") {
				ok = x.V
			}
		}
		if ok == fed.No {
			det["chain"] = idsOf(raw)
			k.Violation("local resolving returns a chain that is not valid", det)
		}
		if short > 0 && len(raw) > short && !(len(raw) <= 3 && short <= 3) {
			det["chain"] = idsOf(raw)
			k.Violation("local resolving does not prefer the shortest path", det)
		}
	}
	k.Eval(fmt.Sprintf("local/%d/%d/%s/%v", best, len(model), mutNames(cc.f.Muts), cc.types))
}

func runC03(c *rt.Ctx) {
	c.Rule = chainRule + " Here subordinate statements carry random max_path_length, naming and entity type constraints."
	c.RunParallel(
		"constraints", c.N(6000, 90000), func(k *rt.Case) {
			o := randOpts(k.Rng)
			o.Mids = 1 + k.Rng.Intn(4)
			o.LeafTypes = []string{"openid_provider", "openid_relying_party", "oauth_client", "oauth_resource"}
			cc := genChain(k, o, allMutations, 0, 0.15+0.5*k.Rng.Float64())
			defer cc.f.W.Close()
			cc.run(k.Rng.Intn(len(entryNames)), true, true)
		},
	)
	c.RunParallel("line", c.N(4000, 40000), constraintLine)
	uncached(func() { c.RunParallel("change", c.N(1000, 12000), constraintChange) })
}

// constraintLine puts one constraint on one position of a line whose other statements are fine.
func constraintLine(k *rt.Case) {
	r := k.Rng
	w := fed.NewWorld()
	defer w.Close()
	f := fed.NewFed(
		r, w, fed.Opts{
			TAs: 1, Mids: r.Intn(5), Leaves: 1, MaxHints: 1, ExtraTypes: true, MidTypes: true, PathIDs: fed.Chance(r, 0.3),
			LeafTypes: []string{"openid_provider", "openid_relying_party", "oauth_client"},
		},
	)
	line(f)
	i := 1 + r.Intn(len(f.Nodes)-1)
	s := f.Nodes[i-1].About[f.Nodes[i].ID]
	f.ConstrainStmt(s, 1+r.Intn(3))
	f.Muts = append(f.Muts, fmt.Sprintf("constraint(%v)", s.Claims["constraints"]))
	f.Publish()
	cc := &chainCase{k: k, f: f, start: f.Nodes[len(f.Nodes)-1].ID, anchors: []fed.Anchor{{ID: f.Nodes[0].ID}}}
	if fed.Chance(r, 0.3) {
		cc.types = []string{fed.Pick(r, "openid_provider", "openid_relying_party", "custom_entity")}
	}
	k.Logf("position %d constraints %v types %v", i, s.Claims["constraints"], cc.types)
	cc.run(r.Intn(len(entryNames)), true, true)
}
