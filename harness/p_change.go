package main

import (
	"fmt"
	"maps"
	"math/rand"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/cache"

	"github.com/go-oidfed/lib/verifharness/fed"
	"github.com/go-oidfed/lib/verifharness/rt"
)

// Federations that change between two uses: without a cache, what is published now counts, and nothing else.

// uncached runs f without a cache; it is for the end of a check, because the cache is not given back.
func uncached(f func()) {
	cache.SetCache(fed.NoCache{})
	f()
}

// alter changes what is published of a federation and tells what it did.
func alter(r *rand.Rand, f *fed.Fed) (did []string) {
	for range 1 + r.Intn(3) {
		n := f.Nodes[r.Intn(len(f.Nodes))]
		all := f.Stmts()
		s := all[r.Intn(len(all))]
		about := fmt.Sprint(s.Claims["iss"], " about ", s.Claims["sub"])
		switch r.Intn(7) {
		case 0, 1:
			rotate(r, f, n)
			did = append(did, "keys of "+n.ID)
		case 2:
			s.Resp = fed.Pick(
				r, &fed.Resp{Status: 404, Type: "application/json", Body: []byte(`{"error":"not_found"}`)},
				&fed.Resp{Status: 500, Type: "text/plain", Body: []byte("oops")}, &fed.Resp{Drop: true},
				&fed.Resp{Status: fed.Pick(r, 403, 404, 410, 500), Type: "application/entity-statement+jwt", Body: s.Raw()},
			)
			did = append(did, "gone: "+about)
		case 3:
			for _, x := range all {
				if x.Resp != nil && fed.Chance(r, 0.7) {
					x.Resp = nil
					did = append(did, "back: "+fmt.Sprint(x.Claims["iss"], " about ", x.Claims["sub"]))
				}
			}
		case 4:
			var h []any
			for _, i := range r.Perm(len(f.Nodes))[:1+r.Intn(2)] {
				if x := f.Nodes[i]; x.Level < n.Level || fed.Chance(r, 0.1) {
					h = append(h, x.ID)
					if x.About[n.ID] == nil && fed.Chance(r, 0.7) {
						f.Claim(x, n, n.Keys...)
					}
				}
			}
			if len(h) == 0 {
				delete(n.EC.Claims, "authority_hints")
			} else {
				n.EC.Claims["authority_hints"] = h
			}
			did = append(did, fmt.Sprint("hints of ", n.ID, ": ", h))
		case 5:
			m := allMutations[r.Intn(len(allMutations))]
			f.MutateStmt(m, s)
			did = append(did, "attack: "+m+" "+about)
		case 6:
			// constraints come and go
			if s.Claims["iss"] != s.Claims["sub"] {
				if s.Claims["constraints"] != nil {
					delete(s.Claims, "constraints")
				} else {
					f.ConstrainStmt(s, 1)
				}
				did = append(did, "constraints: "+about)
			}
		}
	}
	republish(f)
	return
}

// rotate gives an entity other keys, which most superiors attest.
func rotate(r *rand.Rand, f *fed.Fed, n *fed.Node) {
	n.Keys = nil
	for i := 0; i <= r.Intn(2); i++ {
		n.Keys = append(n.Keys, fed.NewKey("ES256", fmt.Sprintf("k%x", r.Int63())))
	}
	n.EC.Claims["jwks"], n.EC.Key = fed.JWKS(n.Keys...), n.Keys[r.Intn(len(n.Keys))]
	for _, x := range f.Nodes {
		if s := x.About[n.ID]; s != nil && fed.Chance(r, 0.85) {
			s.Claims["jwks"] = fed.JWKS(n.Keys...)
		}
	}
	for _, sub := range slices.Sorted(maps.Keys(n.About)) {
		if fed.Chance(r, 0.95) {
			n.About[sub].Key = n.Keys[r.Intn(len(n.Keys))]
		}
	}
}

// republish signs and serves everything anew.
func republish(f *fed.Fed) {
	for _, s := range f.Stmts() {
		s.Reset()
	}
	f.Publish()
}

// chainChange resolves a federation again and again while it changes.
func chainChange(sound, complete bool) func(k *rt.Case) {
	return func(k *rt.Case) {
		r := k.Rng
		cc := genChain(k, randOpts(r), allMutations, fed.Pick(r, 0, 0, 1), fed.Pick(r, 0, 0, 0.3))
		defer cc.f.W.Close()
		for i := range 2 + r.Intn(3) {
			if i > 0 {
				did := alter(r, cc.f)
				k.Logf("round %d: %s", i, strings.Join(did, "; "))
				for _, d := range did {
					what, _, _ := strings.Cut(d, " of ")
					what, _, _ = strings.Cut(what, ":")
					k.Count("change: "+what, 1)
				}
				if fed.Chance(r, 0.15) {
					cc.anchors = pickAnchors(r, cc.f)
				}
			}
			cc.run(r.Intn(len(entryNames)), sound, complete)
		}
	}
}

// manyHints is an entity with very many superiors, most of which are of no use.
func manyHints(k *rt.Case) {
	r := k.Rng
	w := fed.NewWorld()
	defer w.Close()
	mids := 6 + r.Intn(50)
	f := fed.NewFed(r, w, fed.Opts{TAs: 1, Mids: mids, Leaves: 1, MaxHints: 1})
	leaf := f.Nodes[len(f.Nodes)-1]
	for _, n := range f.Nodes {
		n.About, n.List, n.Hints = map[string]*fed.Stmt{}, nil, nil
	}
	kind := r.Intn(5)
	for i, n := range f.Nodes[1 : len(f.Nodes)-1] {
		n.Hints = []string{f.Nodes[0].ID}
		if kind == 1 && i > 0 && i < mids-1 {
			// some are further away
			n.Hints = []string{f.Nodes[1+r.Intn(i)].ID}
		}
		leaf.Hints = append(leaf.Hints, n.ID)
	}
	r.Shuffle(len(leaf.Hints), func(i, j int) { leaf.Hints[i], leaf.Hints[j] = leaf.Hints[j], leaf.Hints[i] })
	f.Rebuild()
	bad := func(x *fed.Node) {
		switch r.Intn(4) {
		case 0:
			x.EC.Resp = &fed.Resp{Status: 404, Type: "application/json", Body: []byte(`{"error":"not_found"}`)}
		case 1:
			delete(f.Nodes[0].About, x.ID)
		case 2:
			delete(x.About, leaf.ID)
		case 3:
			x.About[leaf.ID].Claims["exp"] = time.Now().Unix() - 100
		}
	}
	switch kind {
	case 2: // only the last one is of use
		for _, id := range leaf.Hints[:len(leaf.Hints)-1] {
			bad(f.By[id])
		}
	case 3: // half of them
		for _, id := range leaf.Hints {
			if fed.Chance(r, 0.5) {
				bad(f.By[id])
			}
		}
	case 4: // hosts that do not exist, and one that does
		one := leaf.Hints[len(leaf.Hints)-1]
		var h []any
		for i := range leaf.Hints {
			h = append(h, fmt.Sprintf("http://dead%d.%s", i, w.Suffix))
		}
		leaf.EC.Claims["authority_hints"] = append(h, one)
	}
	f.Publish()
	cc := &chainCase{k: k, f: f, start: leaf.ID, anchors: []fed.Anchor{{ID: f.Nodes[0].ID}}}
	k.Logf("kind %d, %d hints", kind, len(leaf.Hints))
	cc.run(r.Intn(len(entryNames)), false, true)
}

// manySubs is a superior of very many entities, which are resolved one after another, some more than once.
func manySubs(k *rt.Case) {
	r := k.Rng
	w := fed.NewWorld()
	defer w.Close()
	f := fed.NewFed(r, w, fed.Opts{TAs: 1, Mids: 1, Leaves: 40 + r.Intn(60), MaxHints: 1, PathIDs: true})
	for i, n := range f.Nodes {
		n.About, n.List, n.Hints = map[string]*fed.Stmt{}, nil, nil
		if i == 1 {
			n.Hints = []string{f.Nodes[0].ID}
		} else if i > 1 {
			n.Hints = []string{f.Nodes[1].ID}
		}
	}
	f.Rebuild()
	f.Publish()
	for range 2 {
		for _, i := range r.Perm(len(f.Nodes) - 2) {
			if i%3 == 0 {
				cc := &chainCase{k: k, f: f, start: f.Nodes[i+2].ID, anchors: []fed.Anchor{{ID: f.Nodes[0].ID}}}
				cc.run(0, true, true)
			}
		}
	}
}

// marksChange verifies the same marks while their issuers and the anchor change.
func marksChange(k *rt.Case) {
	r := k.Rng
	c := genMarks(k, 0, 0.2)
	defer c.f.W.Close()
	c.verify()
	for range 1 + r.Intn(2) {
		did := []string{}
		for range 1 + r.Intn(3) {
			switch r.Intn(5) {
			case 0:
				did = append(did, alter(r, c.f)...)
			case 1:
				// an issuer gets other keys
				n := c.f.Nodes[r.Intn(len(c.f.Nodes))]
				rotate(r, c.f, n)
				did = append(did, "keys of "+n.ID)
			case 2:
				if l, ok := c.anchor.EC.Claims["trust_mark_issuers"].(map[string]any); ok && len(l) > 0 {
					ts := slices.Sorted(maps.Keys(l))
					t := ts[r.Intn(len(ts))]
					l[t] = []string{c.f.Nodes[r.Intn(len(c.f.Nodes))].ID}
					did = append(did, "issuers of "+t)
				}
			case 3:
				if l, ok := c.anchor.EC.Claims["trust_mark_owners"].(map[string]any); ok && len(l) > 0 {
					ts := slices.Sorted(maps.Keys(l))
					t := ts[r.Intn(len(ts))]
					switch r.Intn(3) {
					case 0:
						delete(l, t)
					case 1:
						o := maps.Clone(l[t].(map[string]any))
						o["jwks"] = fed.JWKS(fed.NewKey("ES256", fmt.Sprintf("o%x", r.Int63())))
						l[t] = o
					case 2:
						o := maps.Clone(l[t].(map[string]any))
						o["sub"] = c.f.Nodes[r.Intn(len(c.f.Nodes))].ID
						l[t] = o
					}
					did = append(did, "owner of "+t)
				}
			case 4:
				// a holder has other marks
				n := c.f.Nodes[r.Intn(len(c.f.Nodes))]
				l := []fed.MarkInfo{c.m.New(n, fed.Pick(r, "", "", fed.MarkMutations[r.Intn(len(fed.MarkMutations))]))}
				if len(c.infos[n.ID]) > 0 {
					l = append(l, c.infos[n.ID][0])
				}
				c.infos[n.ID] = l
				c.m.Publish(n, l)
				did = append(did, "marks of "+n.ID)
			}
		}
		republish(c.f)
		k.Logf("changes %v", did)
		for _, d := range did {
			what, _, _ := strings.Cut(d, " of ")
			k.Count("change: "+what, 1)
		}
		c.verify()
	}
}

// outageCase: hosts are down for a while, during which they are asked many times; as soon as they are back, everything works.
func outageCase(k *rt.Case) {
	r := k.Rng
	o := randOpts(r)
	cc := genChain(k, o, fed.Mutations, 0, 0.1)
	defer cc.f.W.Close()
	cc.run(0, true, true)
	for range 1 + r.Intn(2) {
		down := map[string]bool{}
		for _, n := range cc.f.Nodes {
			if fed.Chance(r, 0.4) || len(down) == 0 {
				down[n.Host] = true
				if n.Tenant != "" {
					down["shared."+cc.f.W.Suffix] = true
				}
			}
		}
		kind := fed.Pick(r, "drop", "drop", "cut", "503", "429", "404", "slow")
		var mu sync.Mutex
		hits := 0
		cc.f.W.SetFault(
			func(q fed.Req) *fed.Resp {
				if !down[q.Host] {
					return nil
				}
				mu.Lock()
				hits++
				mu.Unlock()
				switch kind {
				case "drop":
					return &fed.Resp{Drop: true}
				case "cut":
					return &fed.Resp{Type: "application/entity-statement+jwt", Body: []byte("eyJ"), Truncate: true}
				case "503":
					return &fed.Resp{Status: 503, Type: "text/plain", Body: []byte("unavailable")}
				case "429":
					return &fed.Resp{Status: 429, Type: "application/json", Body: []byte(`{"error":"temporarily_unavailable"}`)}
				case "404":
					return &fed.Resp{Status: 404, Type: "application/json", Body: []byte(`{"error":"not_found"}`)}
				}
				return &fed.Resp{Delay: 3 * time.Millisecond}
			},
		)
		n := 3 + r.Intn(8)
		for range n {
			cc.resolve(fed.Pick(r, 0, 0, 1, 2))
		}
		cc.f.W.SetFault(nil)
		hosts := slices.Sorted(maps.Keys(down))
		k.Logf("%s of %v during %d resolutions, %d requests", kind, hosts, n, hits)
		k.Count("outage "+kind, 1)
		k.Count("requests_during", hits)
		cc.run(r.Intn(4), true, true)
	}
}

// move changes a provider.
func (x *opWorld) move(k *rt.Case) (did []string) {
	r := k.Rng
	base := "http://" + x.op.Host
	m, ok := x.op.Meta["openid_provider"].(map[string]any)
	if ok && fed.Chance(r, 0.8) {
		m["token_endpoint"] = base + fed.Pick(r, "/token", "/t/oken", "/Token", "/token2")
		did = append(did, fmt.Sprint("token endpoint: ", m["token_endpoint"]))
	}
	if ok && fed.Chance(r, 0.6) {
		m["authorization_endpoint"] = base + fed.Pick(r, "/authorize", "/authorize2", "/a?b=c")
		did = append(did, fmt.Sprint("authorization endpoint: ", m["authorization_endpoint"]))
	}
	if ok && fed.Chance(r, 0.3) {
		m["issuer"] = fed.Pick(r, x.op.ID, base+"/issuer", base+"/issuer2")
		did = append(did, fmt.Sprint("issuer: ", m["issuer"]))
	}
	if fed.Chance(r, 0.4) {
		return append(did, alter(r, x.f)...)
	}
	republish(x.f)
	return
}

// change alters the listings, names and marks of a federation.
func (c *collectFed) change() (did []string) {
	r := c.k.Rng
	for _, n := range c.f.Nodes {
		if fed.Chance(r, 0.1) {
			rotate(r, c.f, n)
			did = append(did, "keys of "+n.ID)
		}
		types := slices.Sorted(maps.Keys(n.Meta))
		for _, t := range types {
			m, ok := n.Meta[t].(map[string]any)
			if !ok || t == "custom_entity" {
				continue
			}
			if fed.Chance(r, 0.4) {
				m["display_name"] = fed.Pick(r, nameWords...) + fmt.Sprint(" ", r.Intn(9))
				did = append(did, "name of "+n.ID)
			}
			if fed.Chance(r, 0.2) {
				m["logo_uri"] = fmt.Sprint("http://logo.example/", r.Intn(99))
				did = append(did, "logo of "+n.ID)
			}
			if t == "openid_provider" && fed.Chance(r, 0.3) {
				m["scopes_supported"] = fed.Pick(r, []any{"openid"}, []any{"openid", "profile"}, []any{"openid", "email", "profile"})
				did = append(did, "scopes of "+n.ID)
			}
		}
		if n.Level == 9 && fed.Chance(r, 0.1) && len(n.Meta) > 1 {
			delete(n.Meta, types[r.Intn(len(types))])
			did = append(did, "types of "+n.ID)
		}
		if l := n.List; len(l) > 0 && fed.Chance(r, 0.3) {
			if fed.Chance(r, 0.5) {
				i := r.Intn(len(l))
				n.List = append(append([]string{}, l[:i]...), l[i+1:]...)
			} else {
				n.List = append(append([]string{}, l...), c.f.Nodes[r.Intn(len(c.f.Nodes))].ID)
			}
			did = append(did, "list of "+n.ID)
		}
		if fed.Chance(r, 0.2) {
			c.infos[n.ID] = []fed.MarkInfo{c.marks.New(n, fed.Pick(r, "", "", fed.MarkMutations[r.Intn(len(fed.MarkMutations))]))}
			c.marks.Publish(n, c.infos[n.ID])
			did = append(did, "marks of "+n.ID)
		}
	}
	republish(c.f)
	sort.Strings(did)
	return
}

// collectChange collects a federation again after it has changed.
func collectChange(k *rt.Case) {
	r := k.Rng
	c := genCollect(k, collectOpts(r))
	defer c.w.Close()
	col := &oidfed.SimpleEntityCollector{}
	for i := range 2 + r.Intn(2) {
		if i > 0 {
			did := c.change()
			k.Logf("changes %v", did)
			for _, d := range did {
				what, _, _ := strings.Cut(d, " of ")
				what, _, _ = strings.Cut(what, ":")
				k.Count("change: "+what, 1)
			}
		}
		want := c.reach(c.ta.ID, never)
		req := randRequest(k, c)
		t0 := time.Now()
		switch r.Intn(4) {
		case 0:
			got := oidfed.VerifiedChainsEntityCollector{}.CollectEntities(req)
			t1 := time.Now()
			c.compare(
				"VerifiedChains", got, want, req, func(id string) fed.Verdict {
					v, _ := c.validMeta(id, c.ta.ID, t0, t1)
					return v
				}, t0, t1, true,
			)
		case 1:
			got := (&oidfed.SimpleOPCollector{}).CollectEntities(req)
			req.EntityTypes = []string{"openid_provider"}
			c.compare("SimpleOPCollector", got, want, req, nil, t0, time.Now(), true)
		default:
			got := col.CollectEntities(req)
			c.compare("SimpleEntityCollector", got, want, req, nil, t0, time.Now(), true)
		}
	}
}

// constraintChange: the constraints of a line change.
func constraintChange(k *rt.Case) {
	r := k.Rng
	w := fed.NewWorld()
	defer w.Close()
	f := fed.NewFed(
		r, w, fed.Opts{
			TAs: 1, Mids: r.Intn(4), Leaves: 1, MaxHints: 1, ExtraTypes: true, MidTypes: true, PathIDs: fed.Chance(r, 0.3),
			LeafTypes: []string{"openid_provider", "openid_relying_party", "oauth_client"},
		},
	)
	line(f)
	for range 2 + r.Intn(3) {
		for i := 1; i < len(f.Nodes); i++ {
			s := f.Nodes[i-1].About[f.Nodes[i].ID]
			switch r.Intn(4) {
			case 0:
				delete(s.Claims, "constraints")
			case 1:
				f.ConstrainStmt(s, 1+r.Intn(7))
			}
		}
		republish(f)
		cc := &chainCase{k: k, f: f, start: f.Nodes[len(f.Nodes)-1].ID, anchors: []fed.Anchor{{ID: f.Nodes[0].ID}}}
		if fed.Chance(r, 0.3) {
			cc.types = []string{fed.Pick(r, "openid_provider", "openid_relying_party", "custom_entity")}
		}
		cc.run(r.Intn(len(entryNames)), true, true)
	}
}
