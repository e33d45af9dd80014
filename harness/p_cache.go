package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"maps"
	"math"
	"math/rand"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/cache"

	"github.com/go-oidfed/lib/verifharness/fed"
	"github.com/go-oidfed/lib/verifharness/rt"
)

func init() {
	register("C04", property{run: runC04})
	register("C05", property{run: runC05})
	register("C21", property{run: runC21})
	register("C22", property{run: runC22})
}

// minExp is the first expiry among tokens.
func minExp(ts []*fed.Token) float64 {
	e := math.Inf(1)
	for _, t := range ts {
		if f, ok := t.Num("exp"); ok && f < e {
			e = f
		}
	}
	return e
}

func runC04(c *rt.Ctx) {
	c.Rule = "Families: 'time' mutates validity times of random statements and compares with the reference resolver; 'ttl' resolves " +
		"federations whose statements have random lifetimes with a recording cache and requires of every cached value that it is " +
		"kept no longer than the first expiry among the statements in it; 'clock' moves the clock of the cache past the first " +
		"expiry and requires that nothing older is served; 'live' lets statements expire. Distinct by family, kinds of cached values " +
		"and shape."
	// before a cache is set: the default cache is monitored by real expiry
	c.RunParallel(
		"time", c.N(2500, 50000), func(k *rt.Case) {
			o := randOpts(k.Rng)
			cc := genChain(k, o, fed.TimeMutations, 1+k.Rng.Intn(3), 0)
			defer cc.f.W.Close()
			cc.run(k.Rng.Intn(len(entryNames)), true, true)
		},
	)
	live(c)
	mc := fed.NewMemCache()
	sw := &fed.Swap{}
	sw.Use(mc)
	cache.SetCache(sw)
	c.Run("ttl", c.N(1200, 15000), func(k *rt.Case) { ttlCase(k, sw) })
	c.Run("clock", c.N(500, 6000), func(k *rt.Case) { clockCase(k, sw) })
	c.Run("provider", c.N(300, 4000), func(k *rt.Case) { clockProvider(k, sw) })
}

// lifetimes gives every statement its own lifetime, at least apart seconds from the next.
func lifetimes(k *rt.Case, f *fed.Fed, apart int) {
	st := f.Stmts()
	p := k.Rng.Perm(len(st) + 3)
	for i, s := range st {
		s.Claims["exp"] = time.Now().Unix() + int64((p[i]+2)*apart)
		if fed.Chance(k.Rng, 0.1) {
			s.Claims["exp"] = float64(time.Now().Unix()+int64((p[i]+2)*apart)) + 0.5
		}
	}
}

// keyKind tells what is cached under a key.
func keyKind(key string) string {
	for _, x := range []string{cache.KeyEntityStatement, cache.KeyTrustTreeChains, cache.KeyTrustTree, cache.KeyTrustChainResolvedMetadata} {
		if strings.Contains(key, x) {
			return x
		}
	}
	return "other"
}

func ttlCase(k *rt.Case, sw *fed.Swap) {
	mc := fed.NewMemCache()
	sw.Use(mc)
	r := k.Rng
	w := fed.NewWorld()
	defer w.Close()
	o := randOpts(r)
	o.TAs = 1 + r.Intn(2)
	f := fed.NewFed(r, w, o)
	lifetimes(k, f, fed.Pick(r, 5, 60, 3000))
	if fed.Chance(r, 0.3) {
		for i := 0; i <= r.Intn(2); i++ {
			f.Mutate(fed.Mutations[r.Intn(len(fed.Mutations))])
		}
	}
	if fed.Chance(r, 0.3) {
		f.Mutate(fed.TimeMutations[r.Intn(len(fed.TimeMutations))])
	}
	f.Publish()
	cc := &chainCase{k: k, f: f, start: f.Nodes[len(f.Nodes)-1].ID, anchors: pickAnchors(r, f)}
	kinds := map[string]bool{}
	start := time.Now()
	check := func(t0 time.Time, evs []fed.SetEvent, extra []*fed.Token) {
		for _, e := range evs {
			kind := keyKind(e.Key)
			ts := fed.Statements(e.Data)
			if len(ts) == 0 {
				ts = extra
			} else {
				// may stem from a refresh in the background
				t0 = start
			}
			if len(ts) == 0 || !strings.HasSuffix(strings.TrimRight(ts[0].Str("iss"), "/"), w.Suffix) {
				// an id with a path or port, or a statement of another case that was refreshed in the background
				if len(ts) == 0 || !strings.Contains(ts[0].Str("iss")+"/", w.Suffix+"/") && !strings.Contains(ts[0].Str("iss"), w.Suffix+":") {
					continue
				}
			}
			kinds[kind] = true
			k.Count("set "+kind, 1)
			exp := minExp(ts)
			det := map[string]any{"kind": kind, "ttl": e.TTL.String(), "first expiry in": exp - float64(t0.UnixNano())/1e9}
			if e.TTL <= 0 {
				k.Violation("an expired or never expiring value is put into the cache", det)
			} else if !math.IsInf(exp, 1) && e.TTL.Seconds() > exp-float64(t0.UnixNano())/1e9+1e-3 {
				k.Violation("a value is cached for longer than the statements in it are valid", det)
			}
		}
	}
	t0 := time.Now()
	chains := cc.resolve(r.Intn(len(entryNames)))
	check(t0, mc.Events(), nil)
	for _, ch := range chains {
		before := len(mc.Events())
		t1 := time.Now()
		_, _ = ch.Metadata()
		var ts []*fed.Token
		for _, raw := range rawChain(ch) {
			if t, err := fed.Decode([]byte(raw)); err == nil {
				ts = append(ts, t)
			}
		}
		check(t1, mc.Events()[before:], ts)
	}
	var ks []string
	for x := range kinds {
		ks = append(ks, x)
	}
	sort.Strings(ks)
	k.Eval(fmt.Sprintf("ttl/%v/%d/%d/%s", ks, len(chains), len(f.Nodes), mutNames(f.Muts)))
}

// clockCase: once the first statement has expired (by the clock of the cache) chains must be built from what is served now.
func clockCase(k *rt.Case, sw *fed.Swap) {
	mc := fed.NewMemCache()
	sw.Use(mc)
	r := k.Rng
	w := fed.NewWorld()
	defer w.Close()
	f := fed.NewFed(r, w, fed.Opts{TAs: 1 + r.Intn(2), Mids: 1 + r.Intn(3), Leaves: 1, MaxHints: 2})
	lifetimes(k, f, 100)
	f.Publish()
	cc := &chainCase{k: k, f: f, start: f.Nodes[len(f.Nodes)-1].ID}
	for _, n := range f.Nodes {
		if n.Level == 0 {
			cc.anchors = append(cc.anchors, fed.Anchor{ID: n.ID})
		}
	}
	before := cc.resolve(r.Intn(len(entryNames)))
	if len(before) == 0 {
		k.Eval("")
		return
	}
	// pick one returned chain and a statement in it; everything is replaced, time passes until that statement is expired
	ch := before[r.Intn(len(before))]
	var ts []*fed.Token
	for _, raw := range rawChain(ch) {
		t, _ := fed.Decode([]byte(raw))
		ts = append(ts, t)
	}
	old := ts[r.Intn(len(ts))]
	e, _ := old.Num("exp")
	for _, s := range f.Stmts() {
		s.Claims["iat"] = time.Now().Unix() - 30
		s.Claims["exp"] = time.Now().Unix() + 100000
		s.Reset()
	}
	f.Publish()
	mc.Advance(time.Until(time.Unix(int64(e)+2, 0)))
	// the library must not serve the expired statement any more
	after := cc.resolve(r.Intn(len(entryNames)))
	k.Count("clock_chains", len(after))
	if len(after) == 0 {
		k.Violation("no chain after statements were renewed", map[string]any{"before": len(before)})
	}
	for _, x := range after {
		for _, raw := range rawChain(x) {
			if raw == old.Raw {
				k.Violation(
					"a statement is served from the cache after its expiry",
					map[string]any{"statement": old.Claims, "chain": idsOf(rawChain(x))},
				)
			}
		}
	}
	k.Eval(fmt.Sprintf("clock/%d/%d/%d", len(before), len(after), len(ts)))
}

// markStatements has every statement leave a trace in the metadata of a provider.
func markStatements(f *fed.Fed, gen string) {
	i := 0
	for _, n := range f.Nodes {
		if m, ok := n.Meta["openid_provider"].(map[string]any); ok {
			m["token_endpoint"] = "http://" + n.Host + "/token-" + gen + "-own."
		}
	}
	f.Rebuild()
	for _, n := range f.Nodes {
		for _, id := range slices.Sorted(maps.Keys(n.About)) {
			i++
			n.About[id].Claims["metadata_policy"] = map[string]any{
				"openid_provider": map[string]any{"contacts": map[string]any{"add": []any{fmt.Sprintf("%s-%d.", gen, i)}}},
			}
		}
	}
}

// mark is the trace of a statement.
func mark(s *fed.Stmt) string {
	if p, ok := s.Claims["metadata_policy"].(map[string]any); ok {
		return p["openid_provider"].(map[string]any)["contacts"].(map[string]any)["add"].([]any)[0].(string)
	}
	if m, ok := s.Claims["metadata"].(map[string]any); ok {
		if m, ok = m["openid_provider"].(map[string]any); ok {
			_, x, _ := strings.Cut(m["token_endpoint"].(string), "/token-")
			return x
		}
	}
	return ""
}

// providerUses are the ways to the metadata of a provider.
func providerUses(w *fed.World, id string, anchors []fed.Anchor) map[string]func() string {
	leaf := leafOf(w, anchors)
	req := apimodel.ResolveRequest{Subject: id, EntityTypes: []string{"openid_provider"}}
	for _, a := range anchors {
		req.TrustAnchor = append(req.TrustAnchor, a.ID)
	}
	collect := func(c interface {
		CollectEntities(apimodel.EntityCollectionRequest) []*oidfed.CollectedEntity
	}) func() string {
		return func() string {
			return string(canon(c.CollectEntities(apimodel.EntityCollectionRequest{TrustAnchor: anchors[0].ID, EntityTypes: []string{"openid_provider"}, Claims: []string{"entity_types", "ui_infos", "trust_chain"}})))
		}
	}
	return map[string]func() string{
		"relying party": func() string { s, _ := opUse(leaf, id); return s },
		"resolver": func() string {
			m, err := oidfed.LocalMetadataResolver{}.Resolve(req)
			return fmt.Sprint(string(canon(m)), err == nil)
		},
		"resolve response": func() string {
			m, err := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(req)
			return fmt.Sprint(string(canon(m.Metadata)), err == nil)
		},
		"collection": collect(oidfed.VerifiedChainsEntityCollector{}),
	}
}

// clockProvider: once a statement has expired (by the clock of the cache) it has no share in the metadata of a provider.
func clockProvider(k *rt.Case, sw *fed.Swap) {
	mc := fed.NewMemCache()
	sw.Use(mc)
	r := k.Rng
	w := fed.NewWorld()
	defer w.Close()
	f := fed.NewFed(r, w, fed.Opts{TAs: 1 + r.Intn(2), Mids: r.Intn(3), Leaves: 1, MaxHints: 2, LeafTypes: []string{"openid_provider"}})
	markStatements(f, "old")
	lifetimes(k, f, 100)
	f.Publish()
	var anchors []fed.Anchor
	for _, n := range f.Nodes {
		if n.Level == 0 {
			anchors = append(anchors, fed.Anchor{ID: n.ID})
		}
	}
	id := f.Nodes[len(f.Nodes)-1].ID
	uses := providerUses(w, id, anchors)
	before := map[string]string{}
	names := slices.Sorted(maps.Keys(uses))
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for _, n := range names {
		before[n] = uses[n]()
	}
	var seen []*fed.Stmt
	for _, s := range f.Stmts() {
		if m := mark(s); m != "" && strings.Contains(before["relying party"], m) {
			seen = append(seen, s)
		}
	}
	if len(seen) == 0 {
		k.Violation("a provider that is trusted is not found", map[string]any{"provider": id, "answer": before})
		return
	}
	old := seen[r.Intn(len(seen))]
	was, exp := mark(old), 0.0
	switch x := old.Claims["exp"].(type) {
	case int64:
		exp = float64(x)
	case float64:
		exp = x
	}
	markStatements(f, "new")
	for _, s := range f.Stmts() {
		s.Claims["iat"] = time.Now().Unix() - 30
		s.Claims["exp"] = time.Now().Unix() + 100000
		s.Reset()
	}
	f.Publish()
	mc.Advance(time.Until(time.Unix(int64(exp)+2, 0)))
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for _, n := range names {
		got := uses[n]()
		if strings.Contains(got, was) {
			k.Violation(
				"a statement has a share in the metadata of a provider after its expiry",
				map[string]any{"use": n, "statement": old.Claims, "before": before[n], "after": got},
			)
		}
		if n == "relying party" && !strings.Contains(got, "true true") {
			k.Violation("a provider that is trusted is not found", map[string]any{"provider": id, "answer": got})
		}
	}
	k.Count("provider_uses", len(names))
	k.Eval(fmt.Sprintf("provider/%d/%d/%v/%s", len(f.Nodes), len(seen), strings.HasSuffix(was, "own."), names[0]))
}

// live: statements that expire in real time, with the caches that come with the library.
func live(c *rt.Ctx) {
	n := c.N(120, 600)
	type item struct {
		k   *rt.Case
		cc  *chainCase
		was int
		bad map[string]bool
		// what the expired statement leaves in the metadata of a provider, and the ways to them
		mark string
		uses map[string]func() string
	}
	var mu sync.Mutex
	var items []*item
	base := time.Now().Unix()
	c.RunParallel(
		"live", n, func(k *rt.Case) {
			r := k.Rng
			w := fed.NewWorld()
			f := fed.NewFed(r, w, fed.Opts{TAs: 1 + r.Intn(2), Mids: r.Intn(4), Leaves: 1, MaxHints: 2, LeafTypes: []string{"openid_provider"}})
			markStatements(f, "live")
			st := f.Stmts()
			short := st[r.Intn(len(st))]
			short.Claims["exp"] = base + 8
			f.Publish()
			cc := &chainCase{k: k, f: f, start: f.Nodes[len(f.Nodes)-1].ID, anchors: []fed.Anchor{{ID: f.Nodes[0].ID}}}
			chains := cc.resolve(r.Intn(len(entryNames)))
			for _, ch := range chains {
				_, _ = ch.Metadata()
			}
			uses := providerUses(w, cc.start, cc.anchors)
			for _, n := range slices.Sorted(maps.Keys(uses)) {
				if u := uses[n](); mark(short) != "" && strings.Contains(u, mark(short)) {
					k.Count("live_provider_uses", 1)
				}
			}
			mu.Lock()
			items = append(items, &item{k, cc, len(chains), map[string]bool{string(short.Raw()): true}, mark(short), uses})
			mu.Unlock()
		},
	)
	if len(items) == 0 {
		return
	}
	time.Sleep(time.Until(time.Unix(base+9, 500e6)))
	var wg sync.WaitGroup
	for _, it := range items {
		wg.Add(1)
		go func() {
			defer wg.Done()
			after := it.cc.resolve(it.k.Rng.Intn(3))
			for _, ch := range after {
				for _, raw := range rawChain(ch) {
					if it.bad[raw] {
						it.k.Violation(
							"a chain with an expired statement is returned",
							map[string]any{"chain": idsOf(rawChain(ch)), "before": it.was},
						)
					}
				}
			}
			for _, n := range slices.Sorted(maps.Keys(it.uses)) {
				if u := it.uses[n](); it.mark != "" && strings.Contains(u, it.mark) {
					it.k.Violation(
						"a statement has a share in the metadata of a provider after its expiry", map[string]any{"use": n, "share": it.mark, "after": u},
					)
				}
			}
			it.k.Eval(fmt.Sprintf("live/%d/%d", it.was, len(after)))
			it.k.Count("live_chains_gone", it.was-len(after))
			it.cc.f.W.Close()
		}()
	}
	wg.Wait()
}

// outcome is everything a user can see of a resolution.
func outcome(cc *chainCase, entry int, types []string) map[string]string {
	save := cc.types
	cc.types = types
	defer func() { cc.types = save }()
	out := map[string]string{}
	for _, ch := range cc.resolve(entry) {
		raw := strings.Join(rawChain(ch), "\n")
		m, err := ch.Metadata()
		s := ""
		if err != nil {
			s = "error"
		} else {
			s = string(canon(m))
		}
		for _, st := range ch {
			s += "\n" + string(canon(st.EntityStatementPayload))
			s += fmt.Sprintf(" time valid %v", st.TimeValid())
		}
		s += fmt.Sprintf(" path %d exp %d", ch.PathLen(), ch.ExpiresAt().Unix())
		out[raw] = s
	}
	return out
}

// canon is the json form with sorted keys.
func canon(v any) []byte {
	d, err := json.Marshal(v)
	if err != nil {
		return []byte("marshal error " + err.Error())
	}
	var x any
	if err = json.Unmarshal(d, &x); err != nil {
		return []byte("unmarshal error " + err.Error())
	}
	sortKeySets(x)
	return fed.MustJSON(x)
}

// sortKeySets orders arrays that are sets of JWKs (the order of a set is not significant).
func sortKeySets(v any) {
	switch t := v.(type) {
	case map[string]any:
		for n, x := range t {
			if l, ok := x.([]any); ok && n == "keys" {
				sort.Slice(l, func(i, j int) bool { return string(fed.MustJSON(l[i])) < string(fed.MustJSON(l[j])) })
			}
			sortKeySets(x)
		}
	case []any:
		for _, x := range t {
			sortKeySets(x)
		}
	}
}

func diff(a, b map[string]string) string {
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			return "chain missing: " + idsOf(strings.Split(k, "\n"))
		}
		if v != w {
			return "chain differs: " + idsOf(strings.Split(k, "\n")) + firstDiff(v, w)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return "additional chain: " + idsOf(strings.Split(k, "\n"))
		}
	}
	return ""
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 60
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf(" (%q instead of %q)", cut(b), cut(a))
}

// richPayload decorates statements with all the claims that have to survive a cache.
func richPayload(k *rt.Case, f *fed.Fed) {
	r := k.Rng
	for _, n := range f.Nodes {
		if n.Level == 9 {
			for t, m := range n.Meta {
				mm, _ := m.(map[string]any)
				if t == "custom_entity" || mm == nil {
					continue
				}
				if fed.Chance(r, 0.5) {
					mm["scope"] = "openid email"
				}
				if fed.Chance(r, 0.5) {
					mm["contacts"] = []any{"a@" + n.Host, "b@" + n.Host, "c@" + n.Host}
				}
				if fed.Chance(r, 0.3) {
					mm["x_custom"] = map[string]any{"a": []any{1.5, "x", nil, true}}
				}
				if fed.Chance(r, 0.3) {
					mm["jwks"] = fed.JWKS(n.Keys...)
				}
				if fed.Chance(r, 0.3) {
					mm["logo_uri"] = ""
				}
				if fed.Chance(r, 0.3) && t == "openid_provider" {
					mm["request_parameter_supported"] = fed.Pick(r, true, false)
					mm["require_request_uri_registration"] = false
				}
				if fed.Chance(r, 0.3) && t == "openid_relying_party" {
					mm["default_max_age"] = r.Intn(1000)
					mm["require_auth_time"] = fed.Pick(r, true, false)
				}
			}
			if fed.Chance(r, 0.4) {
				n.EC.Claims["trust_marks"] = []any{
					map[string]any{"trust_mark_type": "http://tm/" + n.Host, "trust_mark": "a.b.c"},
				}
			}
		} else {
			if fed.Chance(r, 0.3) {
				n.EC.Claims["trust_mark_issuers"] = map[string]any{"http://tm": []any{n.ID}, "http://tm2": []any{}}
			}
			if fed.Chance(r, 0.3) {
				n.EC.Claims["trust_mark_owners"] = map[string]any{
					"http://tm": map[string]any{"sub": n.ID, "jwks": fed.JWKS(n.Keys...)},
				}
			}
		}
		for _, x := range f.Nodes {
			s := n.About[x.ID]
			if s == nil {
				continue
			}
			if fed.Chance(r, 0.6) {
				s.Claims["metadata_policy"] = simplePolicy(k)
			}
			if fed.Chance(r, 0.1) {
				s.Claims["metadata_policy_crit"] = []any{fed.Pick(r, "regexp", "value", "x_unknown")}
			}
			if fed.Chance(r, 0.2) {
				s.Claims["constraints"] = map[string]any{
					"max_path_length": 1 + r.Intn(3), "naming_constraints": map[string]any{"permitted": []any{"." + f.W.Suffix}},
				}
			}
			if fed.Chance(r, 0.2) {
				s.Claims["x_extra"] = map[string]any{"n": 1.25, "l": []any{"a", "b"}}
			}
		}
		if fed.Chance(r, 0.2) {
			n.EC.Claims["x_extra"] = []any{"a", map[string]any{"b": false}}
		}
	}
}

// simplePolicy makes a policy of plausible operators.
func simplePolicy(k *rt.Case) map[string]any {
	r := k.Rng
	p := map[string]any{}
	for _, t := range []string{"openid_provider", "openid_relying_party"} {
		if fed.Chance(r, 0.3) {
			continue
		}
		e := map[string]any{}
		if fed.Chance(r, 0.4) {
			e["contacts"] = map[string]any{"add": []any{fmt.Sprintf("add%d@x", r.Intn(4))}}
		}
		if fed.Chance(r, 0.4) {
			e["organization_name"] = map[string]any{fed.Pick(r, "value", "default"): fmt.Sprintf("org %d", r.Intn(2))}
		}
		if fed.Chance(r, 0.3) {
			e["grant_types"] = map[string]any{
				"subset_of": []any{"authorization_code", "implicit"}, "default": []any{"authorization_code"},
			}
		}
		if fed.Chance(r, 0.2) {
			e["client_name"] = map[string]any{"essential": true}
		}
		if fed.Chance(r, 0.2) {
			e["logo_uri"] = map[string]any{"value": nil}
		}
		if fed.Chance(r, 0.2) {
			e["policy_uri"] = map[string]any{"essential": fed.Chance(r, 0.3)}
		}
		p[t] = e
	}
	return p
}

func runC05(c *rt.Ctx) {
	c.Rule = "A random federation with rich metadata, policies and constraints is resolved by a random sequence of calls (entry points, " +
		"entity type filters, anchors without pins, with right and with wrong pins) with a shared cache; every result (chains as signed, " +
		"parsed statements, resolved metadata) is compared with that of the same call without a cache, which is itself compared " +
		"with the reference resolver. Non-trivial: at least one cache hit; distinct by call sequence and number of chains."
	sw := &fed.Swap{}
	cache.SetCache(sw)
	c.Run("sequence", c.N(900, 15000), func(k *rt.Case) { cacheSequence(k, sw) })
	c.Run("faulty", c.N(250, 4000), func(k *rt.Case) { cacheFaults(k, sw) })
	c.Run("collect", c.N(250, 4000), func(k *rt.Case) { cacheCollect(k, sw) })
	c.Run("wrapper", c.N(300, 4000), func(k *rt.Case) { cacheMutateResults(k, sw) })
}

// leafOf makes a relying party with these trust anchors.
func leafOf(w *fed.World, anchors []fed.Anchor) *oidfed.FederationLeaf {
	fk := fed.NewKey("ES256", "")
	leaf, err := oidfed.NewFederationLeaf(
		"http://client."+w.Suffix, nil, toAnchors(anchors), nil, oidfed.NewEntityStatementSigner(fk.Priv, alg("ES256")), 0, fk.Priv, alg("ES256"), nil,
	)
	if err != nil {
		panic(err)
	}
	return leaf
}

// opUse is what a relying party sees of a provider.
func opUse(leaf *oidfed.FederationLeaf, op string) (string, bool) {
	om, err := leaf.ResolveOPMetadata(op)
	au, auErr := leaf.GetAuthorizationURL(op, leaf.EntityID+"/cb", "s", "openid", nil)
	// the request object differs each time
	au, _, _ = strings.Cut(au, "?")
	s := fmt.Sprintf("%v %v %s", err == nil, auErr == nil, au)
	if err == nil {
		s += string(canon(om))
	}
	return s, err == nil
}

func cacheSequence(k *rt.Case, sw *fed.Swap) {
	r := k.Rng
	w := fed.NewWorld()
	defer w.Close()
	o := randOpts(r)
	o.ExtraTypes = true
	f := fed.NewFed(r, w, o)
	richPayload(k, f)
	if fed.Chance(r, 0.5) {
		for i := 0; i <= r.Intn(3); i++ {
			f.Mutate(allMutations[r.Intn(len(allMutations))])
		}
	}
	f.Publish()
	mc := fed.NewMemCache()
	n := 3 + r.Intn(4)
	starts := []string{f.Nodes[len(f.Nodes)-1].ID, f.Nodes[len(f.Nodes)-1].ID, f.Nodes[r.Intn(len(f.Nodes))].ID}
	anch := [][]fed.Anchor{pickAnchors(r, f), pickAnchors(r, f)}
	v := append([]fed.Anchor(nil), anch[0]...)
	for i := range v {
		v[i].JWKS = fed.Pick(r, nil, generic(fed.JWKS(f.Nodes[r.Intn(len(f.Nodes))].Keys...)))
	}
	anch = append(anch, v)
	if fed.Chance(r, 0.5) {
		// almost the same requests
		starts = append(starts, fed.ToggleSlash(starts[0]), fed.ToggleSlash(starts[0]), fed.ToggleSlash(starts[2]), strings.ToUpper(starts[0]))
		rev := append([]fed.Anchor(nil), anch[0]...)
		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		sl := append([]fed.Anchor(nil), anch[0]...)
		i := r.Intn(len(sl))
		sl[i].ID = fed.ToggleSlash(sl[i].ID)
		anch = append(anch, rev, anch[0][:1+r.Intn(len(anch[0]))], sl)
	}
	typs := [][]string{nil, {"openid_provider"}, {"openid_relying_party", "custom_entity"}, {"openid_provider", "openid_relying_party"},
		{"openid_relying_party", "openid_provider"}, {"openid_provider openid_relying_party"}, {"openid"}}
	seq := ""
	total := 0
	for i := 0; i < n; i++ {
		cc := &chainCase{k: k, f: f, start: fed.Pick(r, starts...), anchors: anch[r.Intn(len(anch))]}
		ty := typs[r.Intn(len(typs))]
		e := r.Intn(len(entryNames))
		sw.Use(fed.NoCache{})
		m := &fed.Model{W: w, Anchors: cc.anchors, Types: ty, T0: time.Now()}
		plain := outcome(cc, e, ty)
		sw.Use(mc)
		cached := outcome(cc, e, ty)
		if fed.Chance(r, 0.4) {
			// what a relying party with these anchors makes of it
			leaf := leafOf(w, cc.anchors)
			sw.Use(fed.NoCache{})
			want, _ := opUse(leaf, cc.start)
			sw.Use(mc)
			if got, ok := opUse(leaf, cc.start); got != want {
				k.Violation(
					"the metadata of a provider with a cache differ from those without",
					map[string]any{"step": i, "start": cc.start, "anchors": anchorIDs(cc.anchors), "with": got, "without": want},
				)
				return
			} else if ok {
				k.Count("provider_metadata", 1)
			}
		}
		k.Logf("%s start %s anchors %v types %v: %d chains", entryNames[e], cc.start, anchorIDs(cc.anchors), ty, len(plain))
		det := map[string]any{
			"step": i, "entry": entryNames[e], "start": cc.start, "anchors": anchorIDs(cc.anchors), "types": ty, "mutations": f.Muts,
		}
		if d := diff(plain, cached); d != "" {
			det["difference"] = d
			k.Violation("the result with a cache differs from the result without", det)
			return
		}
		m.T1 = time.Now()
		for _, x := range m.Chains(cc.start) {
			if _, ok := cached[x.Key()]; !ok && x.V == fed.Yes && e != 1 {
				det["chain"] = idsOf(x.Raw)
				k.Violation("a valid chain is not found", det)
			}
		}
		total += len(plain)
		seq += fmt.Sprint(e)
	}
	hits := mc.HitCount("")
	k.Count("cache_hits", hits)
	for _, x := range []string{cache.KeyEntityStatement, cache.KeyTrustTree, cache.KeyTrustTreeChains, cache.KeyTrustChainResolvedMetadata} {
		k.Count("hits "+x, mc.Hits[x])
	}
	key := fmt.Sprintf("seq/%s/%d", seq, total)
	if hits == 0 {
		key = ""
	}
	k.Eval(key)
	k.Sample(map[string]any{"case": k.Name, "calls": seq, "chains": total, "hits": mc.Hits})
}

var errInjected = errors.New("injected cache fault")

// cacheFaults: a cache that fails or returns cut or undecodable entries changes nothing.
func cacheFaults(k *rt.Case, sw *fed.Swap) {
	r := k.Rng
	w := fed.NewWorld()
	defer w.Close()
	f := fed.NewFed(r, w, randOpts(r))
	richPayload(k, f)
	f.Publish()
	mc := fed.NewMemCache()
	pg, ps := r.Float64(), r.Float64()
	n := 0
	var mu sync.Mutex
	chance := func(p float64) error {
		mu.Lock()
		defer mu.Unlock()
		if r.Float64() < p {
			n++
			return errInjected
		}
		return nil
	}
	mc.FailGet = func(string) error { return chance(pg) }
	mc.FailSet = func(string) error { return chance(ps) }
	if fed.Chance(r, 0.5) {
		// entries that do not decode: cut at a random point, or with an invalid first byte
		pc := fed.Pick(r, 0.2, 0.6, 1)
		if fed.Chance(r, 0.7) {
			pg, ps = 0.05, 0.05
		}
		mc.Corrupt = func(_ string, d []byte) []byte {
			mu.Lock()
			defer mu.Unlock()
			if len(d) == 0 || r.Float64() >= pc {
				return d
			}
			n++
			if r.Intn(4) == 0 {
				return append([]byte{0xc1}, d...)
			}
			return append([]byte(nil), d[:r.Intn(len(d))]...)
		}
	}
	cc := &chainCase{k: k, f: f, start: f.Nodes[len(f.Nodes)-1].ID, anchors: pickAnchors(r, f)}
	e := r.Intn(len(entryNames))
	sw.Use(fed.NoCache{})
	plain := outcome(cc, e, nil)
	fk := fed.NewKey("ES256", "")
	leaf, err := oidfed.NewFederationLeaf(
		"http://client."+w.Suffix, []string{f.Nodes[0].ID}, toAnchors(cc.anchors), nil,
		oidfed.NewEntityStatementSigner(fk.Priv, alg("ES256")), 0, fk.Priv, alg("ES256"), nil,
	)
	if err != nil {
		panic(err)
	}
	om, omErr := leaf.ResolveOPMetadata(cc.start)
	sw.Use(mc)
	for i := 0; i < 3; i++ {
		if d := diff(plain, outcome(cc, e, nil)); d != "" {
			k.Violation("the result with a failing cache differs from the result without", map[string]any{"difference": d})
			return
		}
		om2, err2 := leaf.ResolveOPMetadata(cc.start)
		if (omErr == nil) != (err2 == nil) || omErr == nil && string(canon(om)) != string(canon(om2)) {
			k.Violation(
				"the OP metadata with a failing cache differ from those without",
				map[string]any{"without": fmt.Sprint(string(canon(om)), omErr), "with": fmt.Sprint(string(canon(om2)), err2)},
			)
		}
	}
	mu.Lock()
	k.Count("cache_faults", n)
	k.Eval(fmt.Sprintf("faults/%d/%d/%d", e, len(plain), n/5))
	mu.Unlock()
}

// cacheCollect: collections of entities do not depend on the cache, be it working, failing or corrupt.
func cacheCollect(k *rt.Case, sw *fed.Swap) {
	r := k.Rng
	c := genCollect(k, collectOpts(r))
	defer c.w.Close()
	var cols []interface {
		CollectEntities(apimodel.EntityCollectionRequest) []*oidfed.CollectedEntity
	}
	var reqs []apimodel.EntityCollectionRequest
	for i := 0; i < 2; i++ {
		reqs = append(reqs, randRequest(k, c))
	}
	cols = append(cols, &oidfed.SimpleEntityCollector{}, oidfed.VerifiedChainsEntityCollector{}, &oidfed.SimpleOPCollector{})
	mc := fed.NewMemCache()
	var mu sync.Mutex
	n := 0
	fault := fed.Pick(r, "", "", "get", "set", "corrupt")
	chance := func(on bool) bool {
		mu.Lock()
		defer mu.Unlock()
		if on && r.Intn(2) == 0 {
			n++
			return true
		}
		return false
	}
	mc.FailGet = func(string) error {
		if chance(fault == "get") {
			return errInjected
		}
		return nil
	}
	mc.FailSet = func(string) error {
		if chance(fault == "set") {
			return errInjected
		}
		return nil
	}
	mc.Corrupt = func(_ string, d []byte) []byte {
		if chance(fault == "corrupt") && len(d) > 0 {
			return append([]byte(nil), d[:len(d)/2]...)
		}
		return d
	}
	total := 0
	for i, req := range reqs {
		for _, col := range cols {
			sw.Use(fed.NoCache{})
			want := collected(col.CollectEntities(req))
			sw.Use(mc)
			for l := 0; l < 2; l++ {
				got := collected(col.CollectEntities(req))
				if got != want {
					k.Violation(
						"the entities collected with a cache differ from those collected without",
						map[string]any{"collector": fmt.Sprintf("%T", col), "request": i, "fault": fault, "difference": firstDiff(want, got)},
					)
					return
				}
			}
			total += strings.Count(want, "\n")
		}
	}
	hits := mc.HitCount("")
	k.Count("collection cache hits", hits)
	k.Eval(fmt.Sprintf("collect/%s/%d/%d", fault, total, hits/10))
}

// collected is a canonical form of a collection.
func collected(l []*oidfed.CollectedEntity) string {
	var s []string
	for _, e := range l {
		s = append(s, string(canon(e))+"\n")
	}
	sort.Strings(s)
	return strings.Join(s, "")
}

// cacheMutateResults: what a caller does to results does not show in later results.
func cacheMutateResults(k *rt.Case, sw *fed.Swap) {
	r := k.Rng
	w := fed.NewWorld()
	defer w.Close()
	f := fed.NewFed(r, w, randOpts(r))
	richPayload(k, f)
	f.Publish()
	sw.Use(fed.NewMemCache())
	cc := &chainCase{k: k, f: f, start: f.Nodes[len(f.Nodes)-1].ID, anchors: pickAnchors(r, f)}
	first := outcome(cc, 0, nil)
	for i := 0; i < 2; i++ {
		for _, ch := range cc.resolve(0) {
			m, err := ch.Metadata()
			if err == nil && m != nil {
				scramble(m)
			}
			for _, s := range ch {
				s.Issuer = "http://scrambled"
				s.AuthorityHints = nil
				s.MetadataPolicy = nil
				s.ExpiresAt.Time = time.Now().Add(1000 * time.Hour)
				if s.Metadata != nil {
					scramble(s.Metadata)
				}
			}
		}
	}
	if d := diff(first, outcome(cc, 0, nil)); d != "" {
		k.Violation("changes a caller made to a result show up in later results", map[string]any{"difference": d})
	}
	req := apimodel.ResolveRequest{Subject: cc.start}
	for _, a := range cc.anchors {
		req.TrustAnchor = append(req.TrustAnchor, a.ID)
	}
	a, err := oidfed.LocalMetadataResolver{}.Resolve(req)
	if err == nil && a != nil {
		before := string(canon(a))
		scramble(a)
		b, err2 := oidfed.LocalMetadataResolver{}.Resolve(req)
		if err2 != nil || string(canon(b)) != before {
			k.Violation(
				"changes a caller made to resolved metadata show up in later results",
				map[string]any{"before": before, "after": string(canon(b)), "err": fmt.Sprint(err2)},
			)
		}
	}
	k.Eval(fmt.Sprintf("scramble/%d/%v", len(first), err == nil))
}

func scramble(m *oidfed.Metadata) {
	if p := m.OpenIDProvider; p != nil {
		p.Issuer = "scrambled"
		for i := range p.ScopesSupported {
			p.ScopesSupported[i] = "scrambled"
		}
		for i := range p.Contacts {
			p.Contacts[i] = "scrambled"
		}
		p.GrantTypesSupported = append(p.GrantTypesSupported, "scrambled")
	}
	if p := m.RelyingParty; p != nil {
		p.ClientName = "scrambled"
		for i := range p.Contacts {
			p.Contacts[i] = "scrambled"
		}
		for i := range p.RedirectURIS {
			p.RedirectURIS[i] = "scrambled"
		}
	}
	for n := range m.Extra {
		m.Extra[n] = "scrambled"
	}
}

func runC21(c *rt.Ctx) {
	c.Rule = "Entity configurations and fetched statements with random lifetimes and ages are requested repeatedly under random grace " +
		"settings; the requests the server sees are compared with what the documented cache and grace rules allow. Distinct by " +
		"age, remaining lifetime and settings class."
	gp, gf := oidfed.ResolverCacheGracePeriod, oidfed.ResolverCacheLifetimeElapsedGraceFactor
	defer func() { oidfed.ResolverCacheGracePeriod, oidfed.ResolverCacheLifetimeElapsedGraceFactor = gp, gf }()
	sw := &fed.Swap{}
	cache.SetCache(sw)
	for round := 0; round < c.N(6, 40); round++ {
		name := fmt.Sprintf("settings#%d", round)
		r := c.Rng(name)
		oidfed.ResolverCacheGracePeriod = fed.Pick(r, time.Hour, 10*time.Minute, 0, 24*time.Hour)
		oidfed.ResolverCacheLifetimeElapsedGraceFactor = fed.Pick(r, 0.5, 0.75, 0.2, 0.9)
		if round == 0 {
			oidfed.ResolverCacheGracePeriod, oidfed.ResolverCacheLifetimeElapsedGraceFactor = gp, gf
		}
		sw.Use(fed.NewMemCache())
		c.RunParallel(fmt.Sprintf("grace%d", round), c.N(60, 200), graceCase)
		time.Sleep(300 * time.Millisecond) // background refreshes of this round end before the settings change
	}
}

func graceCase(k *rt.Case) {
	r := k.Rng
	w := fed.NewWorld()
	defer w.Close()
	key := fed.NewKey("ES256", "k")
	id := "http://e." + w.Suffix
	sub := "http://s." + w.Suffix
	total := time.Duration(fed.Pick(r, 100, 1000, 7200, 36000, 100000)) * time.Second
	frac := fed.Pick(r, 0.02, 0.1, 0.35, 0.6, 0.8, 0.97)
	if total == 100*time.Second && frac > 0.6 {
		frac = 0.7 // nothing expires because the machine is slow
	}
	elapsed := time.Duration(float64(total) * frac)
	now := time.Now()
	version := 0
	fetch := fed.Chance(r, 0.5)
	var mu sync.Mutex
	n := 0
	failing := ""
	handler := func(fed.Req) *fed.Resp {
		mu.Lock()
		defer mu.Unlock()
		n++
		switch failing {
		case "500":
			return &fed.Resp{Status: 500, Type: "application/json", Body: []byte(`{"error":"server_error"}`)}
		case "garbage":
			return &fed.Resp{Type: "application/entity-statement+jwt", Body: []byte("eyJhbGciOiJub25lIn0.e30.")}
		case "empty":
			return &fed.Resp{Body: []byte{}}
		case "drop":
			return &fed.Resp{Drop: true}
		}
		cl := map[string]any{
			"iss": id, "sub": id, "jwks": fed.JWKS(key), "version": version,
			"iat": now.Add(-elapsed).Unix(), "exp": now.Add(total - elapsed).Unix(),
		}
		if fetch {
			cl["sub"] = sub
		}
		if version > 0 {
			cl["iat"], cl["exp"] = now.Unix()-1, now.Add(1000*time.Hour).Unix()
		}
		switch failing {
		case "expired":
			cl["iat"], cl["exp"], cl["version"] = now.Unix()-1000, now.Unix()-100, 7
		case "other":
			cl["iss"], cl["sub"], cl["version"] = "http://other."+w.Suffix, "http://other."+w.Suffix, 7
		}
		return &fed.Resp{Type: "application/entity-statement+jwt", Body: fed.Sign(key, map[string]any{"typ": fed.TypStatement}, cl)}
	}
	w.Handle(fed.ECURL(id), handler)
	w.Handle(id+"/fetch", handler)
	get := func() (float64, error) {
		var s *oidfed.EntityStatement
		var err error
		if fetch {
			s, err = oidfed.FetchEntityStatement(id+"/fetch", sub, id)
		} else {
			s, err = oidfed.GetEntityConfiguration(id)
		}
		if err != nil {
			return -1, err
		}
		v, _ := s.Extra["version"].(float64)
		return v, nil
	}
	count := func() int {
		mu.Lock()
		defer mu.Unlock()
		return n
	}
	if _, err := get(); err != nil {
		k.Violation("a statement is not obtained", map[string]any{"err": err.Error()})
		return
	}
	if count() != 1 {
		k.Violation("a statement is requested more than once", map[string]any{"n": count()})
	}
	set := func(v int, f string) {
		mu.Lock()
		defer mu.Unlock()
		version, failing = v, f
	}
	fail := fed.Pick(r, "", "", "500", "garbage", "empty", "drop", "expired", "other")
	set(1, fail)
	v, err := get()
	if err != nil || v != 0 {
		k.Violation("a cached statement that has not expired is not used", map[string]any{"version": v, "err": fmt.Sprint(err)})
	}
	// the settings are documented: refresh in the background if it expires within the grace period and more than the given
	// share of the lifetime has elapsed
	gp, gf := oidfed.ResolverCacheGracePeriod, oidfed.ResolverCacheLifetimeElapsedGraceFactor
	remaining := total - elapsed
	margin := 30 * time.Second
	share := float64(elapsed) / float64(total)
	must := remaining < gp-margin && share > gf+0.05
	mustNot := remaining > gp+margin || share < gf-0.05
	det := map[string]any{
		"lifetime": total.String(), "elapsed": elapsed.String(), "grace period": gp.String(), "factor": gf, "requests": count(),
	}
	switch {
	case must:
		deadline := time.Now().Add(30 * time.Second)
		for count() < 2 && time.Now().Before(deadline) {
			time.Sleep(5 * time.Millisecond)
		}
		if count() < 2 {
			k.Violation("a statement in its grace period is not refreshed", det)
			break
		}
		if fail != "" {
			// while refreshing fails the statement that has not expired is used
			for i := 0; i < 6; i++ {
				time.Sleep(time.Duration(1+r.Intn(8)) * time.Millisecond)
				if v, err = get(); err != nil || v != 0 {
					det["refreshing fails"], det["version"], det["err"] = fail, v, fmt.Sprint(err)
					k.Violation("a cached statement that has not expired is lost because refreshing it fails", det)
					return
				}
			}
			k.Count("refresh_failed_"+fail, 1)
			set(1, "")
		}
		for v != 1 && time.Now().Before(deadline) {
			time.Sleep(5 * time.Millisecond)
			v, err = get()
		}
		if v != 1 || err != nil {
			k.Violation("a refreshed statement is not used", det)
		}
		k.Count("refreshed", 1)
	case mustNot:
		time.Sleep(150 * time.Millisecond)
		if count() != 1 {
			det["requests"] = count()
			k.Violation("a statement outside its grace period is refreshed", det)
		}
		k.Count("not_refreshed", 1)
	}
	k.Eval(fmt.Sprintf("grace/%v/%v/%v/%v/%v/%v/%v", total, frac, gp, gf, fetch, must, fail))
}

func runC22(c *rt.Ctx) {
	c.Rule = "A federation is resolved while an injector makes random requests fail (errors of several kinds, truncated or dropped or " +
		"redirected responses, delays); the result must contain only valid chains; once the faults end, a new resolution must find " +
		"exactly the valid chains. Likewise the entities of a federation are collected while requests fail: nothing is collected that is not " +
		"listed, and once the faults end the collection is the same as without a cache. Distinct by kinds of faults that were hit and results."
	sw := &fed.Swap{}
	cache.SetCache(sw)
	sw.Use(fed.NoCache{})
	c.RunWide("stall", c.N(12, 60), 12, stallCase)
	sw.Use(fed.NewMemCache())
	c.RunParallel("faults", c.N(400, 8000), faultCase)
	c.RunParallel("outage", c.N(300, 6000), outageCase)
	sw.Use(fed.NoCache{})
	c.RunParallel("outage uncached", c.N(150, 3000), outageCase)
	sw.Use(fed.NewMemCache())
	c.Run("collect", c.N(500, 6000), func(k *rt.Case) { faultCollect(k, sw) })
	c.Run(
		"cookies", 1, func(k *rt.Case) {
			n := atomic.LoadInt64(&fed.Net.Cookies)
			if n > 0 {
				k.Violation("requests depend on what a server said in response to earlier ones", map[string]any{"requests with a cookie": n})
			}
			k.Eval("cookies")
		},
	)
}

// injectFaults makes requests to a federation fail; the returned function counts the kinds of faults that were hit.
func injectFaults(r *rand.Rand, f *fed.Fed, p float64, forge bool) func(k *rt.Case) []string {
	var mu sync.Mutex
	hit := map[string]int{}
	evil := fed.NewKey("ES256", "evil")
	// the sequence is its own, because requests may be concurrent
	r = rand.New(rand.NewSource(r.Int63()))
	f.W.SetFault(
		func(q fed.Req) *fed.Resp {
			mu.Lock()
			defer mu.Unlock()
			if r.Float64() > p {
				return nil
			}
			kind := fed.Pick(r, "503", "500json", "404", "html", "empty", "truncate", "delay", "garbage", "drop", "cut", "redirect-loop", "429", "other")
			if forge {
				kind = fed.Pick(r, kind, "forged", "near")
			}
			hit[kind]++
			switch kind {
			case "503":
				return &fed.Resp{Status: 503, Type: "text/plain", Body: []byte("unavailable")}
			case "429":
				return &fed.Resp{Status: 429, Type: "application/json", Body: []byte(`{"error":"temporarily_unavailable"}`)}
			case "500json":
				return &fed.Resp{Status: 500, Type: "application/json", Body: []byte(`{"error":"server_error"}`)}
			case "404":
				return &fed.Resp{Status: 404, Type: "application/json", Body: []byte(`{"error":"not_found"}`)}
			case "html":
				return &fed.Resp{Status: 200, Type: "text/html", Body: []byte("<html>login</html>")}
			case "empty":
				return &fed.Resp{Status: 200, Body: []byte{}}
			case "drop":
				return &fed.Resp{Drop: true}
			case "cut":
				return &fed.Resp{Status: 200, Type: "application/entity-statement+jwt", Body: []byte("eyJhbGciOiJub25lIn0.e30."), Truncate: true}
			case "truncate":
				ep, _ := q.Endpoint()
				b := f.W.Get(ep, q.Query.Get("sub"))
				if b == nil || len(b.Body) < 2 {
					return nil
				}
				return &fed.Resp{Status: 200, Type: b.Type, Body: b.Body[:len(b.Body)/2]}
			case "delay":
				return &fed.Resp{Delay: time.Duration(r.Intn(5)) * time.Millisecond}
			case "garbage":
				return &fed.Resp{Status: 200, Type: "application/entity-statement+jwt", Body: []byte("eyJhbGciOiJub25lIn0.e30.")}
			case "redirect-loop":
				return &fed.Resp{Status: 302, Location: "http://" + q.Host + q.Path + "?" + q.Query.Encode(), Body: []byte("moved")}
			case "other":
				// what belongs to another entity
				n := f.Nodes[r.Intn(len(f.Nodes))]
				b := f.W.Get(fed.ECURL(n.ID), "")
				if subs := slices.Sorted(maps.Keys(n.About)); len(subs) > 0 && fed.Chance(r, 0.5) {
					b = f.W.Get(n.Fetch(), subs[r.Intn(len(subs))])
				}
				return b
			case "near":
				// the right statement, but of or about somebody with a similar name
				ep, _ := q.Endpoint()
				b := f.W.Get(ep, q.Query.Get("sub"))
				if b == nil {
					return nil
				}
				t, err := fed.Decode(b.Body)
				if err != nil || t.Str("iss") == "" || t.Str("sub") == "" {
					return nil
				}
				cl := maps.Clone(t.Claims)
				at := fed.Pick(r, "iss", "sub")
				cl[at] = fed.Pick(r, t.Str(at)+"/", t.Str(at)+"x", strings.TrimSuffix(t.Str(at), t.Str(at)[len(t.Str(at))-1:]), strings.ToUpper(t.Str(at)), t.Str(at)+"/../")
				if at == "iss" && t.Str("iss") == t.Str("sub") && fed.Chance(r, 0.5) {
					cl["sub"] = cl["iss"]
				}
				return &fed.Resp{Type: b.Type, Body: fed.Sign(evil, map[string]any{"typ": fed.TypStatement}, cl)}
			case "forged":
				iss := "http://" + q.Host
				sub := q.Query.Get("sub")
				if sub == "" {
					sub = iss
				}
				return &fed.Resp{
					Status: 200, Type: "application/entity-statement+jwt", Body: fed.Sign(
						evil, map[string]any{"typ": fed.TypStatement}, map[string]any{
							"iss": iss, "sub": sub, "iat": time.Now().Unix() - 10, "exp": time.Now().Unix() - 5,
							"jwks": fed.JWKS(evil),
						},
					),
				}
			}
			return nil
		},
	)
	return func(k *rt.Case) (kinds []string) {
		mu.Lock()
		defer mu.Unlock()
		for x, c := range hit {
			kinds = append(kinds, x)
			k.Count("fault "+x, c)
		}
		sort.Strings(kinds)
		return
	}
}

// stallCase: a server that does not answer, or does not come to an end, counts as one that fails.
func stallCase(k *rt.Case) {
	r := k.Rng
	var w *fed.World
	var nodes []*fed.Node
	var ask func() string
	what := fed.Pick(r, "chains", "chains", "chains", "collection", "collection", "token")
	if what == "token" {
		stallToken(k)
		return
	}
	if what == "chains" {
		cc := genChain(k, fed.Opts{TAs: 1, Mids: 1 + r.Intn(3), Leaves: 1, MaxHints: 2}, fed.Mutations, 0, 0)
		w, nodes = cc.f.W, cc.f.Nodes
		ask = func() string {
			return strings.Join(slices.Sorted(maps.Keys(chainKeys(cc.resolve(0)))), "\n\n")
		}
	} else {
		c := genCollect(k, fed.Opts{TAs: 1, Mids: 1 + r.Intn(3), Leaves: 1 + r.Intn(2), MaxHints: 1})
		w, nodes = c.w, c.f.Nodes
		ask = func() string {
			return collected((&oidfed.SimpleEntityCollector{}).CollectEntities(apimodel.EntityCollectionRequest{TrustAnchor: c.ta.ID}))
		}
	}
	defer w.Close()
	var mu sync.Mutex
	hits, at := 0, ""
	var resp *fed.Resp
	w.SetFault(
		func(q fed.Req) *fed.Resp {
			mu.Lock()
			defer mu.Unlock()
			if ep, _ := q.Endpoint(); ep != at {
				return nil
			}
			hits++
			return resp
		},
	)
	// a url that is not asked often, because each time takes long
	var urls []string
	for _, n := range nodes {
		urls = append(urls, fed.ECURL(n.ID))
		if n.Level < 9 {
			urls = append(urls, n.Fetch(), n.ListEP())
		}
	}
	r.Shuffle(len(urls), func(i, j int) { urls[i], urls[j] = urls[j], urls[i] })
	want := ""
	for _, u := range urls {
		hits, at, resp = 0, u, &fed.Resp{Status: 500, Type: "text/plain", Body: []byte("oops")}
		if want = ask(); hits == 1 || hits == 2 && fed.Chance(r, 0.2) {
			break
		}
		at = ""
	}
	if at == "" {
		return
	}
	kind := 1 + r.Intn(3)
	asked := hits
	mu.Lock()
	resp, hits = &fed.Resp{Stall: kind, Type: "application/entity-statement+jwt", Body: []byte(fed.Pick(r, "", "eyJ", `["http://`))}, 0
	mu.Unlock()
	t0 := time.Now()
	got := ask()
	took := time.Since(t0)
	mu.Lock()
	defer mu.Unlock()
	det := map[string]any{"url": at, "kind": kind, "what": what, "seconds": took.Seconds(), "requests": hits}
	if got != want {
		det["difference"] = firstDiff(want, got)
		k.Violation("a server that does not come to an end changes more than one that fails", det)
	}
	k.Count("stalled_requests", hits)
	k.Count("stalled_seconds", int(took.Seconds()))
	k.Eval(fmt.Sprintf("stall/%s/%d/%d/%v", what, kind, asked, want != ""))
	k.Sample(det)
}

// stallToken: so does a token endpoint.
func stallToken(k *rt.Case) {
	r := k.Rng
	for range 30 {
		x := newOPWorld(k)
		om, err := x.leaf.ResolveOPMetadata(x.op.ID)
		if err != nil || om == nil || om.TokenEndpoint == "" {
			x.f.W.Close()
			continue
		}
		defer x.f.W.Close()
		kind := 1 + r.Intn(3)
		hits := 0
		x.f.W.Handle(
			om.TokenEndpoint, func(fed.Req) *fed.Resp {
				hits++
				return &fed.Resp{Stall: kind, Type: "application/json", Body: []byte(fed.Pick(r, "", `{"access_token":"at"`, "{"))}
			},
		)
		t0 := time.Now()
		tok, oerr, err := x.leaf.CodeExchange(x.op.ID, "code", x.id+"/cb", nil)
		took := time.Since(t0)
		if tok != nil || oerr != nil || err == nil {
			k.Violation("a token response that does not come to an end is used", map[string]any{"kind": kind, "token": tok})
		}
		if hits > 0 {
			k.Count("stalled_token_requests", hits)
		}
		k.Count("stalled_seconds", int(took.Seconds()))
		k.Eval(fmt.Sprintf("stall/token/%d/%d", kind, hits))
		k.Sample(map[string]any{"what": "token", "kind": kind, "seconds": took.Seconds()})
		return
	}
}

// faultCollect: the collection is complete as soon as requests do not fail any more.
func faultCollect(k *rt.Case, sw *fed.Swap) {
	r := k.Rng
	c := genCollect(k, collectOpts(r))
	defer c.w.Close()
	req := randRequest(k, c)
	cols := []interface {
		CollectEntities(apimodel.EntityCollectionRequest) []*oidfed.CollectedEntity
	}{&oidfed.SimpleEntityCollector{}, oidfed.VerifiedChainsEntityCollector{}, &oidfed.SimpleOPCollector{}}
	a, b := cols[r.Intn(len(cols))], cols[r.Intn(len(cols))]
	reach := c.reach(c.ta.ID, never)
	sw.Use(fed.NoCache{})
	want := collected(b.CollectEntities(req))
	marks := map[string]map[string]bool{}
	for _, e := range a.CollectEntities(req) {
		marks[e.EntityID] = map[string]bool{}
		for _, m := range e.TrustMarks {
			marks[e.EntityID][m.TrustMarkJWT] = true
		}
	}
	if fed.Chance(r, 0.6) {
		sw.Use(fed.NewMemCache())
	}
	hits := injectFaults(r, c.f, fed.Pick(r, 0.03, 0.06, 0.12, 0.25, 0.5), fed.Chance(r, 0.2))
	during := a.CollectEntities(req)
	c.w.SetFault(nil)
	kinds := hits(k)
	after := collected(b.CollectEntities(req))
	det := map[string]any{"faults": kinds, "request": generic(req), "collectors": fmt.Sprintf("%T, %T", a, b)}
	if !contains(kinds, "other") && !contains(kinds, "forged") && !contains(kinds, "near") {
		for _, e := range during {
			if reach[e.EntityID] == nil {
				det["entity"] = e.EntityID
				k.Violation("an entity is collected that is not listed, while requests fail", det)
			} else if marks[e.EntityID] == nil {
				det["entity"] = e.EntityID
				k.Violation("an entity is collected that does not match the request, while requests fail", det)
			}
			for _, m := range e.TrustMarks {
				k.Count("marks_during", 1)
				if marks[e.EntityID] != nil && !marks[e.EntityID][m.TrustMarkJWT] {
					det["entity"] = e.EntityID
					k.Violation("a trust mark is reported that is not valid, while requests fail", det)
				}
			}
		}
	}
	if after != want {
		det["difference"] = firstDiff(want, after)
		k.Violation("the collection is another one although requests do not fail any more", det)
	}
	if len(kinds) > 0 {
		k.Count("collections_judged", 1)
	}
	k.Count("collected_during", len(during))
	k.Count("collected_after", strings.Count(after, "\n"))
	k.Eval(fmt.Sprintf("collect/%v/%d/%d", kinds, len(during), len(after)))
}

func faultCase(k *rt.Case) {
	r := k.Rng
	o := randOpts(r)
	n := 0
	if fed.Chance(r, 0.3) {
		n = 1
	}
	cc := genChain(k, o, fed.Mutations, n, 0.1)
	defer cc.f.W.Close()
	hits := injectFaults(r, cc.f, 0.1+0.5*r.Float64(), fed.Chance(r, 0.3))
	m := &fed.Model{W: cc.f.W, Anchors: cc.anchors, Types: cc.types, T0: time.Now()}
	during := cc.resolve(r.Intn(4))
	cc.f.W.SetFault(nil)
	after := cc.resolve(r.Intn(4))
	m.T1 = time.Now()
	byKey := map[string]fed.Verdict{}
	model := m.Chains(cc.start)
	for _, x := range model {
		if x.V > byKey[x.Key()] {
			byKey[x.Key()] = x.V
		}
	}
	kinds := hits(k)
	det := map[string]any{
		"faults": kinds, "start": cc.start, "anchors": anchorIDs(cc.anchors), "mutations": cc.f.Muts, "during": len(during),
		"after": len(after),
	}
	for x := range chainKeys(during) {
		if byKey[x] == fed.No {
			det["chain"] = idsOf(strings.Split(x, "\n"))
			k.Violation("an invalid chain is returned while requests fail", det)
		}
	}
	got := chainKeys(after)
	for x := range got {
		if byKey[x] == fed.No {
			det["chain"] = idsOf(strings.Split(x, "\n"))
			k.Violation("an invalid chain is returned after requests failed", det)
		}
	}
	for x, v := range byKey {
		if v == fed.Yes && !got[x] {
			det["chain"] = idsOf(strings.Split(x, "\n"))
			k.Violation("a valid chain is not found although requests do not fail any more", det)
		}
	}
	if len(kinds) > 0 {
		k.Count("recoveries_judged", 1)
	}
	k.Count("chains_during", len(during))
	k.Count("chains_after", len(got))
	key := fmt.Sprintf("%v/%d/%d", kinds, len(during), len(got))
	if len(kinds) == 0 {
		key = ""
	}
	k.Eval(key)
}
