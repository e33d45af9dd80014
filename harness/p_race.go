package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vmihailenco/msgpack/v5"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/cache"
	"github.com/go-oidfed/lib/unixtime"

	"github.com/go-oidfed/lib/verifharness/fed"
	"github.com/go-oidfed/lib/verifharness/rt"
)

func init() {
	register("C13", property{run: runC13, race: true})
}

// raceTask is something a user does; its outcome does not depend on when it is done.
type raceTask struct {
	name string
	f    func() string
}

// raceGroup is a federation with the tasks about it.
type raceGroup struct {
	w     *fed.World
	f     *fed.Fed
	tasks []raceTask
	desc  string
}

func (g *raceGroup) add(name string, f func() string) {
	g.tasks = append(g.tasks, raceTask{name, f})
}

// sub gives a case with its own generator for a part of a case.
func subCase(k *rt.Case, seed int64) *rt.Case {
	return &rt.Case{Ctx: k.Ctx, Name: k.Name, Rng: rand.New(rand.NewSource(seed))}
}

func errOr(err error, v any) string {
	if err != nil {
		return "error"
	}
	return string(canon(v))
}

// chainTasks are about resolving.
func chainTasks(k *rt.Case) *raceGroup { return chainTasksOf(k, false) }

// coldChainTasks does nothing with the federation before the tasks run.
func coldChainTasks(k *rt.Case) *raceGroup { return chainTasksOf(k, true) }

func chainTasksOf(k *rt.Case, cold bool) *raceGroup {
	r := k.Rng
	cc := genChain(k, randOpts(r), allMutations, r.Intn(3), 0.2)
	if fed.Chance(r, 0.7) {
		// constraints that allow everything, so that they are evaluated all the time
		for _, s := range cc.f.Stmts() {
			if s.Claims["iss"] != s.Claims["sub"] && s.Claims["constraints"] == nil && fed.Chance(r, 0.7) {
				s.Claims["constraints"] = map[string]any{
					"max_path_length": 9, "naming_constraints": map[string]any{"permitted": []any{"." + cc.f.W.Suffix}, "excluded": []any{"x." + cc.f.W.Suffix}},
					"allowed_entity_types": []any{"openid_provider", "openid_relying_party", "federation_entity", "custom_entity"},
				}
				s.Reset()
			}
		}
		cc.f.Publish()
	}
	g := &raceGroup{w: cc.f.W, f: cc.f}
	anchors := toAnchors(cc.anchors)
	starts := []string{cc.start}
	for i := 0; i < 2; i++ {
		starts = append(starts, cc.f.Nodes[r.Intn(len(cc.f.Nodes))].ID)
	}
	ids := anchorIDsOnly(cc.anchors)
	for i, start := range starts {
		for _, types := range [][]string{nil, cc.types, {"openid_provider"}} {
			entry := r.Intn(3)
			g.add("resolve "+entryNames[entry], func() string {
				tr := oidfed.TrustResolver{TrustAnchors: anchors, StartingEntity: start, Types: types}
				var chains oidfed.TrustChains
				switch entry {
				case 0:
					chains = tr.ResolveToValidChainsWithoutVerifyingMetadata()
				case 1:
					chains = tr.ResolveToValidChains()
				case 2:
					tr.Resolve()
					tr.VerifySignatures()
					chains = tr.Chains()
				}
				out := ""
				for _, c := range chains {
					m, err := c.Metadata()
					out += strings.Join(rawChain(c), "\n") + "\n" + errOr(err, m) + fmt.Sprint(c.PathLen(), c.ExpiresAt().Unix()) + "\n"
				}
				scrambleChains(chains)
				return out
			})
			req := apimodel.ResolveRequest{Subject: start, TrustAnchor: ids, EntityTypes: types}
			switch r.Intn(4) {
			case 0:
				g.add("local resolver", func() string { m, err := oidfed.LocalMetadataResolver{}.Resolve(req); return errOr(err, m) })
			case 1:
				g.add("local response", func() string {
					p, err := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(req)
					return errOr(err, p)
				})
			case 2:
				g.add("smart resolver", func() string { m, err := oidfed.SmartRemoteMetadataResolver{}.Resolve(req); return errOr(err, m) })
			case 3:
				g.add("default resolver", func() string {
					yes, no := oidfed.DefaultMetadataResolver.ResolvePossible(req)
					return fmt.Sprint(yes, no)
				})
			}
		}
		if i == 0 && !cold {
			tr := oidfed.TrustResolver{TrustAnchors: anchors, StartingEntity: start}
			sharedChainTasks(k, g, tr.ResolveToValidChainsWithoutVerifyingMetadata())
		}
		g.add("own copy", func() string {
			ec, err := oidfed.GetEntityConfiguration(start)
			if err != nil {
				return "error"
			}
			out := string(canon(ec))
			// what is handed out belongs to the caller
			ec.ExpiresAt = unixtime.Unixtime{Time: time.Unix(1, 0)}
			ec.IssuedAt = unixtime.Unixtime{Time: time.Unix(2, 0)}
			ec.Issuer, ec.Subject, ec.Metadata, ec.AuthorityHints = "x", "y", nil, nil
			return out
		})
	}
	g.desc = fmt.Sprintf("chains/%d/%v/%s", len(cc.f.Nodes), len(anchors), mutNames(cc.f.Muts))
	return g
}

func anchorIDsOnly(as []fed.Anchor) (r []string) {
	for _, a := range as {
		r = append(r, a.ID)
	}
	return
}

// scrambleChains changes statements that belong to the caller.
func scrambleChains(cs oidfed.TrustChains) {
	for _, c := range cs {
		for _, s := range c {
			s.Subject, s.Metadata, s.ExpiresAt = "changed", nil, unixtime.Unixtime{Time: time.Unix(5, 0)}
			s.MetadataPolicy, s.AuthorityHints = nil, []string{"changed"}
		}
	}
}

// sharedChainTasks use the same chains.
func sharedChainTasks(k *rt.Case, g *raceGroup, chains oidfed.TrustChains) {
	if len(chains) == 0 {
		return
	}
	list := func(cs oidfed.TrustChains) string {
		s := ""
		for _, c := range cs {
			s += strings.Join(rawChain(c), "\n") + "\n\n"
		}
		return s
	}
	g.add("filter shared", func() string {
		return list(chains.Filter(oidfed.TrustChainsFilterValidMetadata, oidfed.TrustChainsFilterMinPathLength))
	})
	g.add("filter shared 2", func() string {
		return list(chains.Filter(oidfed.TrustChainsFilterMaxPathLength(1))) + list(chains.Filter(oidfed.TrustChainsFilterTrustAnchor(chains[0][len(chains[0])-1].Issuer)))
	})
	g.add("sort shared", func() string {
		// sorting is in place, so that every caller sorts an own list (of shared chains)
		own := append(oidfed.TrustChains{}, chains...)
		return list(own.SortAsc(oidfed.TrustChainScoringPathLen)) + list(own.SortDesc(oidfed.TrustChainScoringPathLen))
	})
	c := chains[k.Rng.Intn(len(chains))]
	g.add("metadata shared", func() string { m, err := c.Metadata(); return errOr(err, m) })
	s := c[k.Rng.Intn(len(c))]
	g.add("encode shared", func() string {
		a, err := json.Marshal(s)
		b, err2 := msgpack.Marshal(s)
		var back oidfed.EntityStatement
		err3 := msgpack.Unmarshal(b, &back)
		if err != nil || err2 != nil || err3 != nil {
			return fmt.Sprint(err, err2, err3)
		}
		return string(a) + string(canon(back.EntityStatementPayload))
	})
	last := c[len(c)-1]
	g.add("verify shared", func() string {
		ok := ""
		for _, x := range c {
			ok += fmt.Sprint(x.Verify(last.JWKS), x.TimeValid(), " ")
		}
		return ok
	})
	if last.JWKS.Set != nil {
		g.add("keys shared", func() string { a, err := json.Marshal(last.JWKS); return fmt.Sprint(string(a), err, last.JWKS.Len()) })
	}
	var ps []*oidfed.MetadataPolicies
	for _, x := range c {
		ps = append(ps, x.MetadataPolicy)
	}
	g.add("policies shared", func() string {
		p, err := oidfed.MergeMetadataPolicies(ps...)
		if err != nil || c[0].Metadata == nil {
			return "error"
		}
		m, err := c[0].Metadata.ApplyPolicy(p)
		return errOr(err, p) + errOr(err, m)
	})
}

// markTasks are about trust marks.
func markTasks(k *rt.Case) *raceGroup {
	c := genMarks(k, k.Rng.Intn(2), 0.3)
	g := &raceGroup{w: c.f.W, f: c.f, desc: fmt.Sprintf("marks/%d", len(c.infos))}
	ta, _ := c.anchorPayload()
	for _, n := range c.f.Nodes {
		l := c.infos[n.ID]
		if len(l) == 0 {
			continue
		}
		req := apimodel.ResolveRequest{Subject: n.ID, TrustAnchor: []string{c.anchor.ID}}
		g.add("response with marks", func() string {
			p, err := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(req)
			return errOr(err, p)
		})
		if ta == nil {
			continue
		}
		g.add("marks in federation", func() string {
			out := ""
			for _, i := range infosOf(l) {
				out += fmt.Sprint(i.VerifyFederation(ta) == nil)
				m, err := oidfed.ParseTrustMark([]byte(i.TrustMarkJWT))
				if err == nil {
					out += fmt.Sprint(m.VerifyFederation(ta) == nil)
				}
			}
			return out + string(canon(infosOf(l).VerifiedFederation(ta)))
		})
		g.add("marks external", func() string {
			out := ""
			for _, i := range infosOf(l) {
				out += fmt.Sprint(i.VerifyExternal(ta.JWKS) == nil)
			}
			return out
		})
	}
	return g
}

// opTasks are about one client shared by several users.
func opTasks(k *rt.Case) *raceGroup {
	r := k.Rng
	x := newOPWorld(k)
	g := &raceGroup{w: x.f.W, f: x.f, desc: fmt.Sprintf("client/%d/%s", len(x.f.Nodes), mutNames(x.f.Muts))}
	var codes atomic.Int64
	for _, p := range []string{"/token", "/t/oken", "/t/oken/", "/Token", "/forced"} {
		x.f.W.Handle("http://"+x.op.Host+p, func(q fed.Req) *fed.Resp {
			codes.Add(1)
			return &fed.Resp{Type: "application/json", Body: fed.MustJSON(map[string]any{
				"access_token": "at-" + q.Form.Get("code"), "token_type": "Bearer", "expires_in": 60, "id_token": "i-" + q.Form.Get("client_id"),
			})}
		})
	}
	g.add("provider metadata", func() string { m, err := x.leaf.ResolveOPMetadata(x.op.ID); return errOr(err, m) })
	for i := 0; i < 3; i++ {
		state, scope := fmt.Sprintf("state%d", i), fed.Pick(r, "openid", "openid profile")
		ap := params(k)
		g.add("authorization url", func() string {
			u, err := x.leaf.GetAuthorizationURL(x.op.ID, x.id+"/cb", state, scope, ap)
			if err != nil {
				return "error"
			}
			p, err := url.Parse(u)
			if err != nil {
				return u
			}
			q := p.Query()
			out := requestClaims(x.key, q.Get("request"))
			q.Del("request")
			p.RawQuery = ""
			return p.String() + "?" + q.Encode() + out
		})
		code := fmt.Sprintf("code%d", i)
		tp := params(k)
		g.add("code exchange", func() string {
			t, oerr, err := x.leaf.CodeExchange(x.op.ID, code, x.id+"/cb", tp)
			if err != nil || oerr != nil {
				return "error"
			}
			return string(canon(generic(t)))
		})
	}
	rop := x.leaf.RequestObjectProducer()
	vals := map[string]any{"aud": x.op.ID, "scope": "openid", "claims": map[string]any{"a": []any{"b"}}}
	g.add("request object", func() string {
		o, err := rop.RequestObject(vals)
		if err != nil {
			return "error"
		}
		return requestClaims(x.key, string(o))
	})
	g.add("client assertion", func() string {
		o, err := rop.ClientAssertion("http://aud")
		if err != nil {
			return "error"
		}
		return requestClaims(x.key, string(o))
	})
	g.add("configuration", func() string {
		j, err := x.leaf.EntityConfigurationJWT()
		if err != nil {
			return "error"
		}
		return tokenClaims(j)
	})
	return g
}

// requestClaims gives the claims that do not change with time, if the signature is valid.
func requestClaims(key *fed.Key, raw string) string {
	t, err := fed.Decode([]byte(raw))
	if err != nil {
		return "undecodable"
	}
	v := t.Verify(fed.JWKS(key))
	for _, c := range []string{"iat", "exp", "jti", "nbf"} {
		delete(t.Claims, c)
	}
	return fmt.Sprint(v, t.Header) + string(canon(t.Claims))
}

func tokenClaims(raw []byte) string {
	t, err := fed.Decode(raw)
	if err != nil {
		return "undecodable"
	}
	for _, c := range []string{"iat", "exp", "jti"} {
		delete(t.Claims, c)
	}
	return fmt.Sprint(t.Header) + string(canon(t.Claims))
}

// collectTasks are about collections.
func collectTasks(k *rt.Case) *raceGroup {
	r := k.Rng
	c := genCollect(k, fed.Opts{TAs: 1 + r.Intn(2), Mids: r.Intn(4), Leaves: 1 + r.Intn(4), MaxHints: 2, ExtraTypes: true,
		LeafTypes: []string{"openid_provider", "openid_relying_party"}})
	g := &raceGroup{w: c.w, f: c.f, desc: fmt.Sprintf("collect/%d", len(c.f.Nodes))}
	col := &oidfed.SimpleEntityCollector{}
	filters := []oidfed.EntityCollectionFilter{
		oidfed.EntityCollectionFilterOPSupportedScopesIncludes([]string{c.ta.ID}, "openid"),
		oidfed.EntityCollectionFilterOPSupportedGrantTypesIncludes([]string{c.ta.ID}, "authorization_code"),
	}
	fcol := oidfed.FilterableVerifiedChainsEntityCollector{Collector: col, Filters: filters[:1]}
	for i := 0; i < 3; i++ {
		req := randRequest(k, c)
		var x oidfed.EntityCollector
		switch r.Intn(4) {
		case 0:
			x = fcol
		case 1:
			x = oidfed.SmartRemoteEntityCollector{TrustAnchors: []string{c.ta.ID}}
		default:
			x = col
		}
		g.add("collect", func() string {
			var l []string
			for _, e := range x.CollectEntities(req) {
				l = append(l, string(canon(e)))
			}
			sort.Strings(l)
			return strings.Join(l, "\n")
		})
	}
	return g
}

// issueTasks are about one issuer shared by several users.
func issueTasks(k *rt.Case) *raceGroup {
	r := k.Rng
	w := fed.NewWorld()
	g := &raceGroup{w: w, desc: "issue"}
	key := fed.NewKey(fed.Pick(r, fed.Algs...), "")
	gs := oidfed.NewGeneralJWTSigner(key.Priv, alg(key.Alg))
	ownKid(key, gs.JWKS())
	id := "http://issuer." + w.Suffix
	var specs []oidfed.TrustMarkSpec
	var owned []oidfed.OwnedTrustMark
	for i := 0; i < 3; i++ {
		t := fmt.Sprintf("urn:t%d", i)
		specs = append(specs, oidfed.TrustMarkSpec{TrustMarkType: t, Extra: extras(k), IncludeExtraClaimsInInfo: i == 1, Ref: "http://ref"})
		owned = append(owned, oidfed.OwnedTrustMark{ID: t, Extra: extras(k)})
	}
	tmi := oidfed.NewTrustMarkIssuer(id, gs.TrustMarkSigner(), specs)
	tmo := oidfed.NewTrustMarkOwner(id, gs.TrustMarkDelegationSigner(), owned)
	g.add("types", func() string { t := tmi.TrustMarkTypes(); sort.Strings(t); return strings.Join(t, " ") })
	for i, s := range specs {
		sub := fmt.Sprintf("http://sub%d.%s", i, w.Suffix)
		g.add("issue mark", func() string {
			info, err := tmi.IssueTrustMark(s.TrustMarkType, sub, time.Hour)
			if err != nil {
				return "error"
			}
			e := fmt.Sprint(info.VerifyExternal(gs.JWKS()))
			return requestClaims(key, info.TrustMarkJWT) + e
		})
		g.add("issue delegation", func() string {
			d, err := tmo.DelegationJWT(s.TrustMarkType, sub)
			if err != nil {
				return "error"
			}
			return requestClaims(key, string(d))
		})
	}
	meta := decode[oidfed.Metadata](map[string]any{"openid_relying_party": fed.RPMeta(id), "custom": map[string]any{"a": 1.0}})
	ent, err := oidfed.NewFederationEntity(id, []string{"http://ta"}, meta, gs.EntityStatementSigner(), 3600, extras(k))
	if err != nil {
		panic(err)
	}
	own := &oidfed.EntityConfigurationTrustMarkConfig{
		TrustMarkType: "urn:self", SelfIssued: true, SelfIssuanceSpec: oidfed.TrustMarkSpec{Extra: map[string]any{"x": "y"}},
	}
	if err = own.Verify(id, "", oidfed.NewTrustMarkSigner(key.Priv, alg(key.Alg))); err == nil {
		ent.TrustMarks = append(ent.TrustMarks, own)
	} else {
		k.Violation("a self-issued trust mark is refused", map[string]any{"err": err.Error()})
	}
	marks := func(raw []byte) string {
		t, err := fed.Decode(raw)
		if err != nil {
			return "undecodable"
		}
		ms, _ := t.Claims["trust_marks"].([]any)
		out := ""
		for _, m := range ms {
			o, _ := m.(map[string]any)
			out += requestClaims(key, fmt.Sprint(o["trust_mark"]))
		}
		delete(t.Claims, "trust_marks")
		for _, c := range []string{"iat", "exp", "jti"} {
			delete(t.Claims, c)
		}
		return fmt.Sprint(t.Verify(fed.JWKS(key)), t.Header) + string(canon(t.Claims)) + out
	}
	g.add("configuration", func() string {
		j, err := ent.EntityConfigurationJWT()
		if err != nil {
			return "error"
		}
		return marks(j)
	})
	g.add("configuration payload", func() string {
		p := ent.EntityConfigurationPayload()
		if p == nil {
			return "nil"
		}
		p.IssuedAt, p.ExpiresAt, p.TrustMarks = unixtime.Unixtime{}, unixtime.Unixtime{}, nil
		return string(canon(p))
	})
	payload := oidfed.EntityStatementPayload{Issuer: id, Subject: "http://sub", JWKS: gs.JWKS(), Metadata: meta}
	g.add("subordinate statement", func() string {
		j, err := ent.SignEntityStatement(payload)
		if err != nil {
			return "error"
		}
		return requestClaims(key, string(j))
	})
	rs := gs.ResolveResponseSigner()
	rr := oidfed.ResolveResponse{Issuer: id, Subject: "http://sub", ResolveResponsePayload: oidfed.ResolveResponsePayload{Metadata: meta}}
	g.add("resolve response", func() string {
		j, err := rs.JWT(rr)
		if err != nil {
			return "error"
		}
		return requestClaims(key, string(j))
	})
	return g
}

var raceKinds = []struct {
	name string
	f    func(*rt.Case) *raceGroup
}{
	{"chains", chainTasks}, {"marks", markTasks}, {"client", opTasks}, {"collect", collectTasks}, {"issue", issueTasks},
}

// raceBatch runs the tasks of several federations alone, then at once, then alone again; if cold, at once first, so that
// nothing is known or computed yet.
func raceBatch(k *rt.Case, sw *fed.Swap, cached, cold bool) {
	r := k.Rng
	sw.Use(fed.NoCache{})
	var gs []*raceGroup
	for range 6 {
		x := raceKinds[r.Intn(len(raceKinds))]
		if cold && x.name == "chains" {
			x.f = coldChainTasks
		}
		gs = append(gs, x.f(subCase(k, r.Int63())))
	}
	defer func() {
		for _, g := range gs {
			g.w.Close()
		}
	}()
	ref := make([][]string, len(gs))
	alone := func(phase string) {
		var wg sync.WaitGroup
		for i, g := range gs {
			wg.Add(1)
			go guard(k, &wg, func() {
				out := make([]string, len(g.tasks))
				for _, j := range rand.New(rand.NewSource(int64(i))).Perm(len(g.tasks)) {
					out[j] = g.tasks[j].f()
				}
				if ref[i] == nil {
					ref[i] = out
					return
				}
				for j := range out {
					if out[j] != ref[i][j] {
						k.Violation("an outcome differs "+phase+": "+g.tasks[j].name, map[string]any{
							"group": g.desc, "diff": firstDiff(ref[i][j], out[j]),
						})
					}
				}
			})
		}
		wg.Wait()
	}
	if !cold {
		alone("before")
	}
	var mc *fed.MemCache
	if cached {
		mc = fed.NewMemCache()
		sw.Use(mc)
	}
	for _, g := range gs {
		seed := r.Int63()
		var n atomic.Int64
		g.w.SetFault(func(fed.Req) *fed.Resp {
			switch (seed + n.Add(1)*7919) % 5 {
			case 0:
				return &fed.Resp{Delay: 300 * time.Microsecond}
			case 1:
				return &fed.Resp{Delay: 2 * time.Millisecond}
			}
			return nil
		})
	}
	var wg sync.WaitGroup
	type outcome struct {
		i, j     int
		s        string
		from, to time.Time
	}
	// every goroutine keeps its own record, so that the monitor does not order what it watches
	records := make([][]outcome, 4*len(gs))
	for i, g := range gs {
		for t := range 4 {
			wg.Add(1)
			perm := rand.New(rand.NewSource(int64(100*i + t))).Perm(len(g.tasks))
			go guard(k, &wg, func() {
				for range 2 {
					for _, j := range perm {
						t0 := time.Now()
						got := g.tasks[j].f()
						records[4*i+t] = append(records[4*i+t], outcome{i, j, got, t0, time.Now()})
					}
				}
			})
		}
	}
	wg.Wait()
	for _, g := range gs {
		g.w.SetFault(nil)
	}
	alone("afterwards")
	overlap, runs := 0, 0
	var all []outcome
	for _, rec := range records {
		all = append(all, rec...)
	}
	sort.Slice(all, func(a, b int) bool { return all[a].from.Before(all[b].from) })
	var latest time.Time
	for _, o := range all {
		runs++
		if o.from.Before(latest) {
			overlap++
		}
		if o.to.After(latest) {
			latest = o.to
		}
		if o.s != ref[o.i][o.j] {
			k.Violation("an outcome depends on what is done at the same time: "+gs[o.i].tasks[o.j].name, map[string]any{
				"group": gs[o.i].desc, "cached": cached, "cold": cold, "diff": firstDiff(ref[o.i][o.j], o.s),
			})
		}
	}
	sw.Use(fed.NoCache{})
	if mc != nil {
		n := 0
		for _, p := range []string{"entity_statement", "trust_tree", "trust_tree_chains", "trustchain_resolved_metadata", "subordinate_listing"} {
			k.Count("hits "+p, mc.HitCount(p))
			n += mc.HitCount(p)
		}
		if n == 0 {
			k.Inconclusive("%s: the cache was never hit", k.Name)
		}
	}
	k.Count("concurrent_calls", runs)
	k.Count("overlapping_calls", overlap)
	for i, g := range gs {
		for j, t := range g.tasks {
			o := "value"
			if ref[i][j] == "error" || ref[i][j] == "" {
				o = "none"
			}
			k.Count("outcome "+t.name+": "+o, 1)
			k.Eval(fmt.Sprintf("%s/%s/%v/%d", g.desc, t.name, cached, len(ref[i][j])))
		}
	}
}

// guard runs f as a goroutine of a case; panics are those of the case.
func guard(k *rt.Case, wg *sync.WaitGroup, f func()) {
	defer wg.Done()
	rt.Guard(k, f)
}

func runC13(c *rt.Ctx) {
	c.Rule = "Batches of federations with tasks (resolving through all entry points, metadata of shared chains, filtering, sorting and " +
		"encoding shared statements, trust marks against a shared anchor, one client used for authorisation and token requests, one " +
		"collector, one issuer and entity that sign). Every task is done alone, then by 4 goroutines per federation (24 in all, delayed " +
		"answers) without and with a cache that refreshes in the background on every hit, then alone again (some without being done alone first): all outcomes must be the " +
		"same; the race detector watches. Callers overwrite the statements they were given. Distinct by federation, task and outcome."
	c.Assume = []string{
		"outcomes leave out the times and identifiers that are new in every issued token",
		"the schedules are those the Go scheduler and the delays of the network produce",
	}
	sw := &fed.Swap{}
	sw.Use(fed.NoCache{})
	cache.SetCache(sw)
	oidfed.ResolverCacheGracePeriod = 1000000 * time.Hour
	oidfed.ResolverCacheLifetimeElapsedGraceFactor = -1
	c.Run("cached", c.N(18, 400), func(k *rt.Case) { raceBatch(k, sw, true, false) })
	c.Run("uncached", c.N(10, 200), func(k *rt.Case) { raceBatch(k, sw, false, false) })
	c.Run("coldcached", c.N(10, 300), func(k *rt.Case) { raceBatch(k, sw, true, true) })
	c.Run("cold", c.N(10, 300), func(k *rt.Case) { raceBatch(k, sw, false, true) })
}
