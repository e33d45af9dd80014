package main

import (
	"encoding/json"
	"fmt"
	"maps"
	"math/rand"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"

	"github.com/go-oidfed/lib/verifharness/fed"
	"github.com/go-oidfed/lib/verifharness/rt"
)

func init() {
	register("C12", property{run: runC12, race: true})
}

// collectFed is a federation with listings.
type collectFed struct {
	k      *rt.Case
	w      *fed.World
	f      *fed.Fed
	ta     *fed.Node
	marks  *fed.Marks
	infos  map[string][]fed.MarkInfo
	broken map[string]string
}

var uiStrings = []string{"description", "logo_uri", "policy_uri", "information_uri"}

var nameWords = []string{"Alpha", "Beta", "Campus", "Delta Login", "eduID", "Foo University", "GAMMA", "Portal", " Space around "}

func genCollect(k *rt.Case, o fed.Opts) *collectFed {
	r := k.Rng
	w := fed.NewWorld()
	f := fed.NewFed(r, w, o)
	c := &collectFed{k: k, w: w, f: f, ta: f.Nodes[0], infos: map[string][]fed.MarkInfo{}, broken: map[string]string{}}
	c.marks = fed.NewMarks(f, c.ta)
	for _, n := range f.Nodes {
		if fe, ok := n.Meta["federation_entity"].(map[string]any); ok && n.Level == 0 && fed.Chance(r, 0.3) {
			// does not resolve anything
			fe["federation_resolve_endpoint"] = n.Endpoint("resolve")
			if fed.Chance(r, 0.5) {
				w.Put(n.Endpoint("resolve"), "", &fed.Resp{Status: 500, Type: "text/plain", Body: []byte("oops")})
			}
		}
		if n.Level == 9 && fed.Chance(r, 0.06) {
			for t := range n.Meta {
				delete(n.Meta, t)
			}
			n.Meta["custom_entity"] = map[string]any{"foo": "bar"}
		}
		for t, m := range n.Meta {
			mm, _ := m.(map[string]any)
			if mm == nil || t == "custom_entity" {
				continue
			}
			if fed.Chance(r, 0.5) {
				mm["display_name"] = fed.Pick(r, nameWords...)
			}
			if fed.Chance(r, 0.4) {
				mm[fed.Pick(r, "organization_name", "client_name", "resource_name")] = fed.Pick(r, nameWords...)
			}
			for _, u := range uiStrings {
				if fed.Chance(r, 0.4) {
					mm[u] = fed.Pick(r, "http://x/", "some text", "ä ☃ <&>", "") + n.Host
				}
			}
			if fed.Chance(r, 0.4) {
				mm["keywords"] = fed.Pick(r, []any{"a", "b"}, []any{"a"}, []any{"c", "d", "c"})
			}
			if t == "openid_provider" {
				mm["grant_types_supported"] = fed.Pick(r, []any{"authorization_code"}, []any{"authorization_code", "refresh_token"}, []any{"implicit", "refresh_token"})
				mm["scopes_supported"] = fed.Pick(r, []any{"openid"}, []any{"openid", "profile"}, []any{"openid", "email", "profile"})
				mm["client_registration_types_supported"] = fed.Pick(r, []any{"automatic"}, []any{"explicit"}, []any{"explicit", "automatic"})
			}
		}
		if fed.Chance(r, 0.4) {
			for i := 0; i <= r.Intn(2); i++ {
				mut := ""
				if fed.Chance(r, 0.4) {
					mut = fed.MarkMutations[r.Intn(len(fed.MarkMutations))]
				}
				c.infos[n.ID] = append(c.infos[n.ID], c.marks.New(n, mut))
			}
			c.marks.Publish(n, c.infos[n.ID])
		}
		// superiors restrict some metadata
		for _, s := range n.About {
			if fed.Chance(r, 0.15) {
				s.Claims["metadata_policy"] = map[string]any{
					"openid_provider": map[string]any{
						fed.Pick(r, "grant_types_supported", "scopes_supported", "client_registration_types_supported"): map[string]any{
							"subset_of": []any{fed.Pick(r, "authorization_code", "openid", "explicit"), fed.Pick(r, "refresh_token", "profile", "automatic")},
						},
					},
				}
			}
		}
	}
	// listings
	for _, n := range f.Nodes {
		if n.Level == 9 {
			continue
		}
		if fed.Chance(r, 0.2) && len(n.List) > 0 {
			n.List = append(n.List, n.List[r.Intn(len(n.List))])
		}
		if fed.Chance(r, 0.15) {
			n.List = append(n.List, "http://dead."+w.Suffix)
		}
		if fed.Chance(r, 0.15) {
			n.List = append(n.List, f.Nodes[r.Intn(len(f.Nodes))].ID)
		}
		if fed.Chance(r, 0.1) {
			delete(n.Meta["federation_entity"].(map[string]any), "federation_list_endpoint")
			if fed.Chance(r, 0.3) {
				delete(n.Meta, "federation_entity")
			}
		}
		r.Shuffle(len(n.List), func(i, j int) { n.List[i], n.List[j] = n.List[j], n.List[i] })
	}
	for _, n := range f.Nodes {
		if n != c.ta && fed.Chance(r, 0.05) {
			delete(n.EC.Claims, "metadata")
		}
		if len(n.Meta) == 0 {
			delete(n.EC.Claims, "metadata")
		}
	}
	if fed.Chance(r, 0.04) {
		// long statements and listings
		for range 1 + r.Intn(2) {
			grow(r, f)
		}
		n := f.Nodes[r.Intn(len(f.Nodes))]
		for i := range 50 + r.Intn(100) {
			n.List = append(n.List, fmt.Sprintf("http://dead.%s/%d/%s", w.Suffix, i, strings.Repeat("long/", 200)))
		}
		r.Shuffle(len(n.List), func(i, j int) { n.List[i], n.List[j] = n.List[j], n.List[i] })
		k.Count("federations_with_long_documents", 1)
	}
	f.Publish()
	return c
}

func collectOpts(r *rand.Rand) fed.Opts {
	return fed.Opts{
		TAs: 1 + r.Intn(2), Mids: r.Intn(6), Leaves: 1 + r.Intn(6), Cycles: fed.Chance(r, 0.3), PathIDs: fed.Chance(r, 0.35),
		ExtraTypes: true, MaxHints: 1 + r.Intn(3), MidTypes: true,
		LeafTypes: []string{"openid_provider", "openid_relying_party", "oauth_client", "oauth_resource", "oauth_authorization_server"},
	}
}

// served gives what is served as configuration.
func (c *collectFed) served(id string) *fed.Token {
	r := c.w.Get(fed.ECURL(id), "")
	if r == nil || r.Drop || r.Status != 0 && r.Status != 200 {
		return nil
	}
	t, err := fed.Decode(r.Body)
	if err != nil || t.Typ() != fed.TypStatement {
		return nil
	}
	return t
}

// reach lists the entities below the anchor; skip tells which urls do not work.
func (c *collectFed) reach(ta string, skip func(u string) bool) map[string]*fed.Token {
	out := map[string]*fed.Token{}
	done := map[string]bool{}
	var visit func(id string)
	visit = func(id string) {
		if done[id] || skip(fed.ECURL(id)) {
			return
		}
		done[id] = true
		t := c.served(id)
		if t == nil {
			return
		}
		md, _ := t.Claims["metadata"].(map[string]any)
		fe, _ := md["federation_entity"].(map[string]any)
		ep, _ := fe["federation_list_endpoint"].(string)
		if ep == "" || skip(ep) {
			return
		}
		l := c.w.Get(ep, "")
		if l == nil {
			return
		}
		var ids []string
		if json.Unmarshal(l.Body, &ids) != nil {
			return
		}
		for _, s := range ids {
			if skip(fed.ECURL(s)) {
				continue
			}
			st := c.served(s)
			if st == nil {
				continue
			}
			if _, ok := st.Claims["metadata"].(map[string]any); !ok {
				continue
			}
			out[s] = st
			visit(s)
		}
	}
	visit(ta)
	return out
}

func subsequence(q string, s string) bool {
	want := []rune(strings.ToLower(q))
	for _, x := range s {
		if len(want) > 0 && unicode.ToLower(x) == want[0] {
			want = want[1:]
		}
	}
	return len(want) == 0
}

func meta(t *fed.Token) map[string]any {
	m, _ := t.Claims["metadata"].(map[string]any)
	return m
}

var knownTypes = []string{
	"openid_provider", "openid_relying_party", "oauth_authorization_server", "oauth_client", "oauth_resource", "federation_entity",
}

var fallbackName = map[string]string{
	"openid_provider": "organization_name", "openid_relying_party": "client_name", "oauth_authorization_server": "organization_name",
	"oauth_client": "client_name", "oauth_resource": "resource_name", "federation_entity": "organization_name",
}

func displayNames(t *fed.Token) map[string]string {
	r := map[string]string{}
	for _, et := range knownTypes {
		m, _ := meta(t)[et].(map[string]any)
		if m == nil {
			continue
		}
		n, _ := m["display_name"].(string)
		if n == "" {
			n, _ = m[fallbackName[et]].(string)
		}
		r[et] = n
	}
	return r
}

// included judges if the entity is part of the collection.
func (c *collectFed) included(t *fed.Token, id string, req apimodel.EntityCollectionRequest, t0, t1 time.Time) fed.Verdict {
	if req.EntityTypes != nil {
		ok := false
		for _, et := range fed.EntityTypes(t) {
			ok = ok || contains(req.EntityTypes, et)
		}
		if !ok {
			return fed.No
		}
	}
	if req.NameQuery != "" {
		ok := false
		for _, n := range displayNames(t) {
			ok = ok || subsequence(req.NameQuery, n)
		}
		if !ok {
			return fed.No
		}
	}
	v := fed.Yes
	for _, mt := range req.TrustMarkTypes {
		best := fed.No
		for _, m := range c.infos[id] {
			if m.Type != mt {
				continue
			}
			if x := c.markVerdict(m, id, req.TrustAnchor, t0, t1); x > best {
				best = x
			}
		}
		v = fed.And(v, best)
	}
	return v
}

func (c *collectFed) markVerdict(m fed.MarkInfo, holder, ta string, t0, t1 time.Time) fed.Verdict {
	anchor := c.served(ta)
	if anchor == nil {
		return fed.No
	}
	v, _ := fed.FederationVerdict(c.w, m.Raw, anchor, t0, t1)
	iv := infoVerdict{v, "", sameType(m)}
	v = iv.eff()
	if t, err := fed.Decode(m.Raw); err != nil || t.Str("sub") != holder {
		return fed.No
	}
	return v
}

// wantUI is the expected ui_infos.
func wantUI(t *fed.Token, claims []string) map[string]any {
	asked := func(c string) bool { return claims == nil || contains(claims, c) }
	out := map[string]any{}
	set := func(et, c string, v any) {
		m, _ := out[et].(map[string]any)
		if m == nil {
			m = map[string]any{}
			out[et] = m
		}
		m[c] = v
	}
	for et, n := range displayNames(t) {
		if n != "" && asked("display_name") {
			set(et, "display_name", n)
		}
	}
	for _, et := range knownTypes {
		m, _ := meta(t)[et].(map[string]any)
		for _, u := range uiStrings {
			if s, _ := m[u].(string); s != "" && asked(u) {
				set(et, u, s)
			}
		}
		if l, _ := m["keywords"].([]any); len(l) > 0 && asked("keywords") {
			set(et, "keywords", l)
		}
	}
	return out
}

func strMarks(e *oidfed.CollectedEntity) (r []string) {
	for _, m := range e.TrustMarks {
		r = append(r, m.TrustMarkJWT)
	}
	return
}

// chainsOf asks the reference resolver.
func (c *collectFed) chainsOf(id, ta string, t0, t1 time.Time) []fed.ModelChain {
	m := &fed.Model{W: c.w, Anchors: []fed.Anchor{{ID: ta}}, T0: t0, T1: t1}
	return m.Chains(id)
}

// chainMeta is the metadata that results from a chain.
func chainMeta(raw []string) (map[string]any, error) {
	var ps []fed.Policies
	for i := len(raw) - 2; i > 0; i-- {
		t, _ := fed.Decode([]byte(raw[i]))
		if p, ok := t.Claims["metadata_policy"]; ok {
			var x fed.Policies
			if err := json.Unmarshal(fed.MustJSON(p), &x); err != nil {
				return nil, err
			}
			ps = append(ps, x)
		}
	}
	p, err := fed.MergePolicies(ps...)
	if err != nil {
		return nil, err
	}
	t, _ := fed.Decode([]byte(raw[0]))
	m, _ := generic(meta(t)).(map[string]any)
	return fed.ApplyPolicies(m, p)
}

// validMeta gives the verdict whether there is a chain with valid metadata and the metadata of the chains that the
// library may choose (nil: undecided).
func (c *collectFed) validMeta(id, ta string, t0, t1 time.Time) (fed.Verdict, []map[string]any) {
	v := fed.No
	var ms []map[string]any
	for _, ch := range c.chainsOf(id, ta, t0, t1) {
		m, err := chainMeta(ch.Raw)
		if err != nil {
			continue
		}
		if ch.V > v {
			v = ch.V
		}
		ms = append(ms, m)
	}
	return v, ms
}

func randRequest(k *rt.Case, c *collectFed) apimodel.EntityCollectionRequest {
	r := k.Rng
	req := apimodel.EntityCollectionRequest{TrustAnchor: c.ta.ID}
	if fed.Chance(r, 0.3) {
		for i := 0; i <= r.Intn(2); i++ {
			req.EntityTypes = append(req.EntityTypes, fed.Pick(r, append([]string{"custom_entity", "unknown"}, knownTypes...)...))
		}
	}
	if fed.Chance(r, 0.3) {
		req.NameQuery = fed.Pick(r, "a", "alpha", "LOGIN", "zz", "Foo", "tal", "ed", "http", "BETA", "Foo University")
	}
	if fed.Chance(r, 0.3) {
		for i := 0; i <= r.Intn(2); i++ {
			req.TrustMarkTypes = append(req.TrustMarkTypes, fed.Pick(r, c.marks.Types...))
		}
	}
	if fed.Chance(r, 0.5) {
		req.Claims = []string{}
		for _, cl := range append([]string{"entity_types", "display_name", "keywords", "trust_marks", "trust_chain", "metadata"}, uiStrings...) {
			if fed.Chance(r, 0.4) {
				req.Claims = append(req.Claims, cl)
			}
		}
	}
	return req
}

// compare checks a collection; full tells whether everything must be there.
func (c *collectFed) compare(how string, got []*oidfed.CollectedEntity, want map[string]*fed.Token, req apimodel.EntityCollectionRequest,
	extra func(id string) fed.Verdict, t0, t1 time.Time, full bool) {
	k := c.k
	det := func(id string) map[string]any {
		return map[string]any{"how": how, "request": generic(req), "entity": id}
	}
	seen := map[string]bool{}
	for _, e := range got {
		if e == nil {
			k.Violation("a collection contains nothing as an entity", det(""))
			continue
		}
		if seen[e.EntityID] {
			k.Violation("an entity is collected twice", det(e.EntityID))
			continue
		}
		seen[e.EntityID] = true
		t := want[e.EntityID]
		if t == nil {
			k.Violation("an entity is collected that is not listed in the federation", det(e.EntityID))
			continue
		}
		if c.included(t, e.EntityID, req, t0, t1) == fed.No {
			k.Violation("an entity is collected that does not match the request", det(e.EntityID))
			continue
		}
		if extra != nil && extra(e.EntityID) == fed.No {
			k.Violation("an entity passes a filter that it does not match", det(e.EntityID))
			continue
		}
		c.entity(e, t, req, det(e.EntityID), t0, t1)
	}
	n := 0
	for id, t := range want {
		v := c.included(t, id, req, t0, t1)
		if extra != nil && v != fed.No {
			v = fed.And(v, extra(id))
		}
		if v == fed.Yes {
			n++
			if full && !seen[id] {
				k.Violation("an entity of the federation is missing", det(id))
			}
		}
	}
	k.Count("entities_collected", len(got))
	k.Eval(fmt.Sprintf("%s/%d/%d/%v/%v/%v/%v", how, len(want), n, req.EntityTypes, req.NameQuery, len(req.TrustMarkTypes), req.Claims))
}

// entity checks what is said about an entity.
func (c *collectFed) entity(e *oidfed.CollectedEntity, t *fed.Token, req apimodel.EntityCollectionRequest, det map[string]any, t0, t1 time.Time) {
	k := c.k
	g, _ := generic(e).(map[string]any)
	det["got"] = g
	asked := func(cl string) bool { return req.Claims == nil || contains(req.Claims, cl) }
	if asked("entity_types") {
		have := append([]string(nil), e.EntityTypes...)
		wantT := fed.EntityTypes(t)
		sort.Strings(have)
		sort.Strings(wantT)
		if !reflect.DeepEqual(have, wantT) && len(have)+len(wantT) > 0 {
			k.Violation("an entity is collected with wrong entity types", det)
		}
	} else if len(e.EntityTypes) > 0 {
		k.Violation("entity types are given although not asked for", det)
	}
	ui, _ := g["ui_infos"].(map[string]any)
	known := map[string]any{}
	for _, et := range knownTypes {
		if x, ok := ui[et]; ok {
			known[et] = x
		}
	}
	w := generic(wantUI(t, req.Claims))
	if !reflect.DeepEqual(any(known), w) {
		det["want"] = w
		k.Violation("an entity is collected with wrong ui infos", det)
	}
	for et, x := range e.UIInfos {
		if m, ok := ui[et].(map[string]any); ok && x.DisplayName != str(m["display_name"]) || x.Description != str(ui[et].(map[string]any)["description"]) ||
			x.LogoURI != str(ui[et].(map[string]any)["logo_uri"]) || x.PolicyURI != str(ui[et].(map[string]any)["policy_uri"]) ||
			x.InformationURI != str(ui[et].(map[string]any)["information_uri"]) || len(x.Keywords) != len(asSet(ui[et].(map[string]any)["keywords"])) {
			k.Violation("ui infos do not have their values in their fields", det)
			break
		}
	}
	// trust marks
	marks := map[string]bool{}
	for _, j := range strMarks(e) {
		marks[j] = true
	}
	claimed := req.Claims != nil && contains(req.Claims, "trust_marks")
	if !claimed && len(marks) > 0 {
		k.Violation("trust marks are given although not asked for", det)
	}
	if claimed {
		for _, m := range c.infos[e.EntityID] {
			v := c.markVerdict(m, e.EntityID, req.TrustAnchor, t0, t1)
			if v == fed.Yes && !marks[string(m.Raw)] {
				det["mark"] = string(m.Raw)
				k.Violation("a valid trust mark is missing", det)
			}
			if v == fed.No && marks[string(m.Raw)] {
				// the same token may be published twice, once with a wrong type
				twice := false
				for _, o := range c.infos[e.EntityID] {
					twice = twice || string(o.Raw) == string(m.Raw) && c.markVerdict(o, e.EntityID, req.TrustAnchor, t0, t1) != fed.No
				}
				if !twice {
					det["mark"], det["mutation"] = string(m.Raw), m.Mut
					k.Violation("a trust mark is reported that is not valid", det)
				}
			}
		}
		k.Count("trust_marks_reported", len(marks))
	}
	// chain
	var raw []string
	_ = json.Unmarshal(fed.MustJSON(e.TrustChain), &raw)
	if req.Claims == nil || !contains(req.Claims, "trust_chain") {
		if len(raw) > 0 {
			k.Violation("a trust chain is given although not asked for", det)
		}
		return
	}
	model := c.chainsOf(e.EntityID, req.TrustAnchor, t0, t1)
	best := fed.No
	found := len(raw) == 0
	for _, x := range model {
		m, err := chainMeta(x.Raw)
		_ = m
		if err == nil && x.V > best {
			best = x.V
		}
		if len(raw) > 0 && x.Key() == strings.Join(raw, "\n") && err == nil {
			found = true
		}
	}
	if best == fed.Yes && len(raw) == 0 {
		k.Violation("a trust chain is missing", det)
	}
	if !found {
		det["chain"] = idsOf(raw)
		k.Violation("a trust chain is reported that is not valid", det)
	}
	if len(raw) > 0 {
		k.Count("chains_reported", 1)
	}
}

func str(v any) string {
	s, _ := v.(string)
	return s
}

func never(string) bool { return false }

// collectCase collects with a random request.
func collectCase(k *rt.Case) {
	c := genCollect(k, collectOpts(k.Rng))
	defer c.w.Close()
	want := c.reach(c.ta.ID, never)
	col := &oidfed.SimpleEntityCollector{}
	for i := 0; i < 2; i++ {
		req := randRequest(k, c)
		t0 := time.Now()
		got := col.CollectEntities(req)
		c.compare("SimpleEntityCollector", got, want, req, nil, t0, time.Now(), true)
	}
	req := randRequest(k, c)
	t0 := time.Now()
	got := (&oidfed.SimpleOPCollector{}).CollectEntities(req)
	req.EntityTypes = []string{"openid_provider"}
	c.compare("SimpleOPCollector", got, want, req, nil, t0, time.Now(), true)
	// one collector used at once
	var wg sync.WaitGroup
	reqs := make([]apimodel.EntityCollectionRequest, 3)
	res := make([][]*oidfed.CollectedEntity, 3)
	for i := range reqs {
		reqs[i] = randRequest(k, c)
	}
	t0 = time.Now()
	for i := range reqs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res[i] = col.CollectEntities(reqs[i])
		}()
	}
	wg.Wait()
	t1 := time.Now()
	for i := range reqs {
		c.compare("concurrent", res[i], want, reqs[i], nil, t0, t1, true)
	}
	k.Sample(map[string]any{"case": k.Name, "reachable": len(want), "request": generic(req)})
}

type namedFilter struct {
	name string
	f    oidfed.EntityCollectionFilter
	want func(m map[string]any, e *fed.Token) bool
}

func opHas(claim string, need ...string) func(map[string]any, *fed.Token) bool {
	return func(m map[string]any, _ *fed.Token) bool {
		op, ok := m["openid_provider"].(map[string]any)
		if !ok {
			return false
		}
		have := asSet(op[claim])
		for _, n := range need {
			if !isSubset([]any{n}, have) {
				return false
			}
		}
		return true
	}
}

// filterCase collects through filters.
func filterCase(k *rt.Case) {
	r := k.Rng
	c := genCollect(k, collectOpts(r))
	defer c.w.Close()
	// break chains
	for i := r.Intn(3); i > 0; i-- {
		var ss []*fed.Stmt
		for _, n := range c.f.Nodes {
			for id, s := range n.About {
				if id != n.ID {
					ss = append(ss, s)
				}
			}
		}
		if len(ss) > 0 {
			sort.Slice(ss, func(i, j int) bool {
				return fmt.Sprint(ss[i].Claims["iss"], ss[i].Claims["sub"]) < fmt.Sprint(ss[j].Claims["iss"], ss[j].Claims["sub"])
			})
			c.f.MutateStmt(fed.Mutations[r.Intn(len(fed.Mutations))], ss[r.Intn(len(ss))])
		}
	}
	c.f.Publish()
	tas := []string{c.ta.ID}
	all := []namedFilter{
		{"ops", oidfed.EntityCollectionFilterOPs(), nil},
		{"explicit", oidfed.EntityCollectionFilterOPSupportsExplicitRegistration(tas), opHas("client_registration_types_supported", "explicit")},
		{"automatic", oidfed.EntityCollectionFilterOPSupportsAutomaticRegistration(tas), opHas("client_registration_types_supported", "automatic")},
	}
	g := fed.Pick(r, []string{"refresh_token"}, []string{"authorization_code", "refresh_token"}, nil, []string{"x"})
	all = append(all, namedFilter{"grants", oidfed.EntityCollectionFilterOPSupportedGrantTypesIncludes(tas, g...), opHas("grant_types_supported", g...)})
	s := fed.Pick(r, []string{"openid"}, []string{"profile", "openid"}, []string{"email"}, []string{"openid", "openid"})
	all = append(all, namedFilter{"scopes", oidfed.EntityCollectionFilterOPSupportedScopesIncludes(tas, s...), opHas("scopes_supported", s...)})
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	all = all[:r.Intn(3)]
	req := randRequest(k, c)
	for _, f := range all {
		if f.name == "ops" && req.Claims != nil && !contains(req.Claims, "entity_types") {
			req.Claims = append(req.Claims, "entity_types")
		}
	}
	want := c.reach(c.ta.ID, never)
	t0 := time.Now()
	var got []*oidfed.CollectedEntity
	how := "Filterable"
	if len(all) == 0 && fed.Chance(r, 0.5) {
		how = "VerifiedChains"
		got = oidfed.VerifiedChainsEntityCollector{}.CollectEntities(req)
	} else {
		col := oidfed.FilterableVerifiedChainsEntityCollector{}
		if fed.Chance(r, 0.4) {
			col.Collector = &oidfed.SimpleEntityCollector{}
		} else if fed.Chance(r, 0.2) {
			col.Collector = &oidfed.SimpleOPCollector{}
		}
		for _, f := range all {
			col.Filters = append(col.Filters, f.f)
			how += "+" + f.name
		}
		n := len(col.Filters)
		got = col.CollectEntities(req)
		if len(col.Filters) != n {
			k.Violation("collecting changes the filters", nil)
		}
		if _, ok := col.Collector.(*oidfed.SimpleOPCollector); ok {
			req.EntityTypes = []string{"openid_provider"}
		}
	}
	t1 := time.Now()
	c.compare(
		how, got, want, req, func(id string) fed.Verdict {
			v, ms := c.validMeta(id, c.ta.ID, t0, t1)
			if v == fed.No {
				return v
			}
			for _, f := range all {
				if f.want == nil {
					if _, ok := meta(want[id])["openid_provider"]; !ok {
						return fed.No
					}
					continue
				}
				y, n := 0, 0
				for _, m := range ms {
					if f.want(m, want[id]) {
						y++
					} else {
						n++
					}
				}
				if y == 0 {
					return fed.No
				}
				if n > 0 {
					v = fed.And(v, fed.Maybe)
				}
			}
			return v
		}, t0, t1, true,
	)
}

// collectFaults collects while servers fail and again after they recovered.
func collectFaults(k *rt.Case) {
	r := k.Rng
	o := collectOpts(r)
	o.Mids = 2 + r.Intn(4)
	c := genCollect(k, o)
	defer c.w.Close()
	faulty := map[string]*fed.Resp{}
	bad := func() *fed.Resp {
		switch r.Intn(8) {
		case 0:
			return &fed.Resp{Status: 500, Type: "text/plain", Body: []byte("oops")}
		case 1:
			return &fed.Resp{Status: 404, Type: "text/html", Body: []byte("<html>not here</html>")}
		case 2:
			return &fed.Resp{Status: 503, Type: "application/json", Body: []byte(`{"error":"temporarily_unavailable"}`)}
		case 3:
			return &fed.Resp{Drop: true}
		case 4:
			return &fed.Resp{Status: 200, Type: "application/json", Body: []byte(`["http://cut`)}
		case 5:
			return &fed.Resp{Status: 500, Type: "application/json", Body: []byte(`{"message":"internal"}`)}
		case 6:
			return &fed.Resp{Status: 502, Type: "application/json", Body: []byte(`[]`)}
		}
		return &fed.Resp{Status: 200, Type: "application/json", Body: []byte(`{"error":"not a list"}`)}
	}
	p := 0.1 + 0.5*r.Float64()
	for _, n := range c.f.Nodes {
		if n.Level < 9 && fed.Chance(r, p) {
			faulty[n.ListEP()] = bad()
		}
		if fed.Chance(r, p/3) {
			faulty[fed.ECURL(n.ID)] = bad()
		}
	}
	for _, u := range slices.Sorted(maps.Keys(faulty)) {
		if b := c.w.Get(u, ""); b != nil && fed.Chance(r, 0.15) {
			// an error all the same
			faulty[u] = &fed.Resp{Status: fed.Pick(r, 403, 404, 500, 503), Type: b.Type, Body: b.Body}
		}
	}
	c.w.SetFault(func(q fed.Req) *fed.Resp {
		ep, _ := q.Endpoint()
		return faulty[ep]
	})
	during := c.reach(c.ta.ID, func(u string) bool { return faulty[u] != nil })
	full := c.reach(c.ta.ID, never)
	req := apimodel.EntityCollectionRequest{TrustAnchor: c.ta.ID}
	t0 := time.Now()
	got := (&oidfed.SimpleEntityCollector{}).CollectEntities(req)
	c.compare("faults", got, during, req, nil, t0, time.Now(), true)
	c.w.SetFault(nil)
	t0 = time.Now()
	got = (&oidfed.SimpleEntityCollector{}).CollectEntities(req)
	c.compare("recovered", got, full, req, nil, t0, time.Now(), true)
	k.Count("faulty_urls", len(faulty))
}

// collectWide has more subordinates than workers, and slow servers.
func collectWide(k *rt.Case) {
	r := k.Rng
	w := fed.NewWorld()
	defer w.Close()
	c := &collectFed{k: k, w: w, infos: map[string][]fed.MarkInfo{}}
	c.f = &fed.Fed{W: w, By: map[string]*fed.Node{}, Rng: r}
	key := fed.NewKey("ES256", "k")
	var ids []string
	ec := func(id string, md map[string]any) {
		now := time.Now()
		raw := fed.Sign(
			key, map[string]any{"typ": fed.TypStatement}, map[string]any{
				"iss": id, "sub": id, "iat": now.Unix() - 5, "exp": now.Add(time.Hour).Unix(), "jwks": fed.JWKS(key), "metadata": md,
			},
		)
		w.Put(fed.ECURL(id), "", &fed.Resp{Type: "application/entity-statement+jwt", Body: raw})
	}
	auth := func(id string, l []string) {
		ec(id, map[string]any{"federation_entity": map[string]any{"federation_list_endpoint": id + "/list"}})
		w.Put(id+"/list", "", &fed.Resp{Type: "application/json", Body: fed.MustJSON(l)})
	}
	n := 150 + r.Intn(150)
	mids := 140 + r.Intn(20)
	if fed.Chance(r, 0.5) {
		mids = r.Intn(20)
	}
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("http://e%d.%s", i, w.Suffix)
		ids = append(ids, id)
		ec(id, map[string]any{"openid_provider": map[string]any{"issuer": id}})
	}
	top := append([]string(nil), ids[:n/2]...)
	var ms []string
	for i := 0; i < mids; i++ {
		id := fmt.Sprintf("http://m%d.%s", i, w.Suffix)
		ms = append(ms, id)
	}
	for _, id := range ms {
		l := []string{ids[r.Intn(n)], ids[r.Intn(n)], ms[r.Intn(mids)]}
		auth(id, l)
	}
	top = append(top, ms...)
	r.Shuffle(len(top), func(i, j int) { top[i], top[j] = top[j], top[i] })
	ta := "http://ta." + w.Suffix
	auth(ta, top)
	delay := time.Duration(r.Intn(20)) * time.Millisecond
	w.SetFault(func(q fed.Req) *fed.Resp { return &fed.Resp{Delay: delay} })
	req := apimodel.EntityCollectionRequest{TrustAnchor: ta}
	t0 := time.Now()
	got := (&oidfed.SimpleEntityCollector{}).CollectEntities(req)
	c.compare("wide", got, c.reach(ta, never), req, nil, t0, time.Now(), true)
}

// remoteCollect uses collection endpoints.
func remoteCollect(k *rt.Case) {
	r := k.Rng
	c := genCollect(k, fed.Opts{TAs: 3, Mids: r.Intn(3), Leaves: 1 + r.Intn(3), MaxHints: 2})
	defer c.w.Close()
	// the endpoints
	type endpoint struct {
		url   string
		works bool
		body  []any
	}
	eps := map[string]*endpoint{}
	var tas []string
	for _, n := range c.f.Nodes[:3] {
		tas = append(tas, n.ID)
		if fed.Chance(r, 0.2) {
			continue
		}
		e := &endpoint{url: n.Endpoint("collect"), works: fed.Chance(r, 0.6)}
		fe, _ := n.Meta["federation_entity"].(map[string]any)
		if fe == nil {
			continue
		}
		fe["federation_collection_endpoint"] = e.url
		eps[n.ID] = e
		for i := r.Intn(4); i > 0; i-- {
			x := map[string]any{"entity_id": fmt.Sprintf("http://remote%d.%s", i, w2(c))}
			if fed.Chance(r, 0.5) {
				x["entity_types"] = []any{"openid_provider"}
			}
			if fed.Chance(r, 0.5) {
				x["ui_infos"] = map[string]any{"openid_provider": map[string]any{"display_name": "A", "keywords": []any{"x"}, "other": 1.0}}
			}
			if fed.Chance(r, 0.5) {
				x["trust_marks"] = []any{map[string]any{"trust_mark_type": "t", "trust_mark": "a.b.c"}}
			}
			if fed.Chance(r, 0.5) {
				x["custom"] = map[string]any{"a": []any{1.0}}
			}
			e.body = append(e.body, x)
		}
		if e.works {
			b := e.body
			if b == nil {
				b = []any{}
			}
			c.w.Put(e.url, "", &fed.Resp{Type: "application/json", Body: fed.MustJSON(map[string]any{"federation_entities": b, "last_updated": 1700000000})})
		} else {
			c.w.Put(
				e.url, "", fed.Pick(
					r, &fed.Resp{Status: 400, Type: "application/json", Body: []byte(`{"error":"unsupported_parameter"}`)},
					&fed.Resp{Status: 500, Type: "text/plain", Body: []byte("x")},
					&fed.Resp{Status: 404, Type: "text/html", Body: []byte("<html></html>")},
					&fed.Resp{Drop: true},
					&fed.Resp{Type: "application/json", Body: []byte(`{"federation_entities":[{"entity_id"`)},
					&fed.Resp{Status: 500, Type: "application/json", Body: []byte(`{"federation_entities":[{"entity_id":"http://from.error"}]}`)},
				),
			)
		}
	}
	for _, n := range c.f.Nodes {
		n.EC.Reset()
	}
	c.f.Publish()
	req := randRequest(k, c)
	if fed.Chance(r, 0.3) {
		req.Limit = uint64(r.Intn(100))
		req.FromEntityID = "http://from.example/?a=b&c"
	}
	if fed.Chance(r, 0.3) {
		req.NameQuery = "Foo & Bär +"
	}
	checkQuery := func(q fed.Req) {
		_, params := q.Endpoint()
		bad := func(p string, want ...string) {
			got := params[p]
			if len(want) == 0 && (len(got) == 0 || len(got) == 1 && (got[0] == "" || got[0] == "0")) {
				return
			}
			if !reflect.DeepEqual(got, want) {
				k.Violation("a remote collection is asked for something else", map[string]any{"parameter": p, "got": got, "want": want, "request": generic(req)})
			}
		}
		one := func(s string) []string {
			if s == "" || s == "0" {
				return nil
			}
			return []string{s}
		}
		bad("trust_anchor", one(req.TrustAnchor)...)
		bad("name_query", one(req.NameQuery)...)
		bad("entity_type", req.EntityTypes...)
		bad("trust_mark_type", req.TrustMarkTypes...)
		bad("claims", req.Claims...)
		bad("from_entity_id", one(req.FromEntityID)...)
		bad("limit", one(fmt.Sprint(req.Limit))...)
		for p := range params {
			if !contains([]string{"trust_anchor", "name_query", "entity_type", "trust_mark_type", "claims", "from_entity_id", "limit"}, p) {
				k.Violation("a remote collection is asked with an unknown parameter", map[string]any{"parameter": p})
			}
		}
		k.Count("remote_requests", 1)
	}
	same := func(how string, e *endpoint, got []*oidfed.CollectedEntity) {
		b := e.body
		if b == nil {
			b = []any{}
		}
		l := make([]any, 0)
		for _, x := range got {
			l = append(l, generic(x))
		}
		if !reflect.DeepEqual(any(l), generic(b)) {
			k.Violation("a remote collection is not what the endpoint said", map[string]any{"how": how, "got": l, "want": b})
		}
	}
	for _, e := range eps {
		c.w.ResetRequests()
		got := oidfed.SimpleRemoteEntityCollector{EntityCollectionEndpoint: e.url}.CollectEntities(req)
		for _, q := range c.w.Requests() {
			checkQuery(q)
		}
		if e.works {
			same("simple", e, got)
		} else if len(got) > 0 {
			k.Violation("a failing endpoint gives entities", map[string]any{"got": len(got)})
		}
	}
	// smart
	r.Shuffle(len(tas), func(i, j int) { tas[i], tas[j] = tas[j], tas[i] })
	conf := tas[:r.Intn(4)]
	before := append([]string(nil), tas...)
	c.w.ResetRequests()
	t0 := time.Now()
	got := oidfed.SmartRemoteEntityCollector{TrustAnchors: conf}.CollectEntities(req)
	t1 := time.Now()
	if !reflect.DeepEqual(before, tas) {
		k.Violation("the configured anchors are changed", nil)
	}
	order := []string{req.TrustAnchor}
	for _, t := range conf {
		if t != req.TrustAnchor {
			order = append(order, t)
		}
	}
	var asked []string
	for _, q := range c.w.Requests() {
		if q.Path == "/collect" {
			checkQuery(q)
			u, _ := q.Endpoint()
			if len(asked) == 0 || asked[len(asked)-1] != u {
				asked = append(asked, u)
			}
		}
	}
	var wantAsked []string
	var hit *endpoint
	for _, t := range order {
		if e := eps[t]; e != nil && c.served(t) != nil && meta(c.served(t))["federation_entity"] != nil {
			wantAsked = append(wantAsked, e.url)
			if e.works {
				hit = e
				break
			}
		}
	}
	if !reflect.DeepEqual(asked, wantAsked) {
		k.Violation("the collection endpoints are not asked one after another until one succeeds", map[string]any{"asked": asked, "want": wantAsked})
	}
	if hit != nil {
		same("smart", hit, got)
	} else {
		c.compare("smart local", got, c.reach(c.ta.ID, never), req, nil, t0, t1, true)
	}
	k.Eval(fmt.Sprintf("remote/%d/%v/%d", len(wantAsked), hit != nil, len(conf)))
}

func w2(c *collectFed) string { return c.w.Suffix }

func runC12(c *rt.Ctx) {
	c.Rule = "Random federations (several levels, cycles, entities listed twice or by several superiors, dead and metadata-less entities, " +
		"genuine and forged trust marks, policies, broken chains) are collected with random requests through all collectors and filters, " +
		"under the race detector. The collection must be exactly what an independent walk over the served listings gives, with exactly " +
		"the claims asked for. Faults hit listings and configurations of a first collection; a second one after recovery must be complete. " +
		"Distinct by collector, size of the result and request."
	c.Assume = []string{
		"display names and ui infos of entity types unknown to the library, paging, and the order of results are not judged",
		"EntityCollectionFilterOPs is judged when entity_types are requested",
	}
	c.RunParallel("collect", c.N(300, 9000), collectCase)
	c.RunParallel("filter", c.N(350, 9000), filterCase)
	c.RunParallel("faults", c.N(350, 6000), collectFaults)
	c.RunParallel("remote", c.N(250, 6000), remoteCollect)
	c.Run("wide", c.N(6, 40), collectWide)
	for _, d := range []struct {
		name string
		r    oidfed.MetadataResolver
	}{{"pointer", &oidfed.LocalMetadataResolver{}}, {"smart", oidfed.SmartRemoteMetadataResolver{}}, {"smart pointer", &oidfed.SmartRemoteMetadataResolver{}}} {
		old := oidfed.DefaultMetadataResolver
		oidfed.DefaultMetadataResolver = d.r
		c.RunParallel("collect "+d.name, c.N(40, 800), collectCase)
		c.RunParallel("filter "+d.name, c.N(40, 800), filterCase)
		oidfed.DefaultMetadataResolver = old
	}
	uncached(func() { c.RunParallel("change", c.N(120, 3000), collectChange) })
}
