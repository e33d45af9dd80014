package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/unixtime"

	"github.com/go-oidfed/lib/verifharness/fed"
	"github.com/go-oidfed/lib/verifharness/rt"
)

func init() {
	register("C19", property{run: runC19})
}

// someChain is a chain with what is known about it.
type someChain struct {
	c      oidfed.TrustChain
	anchor string
	exp    int64
	valid  bool // metadata
	id     int
}

func (s *someChain) plen() int {
	if n := len(s.c) - 3; n > 0 {
		return n
	}
	return 0
}

// genSome makes chains of statements that nobody signed; selecting does not depend on signatures.
func genSome(k *rt.Case) (l []*someChain) {
	r := k.Rng
	now := time.Now()
	var shared []*oidfed.EntityStatement
	n := r.Intn(14)
	if fed.Chance(r, 0.15) {
		n = 14 + r.Intn(40)
	}
	for i := 0; i < n; i++ {
		s := &someChain{id: i, anchor: fmt.Sprintf("https://ta%d.example", r.Intn(3)), valid: true, exp: 1 << 40}
		n := fed.Pick(r, 0, 1, 3, 3, 4, 5, 6, 9)
		bad := fed.Chance(r, 0.3)
		for j := 0; j < n; j++ {
			if len(shared) > 0 && j > 0 && j < n-1 && fed.Chance(r, 0.2) {
				e := shared[r.Intn(len(shared))]
				s.c = append(s.c, e)
				s.exp = min(s.exp, e.ExpiresAt.Unix())
				continue
			}
			e := &oidfed.EntityStatement{}
			e.Issuer, e.Subject = fmt.Sprintf("https://i%d.example/%d", j, i), fmt.Sprintf("https://s%d.example/%d", j, i)
			if j < n-1 && fed.Chance(r, 0.1) {
				// an entity that is a trust anchor elsewhere
				e.Subject = fmt.Sprintf("https://ta%d.example", r.Intn(3))
				if j == 0 || fed.Chance(r, 0.5) {
					e.Issuer = e.Subject
				}
			}
			if j == n-1 {
				e.Issuer = s.anchor
				if fed.Chance(r, 0.05) {
					e.Issuer, s.anchor = s.anchor+"/", s.anchor+"/"
				}
				e.Subject = e.Issuer
			}
			exp := now.Unix() + int64(r.Intn(2_000_000)) - 1_000
			if fed.Chance(r, 0.1) {
				exp = 1
			}
			e.ExpiresAt = unixtime.Unixtime{Time: time.Unix(exp, 0)}
			e.IssuedAt = unixtime.Unixtime{Time: now}
			s.exp = min(s.exp, exp)
			if j == 0 {
				e.Metadata = decode[oidfed.Metadata](map[string]any{"openid_relying_party": fed.RPMeta(e.Subject)})
			} else if j < n-1 {
				switch {
				case bad && j == 1:
					s.valid = false
					pol := fed.Pick[any](
						r, map[string]any{"client_name": map[string]any{"one_of": []any{"somebody else"}}},
						map[string]any{"contacts": map[string]any{"essential": true}},
						map[string]any{"redirect_uris": map[string]any{"superset_of": []any{"https://must.example"}}},
						map[string]any{"contacts": map[string]any{"subset_of": []any{"a"}, "superset_of": []any{"b"}}},
					)
					e.MetadataPolicy = decode[oidfed.MetadataPolicies](map[string]any{"openid_relying_party": pol})
				case fed.Chance(r, 0.3):
					e.MetadataPolicy = decode[oidfed.MetadataPolicies](
						map[string]any{"openid_relying_party": map[string]any{"contacts": map[string]any{"default": []any{"a", "b"}, "superset_of": []any{"b"}}}},
					)
					if bad {
						e.MetadataPolicy = nil
					}
				}
				if e.MetadataPolicy == nil && !bad && fed.Chance(r, 0.5) {
					shared = append(shared, e)
				}
			}
			s.c = append(s.c, e)
		}
		if n == 0 {
			s.anchor, s.valid = "", false
		}
		l = append(l, s)
	}
	return
}

func chainsOfSome(l []*someChain) (c oidfed.TrustChains) {
	for _, s := range l {
		c = append(c, s.c)
	}
	return
}

// sameChains compares by identity of the statements.
func sameChains(c oidfed.TrustChains, l []*someChain) bool {
	if len(c) != len(l) {
		return false
	}
	for i := range c {
		if len(c[i]) != len(l[i].c) {
			return false
		}
		for j := range c[i] {
			if c[i][j] != l[i].c[j] {
				return false
			}
		}
	}
	return true
}

func ids(l []*someChain) (r []int) {
	for _, s := range l {
		r = append(r, s.id)
	}
	return
}

// criterion is a filter and what it means.
type criterion struct {
	name string
	f    oidfed.TrustChainsFilter
	keep func(all []*someChain) []*someChain
}

type countChecker struct {
	n    *int
	mu   *sync.Mutex
	pred func(c oidfed.TrustChain) bool
}

func (c countChecker) Check(t oidfed.TrustChain) bool {
	c.mu.Lock()
	*c.n++
	c.mu.Unlock()
	return c.pred(t)
}

func genCriterion(k *rt.Case) criterion {
	r := k.Rng
	each := func(p func(s *someChain) bool) func([]*someChain) []*someChain {
		return func(l []*someChain) (o []*someChain) {
			for _, s := range l {
				if p(s) {
					o = append(o, s)
				}
			}
			return
		}
	}
	switch r.Intn(7) {
	case 0:
		a := fed.Pick(r, "https://ta0.example", "https://ta1.example", "https://ta2.example", "https://ta0.example/", "", "https://nobody.example")
		return criterion{"anchor", oidfed.TrustChainsFilterTrustAnchor(a), each(func(s *someChain) bool { return len(s.c) > 0 && s.anchor == a })}
	case 1:
		return criterion{
			"min", oidfed.TrustChainsFilterMinPathLength, func(l []*someChain) (o []*someChain) {
				m := 1 << 30
				for _, s := range l {
					m = min(m, s.plen())
				}
				return each(func(s *someChain) bool { return s.plen() == m })(l)
			},
		}
	case 2:
		n := fed.Pick(r, 0, 1, 2, 3, 100, -1, -5)
		return criterion{fmt.Sprint("max", n), oidfed.TrustChainsFilterMaxPathLength(n), each(func(s *someChain) bool { return s.plen() <= n })}
	case 3:
		return criterion{"metadata", oidfed.TrustChainsFilterValidMetadata, each(func(s *someChain) bool { return s.valid })}
	case 4:
		n := r.Intn(10)
		p := func(c oidfed.TrustChain) bool { return len(c)%3 == n%3 }
		return criterion{"fnc", oidfed.NewTrustChainsFilterFromCheckerFnc(p), each(func(s *someChain) bool { return p(s.c) })}
	case 5:
		n := 0
		p := func(c oidfed.TrustChain) bool { return c.ExpiresAt().Unix()%2 == 0 }
		return criterion{
			"checker", oidfed.NewTrustChainsFilterFromTrustChainChecker(countChecker{&n, &sync.Mutex{}, p}), each(
				func(s *someChain) bool {
					return len(s.c) > 0 && s.exp%2 == 0 || len(s.c) == 0 && oidfed.TrustChain(nil).ExpiresAt().Unix()%2 == 0
				},
			),
		}
	}
	all := fed.Chance(r, 0.5)
	return criterion{"const", oidfed.NewTrustChainsFilterFromCheckerFnc(func(oidfed.TrustChain) bool { return all }), each(func(*someChain) bool { return all })}
}

func selectCase(k *rt.Case) {
	r := k.Rng
	l := genSome(k)
	in := chainsOfSome(l)
	det := func(want []*someChain, got oidfed.TrustChains, what ...string) map[string]any {
		var d []any
		for _, s := range l {
			d = append(d, map[string]any{"id": s.id, "len": len(s.c), "anchor": s.anchor, "exp": s.exp, "valid": s.valid})
		}
		var g []int
		for _, c := range got {
			for _, s := range l {
				if sameChains(oidfed.TrustChains{c}, []*someChain{s}) {
					g = append(g, s.id)
				}
			}
		}
		return map[string]any{"chains": d, "want": ids(want), "got": g, "by": what}
	}
	for _, s := range l {
		if s.c.PathLen() != s.plen() {
			k.Violation("the path length of a chain is wrong", det(nil, nil, fmt.Sprint(s.id, s.c.PathLen())))
		}
		if e := s.c.ExpiresAt(); len(s.c) > 0 && e.Unix() != s.exp {
			k.Violation("the expiration of a chain is wrong", det(nil, nil, fmt.Sprint(s.id, e.Unix())))
		}
		if len(s.c.Messages()) != len(s.c) {
			k.Violation("the messages of a chain are not its statements", det(nil, nil))
		}
	}
	var crit []criterion
	var fs []oidfed.TrustChainsFilter
	var names []string
	want := l
	for i := 0; i < r.Intn(4); i++ {
		c := genCriterion(k)
		crit = append(crit, c)
		fs = append(fs, c.f)
		names = append(names, c.name)
		if len(want) > 0 {
			want = c.keep(want)
		}
	}
	run := func() {
		got := in.Filter(fs...)
		if !sameChains(got, want) {
			k.Violation("chains are filtered wrongly", det(want, got, names...))
		}
		k.Count("filtered", 1)
	}
	if fed.Chance(r, 0.3) {
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				run()
			}()
		}
		wg.Wait()
	} else {
		run()
		run()
	}
	if len(crit) > 0 {
		c := crit[0]
		if got := c.f.Filter(in); !sameChains(got, c.keep(l)) {
			k.Violation("chains are filtered wrongly", det(c.keep(l), got, c.name))
		}
	}
	if !sameChains(in, l) {
		k.Violation("filtering changes its input", det(l, in, names...))
	}
	// sorting
	score := map[string]func(s *someChain) int{
		"len": func(s *someChain) int { return s.plen() }, "mod": func(s *someChain) int { return len(s.c) % 2 },
		"const": func(*someChain) int { return 7 }, "neg": func(s *someChain) int { return -len(s.c) }, "id": func(s *someChain) int { return s.id },
		"extreme": func(s *someChain) int { return []int{-1 << 63, 1<<63 - 1, 0, -1, 1}[s.id%5] },
	}
	by := fed.Pick(r, "len", "mod", "const", "neg", "id", "extreme")
	scorer := func(c oidfed.TrustChain) int {
		for _, s := range l {
			if sameChains(oidfed.TrustChains{c}, []*someChain{s}) && (len(c) > 0) {
				return score[by](s)
			}
		}
		return 0
	}
	if by == "len" {
		scorer = oidfed.TrustChainScoringPathLen
	} else {
		// chains without statements cannot be told apart
		ok := true
		for _, s := range l {
			ok = ok && len(s.c) > 0
		}
		if !ok {
			by = "const"
			scorer = func(oidfed.TrustChain) int { return 7 }
		}
	}
	desc := fed.Chance(r, 0.5)
	sorted := append([]*someChain(nil), l...)
	sort.SliceStable(
		sorted, func(i, j int) bool {
			a, b := score[by](sorted[i]), score[by](sorted[j])
			if desc {
				return a > b
			}
			return a < b
		},
	)
	cp := append(oidfed.TrustChains(nil), in...)
	var got oidfed.TrustChains
	if desc {
		got = cp.SortDesc(scorer)
	} else {
		got = cp.SortAsc(scorer)
	}
	// chains with the same score may be in any order
	used := make([]bool, len(l))
	var found []*someChain
	for _, c := range got {
		for i, s := range l {
			if !used[i] && sameChains(oidfed.TrustChains{c}, []*someChain{s}) {
				used[i] = true
				found = append(found, s)
				break
			}
		}
	}
	ok := len(got) == len(l) && len(found) == len(l)
	for i := 0; ok && i < len(sorted); i++ {
		ok = score[by](found[i]) == score[by](sorted[i])
	}
	if !ok {
		k.Violation("chains are sorted wrongly", det(sorted, got, by, fmt.Sprint(desc)))
	}
	k.Count("sorted", 1)
	if len(l) > 0 {
		k.Eval(fmt.Sprintf("select/%s/%s/%v/%v", strings.Join(names, ","), by, desc, ids(want)))
	} else {
		k.Eval("")
	}
}

// bestCase resolves federations with several chains some of which do not give valid metadata.
func bestCase(k *rt.Case) {
	r := k.Rng
	o := randOpts(r)
	o.TAs, o.Mids, o.MaxHints = 1+r.Intn(3), 2+r.Intn(4), 3
	w := fed.NewWorld()
	defer w.Close()
	f := fed.NewFed(r, w, o)
	pols := []fed.Policies{
		{"openid_relying_party": {"client_name": {"one_of": []any{"somebody else"}}}, "openid_provider": {"organization_name": {"one_of": []any{"other"}}}},
		{"openid_relying_party": {"contacts": {"default": []any{"a"}}}, "openid_provider": {"contacts": {"default": []any{"a"}}}},
		{"openid_relying_party": {"contacts": {"default": []any{"b"}}}, "openid_provider": {"contacts": {"default": []any{"b"}}}},
		{"openid_relying_party": {"contacts": {"add": []any{"c"}}}, "openid_provider": {"contacts": {"add": []any{"c"}}}},
		{"openid_relying_party": {"contacts": {"essential": true}}, "openid_provider": {"contacts": {"essential": true}}},
		{"openid_relying_party": {"contacts": {"subset_of": []any{"a", "b"}}}, "openid_provider": {"contacts": {"subset_of": []any{"a", "b"}}}},
	}
	p := fed.Pick(r, 0.1, 0.3, 0.5)
	for _, n := range f.Nodes {
		for _, x := range f.Nodes {
			if s := n.About[x.ID]; s != nil && fed.Chance(r, p) {
				s.Claims["metadata_policy"] = generic(pols[r.Intn(len(pols))])
			}
		}
	}
	f.Publish()
	start := f.Nodes[len(f.Nodes)-1-r.Intn(o.Leaves)].ID
	var anchors []fed.Anchor
	var ids []string
	for _, n := range f.Nodes {
		if n.Level == 0 {
			anchors = append(anchors, fed.Anchor{ID: n.ID})
			ids = append(ids, n.ID)
		}
	}
	m := &fed.Model{W: w, Anchors: anchors, T0: time.Now()}
	tr := oidfed.TrustResolver{TrustAnchors: toAnchors(anchors), StartingEntity: start}
	all := tr.ResolveToValidChainsWithoutVerifyingMetadata()
	tr2 := oidfed.TrustResolver{TrustAnchors: toAnchors(anchors), StartingEntity: start}
	valid := tr2.ResolveToValidChains()
	req := apimodel.ResolveRequest{Subject: start, TrustAnchor: ids}
	meta, err := oidfed.LocalMetadataResolver{}.Resolve(req)
	pl, err2 := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(req)
	m.T1 = time.Now()
	metas := map[string]map[string]any{}
	short, nvalid := 1<<30, 0
	keys := map[string]bool{}
	for _, c := range m.Chains(start) {
		if keys[c.Key()] {
			continue
		}
		keys[c.Key()] = true
		md, e := chainMeta(c.Raw)
		if e != nil {
			k.Count("invalid_metadata", 1)
			continue
		}
		metas[c.Key()] = md
		nvalid++
		short = min(short, max(3, len(c.Raw)))
	}
	det := map[string]any{"start": start, "chains": len(keys), "valid": nvalid}
	vk := map[string]bool{}
	for _, c := range valid {
		key := strings.Join(rawChain(c), "\n")
		vk[key] = true
		if metas[key] == nil {
			det["chain"] = idsOf(rawChain(c))
			k.Violation("a chain without valid metadata is returned", det)
		}
	}
	for key := range metas {
		if !vk[key] {
			det["chain"] = idsOf(strings.Split(key, "\n"))
			k.Violation("a chain with valid metadata is not returned", det)
		}
	}
	for i, c := range all.Filter(oidfed.TrustChainsFilterValidMetadata) {
		if metas[strings.Join(rawChain(c), "\n")] == nil {
			k.Violation("a chain without valid metadata passes the filter", det)
		}
		_ = i
	}
	for _, a := range ids {
		n := 0
		for key := range vk {
			l := strings.Split(key, "\n")
			if t, e := fed.Decode([]byte(l[len(l)-1])); e == nil && t.Str("iss") == a {
				n++
			}
		}
		if got := chainKeys(valid.Filter(oidfed.TrustChainsFilterTrustAnchor(a))); len(got) != n {
			det["anchor"] = a
			k.Violation("the chains to an anchor are not selected", det)
		}
	}
	switch {
	case nvalid == 0:
		if err == nil || err2 == nil || meta != nil {
			k.Violation("metadata although no chain gives valid metadata", det)
		}
	case err != nil || err2 != nil:
		det["err"] = fmt.Sprint(err, err2)
		k.Violation("no metadata although a chain gives valid metadata", det)
	default:
		var raw []string
		data, _ := json.Marshal(pl.TrustChain)
		_ = json.Unmarshal(data, &raw)
		want := metas[strings.Join(raw, "\n")]
		det["chain"] = idsOf(raw)
		switch {
		case want == nil:
			k.Violation("metadata from a chain that does not give valid metadata", det)
		case max(3, len(raw)) > short:
			k.Violation("not the shortest chain with valid metadata is used", det)
		case fed.CanonMeta(generic(pl.Metadata), exactClaim) != fed.CanonMeta(want, exactClaim):
			det["got"], det["want"] = generic(pl.Metadata), want
			k.Violation("the metadata is not that of the chain", det)
		}
		var some bool
		for key, x := range metas {
			some = some || max(3, len(strings.Split(key, "\n"))) == short && fed.CanonMeta(generic(meta), exactClaim) == fed.CanonMeta(x, exactClaim)
		}
		if !some {
			det["got"] = generic(meta)
			k.Violation("the metadata is not that of a shortest chain", det)
		}
		if s := pl.Metadata; s == nil || reflect.ValueOf(*s).IsZero() {
			k.Count("empty_metadata", 1)
		}
	}
	k.Count("resolved", 1)
	k.Count("valid_chains", nvalid)
	k.Eval(fmt.Sprintf("best/%d/%d/%d", len(keys), nvalid, short))
}

func runC19(c *rt.Ctx) {
	c.Rule = "Random lists of chains (lengths 0 to 9, shared statements, anchors, lifetimes, valid and invalid metadata) are filtered with random " +
		"sequences of all filters and own predicates, concurrently too, and sorted with scores that tie, repeat and are extreme; results are compared " +
		"by identity with a straightforward reference. Federations with many chains and partly conflicting policies are resolved and the chains and " +
		"metadata compared with the reference resolver and policy model. Trust marks are found by type and by predicates. Distinct by filters, scores, result, number of chains."
	c.Assume = []string{"chains with at most three statements have no intermediates"}
	c.RunParallel("select", c.N(12000, 400000), selectCase)
	c.RunParallel("best", c.N(1500, 40000), bestCase)
	c.RunParallel("find", c.N(2000, 40000), findCase)
}

// findCase: the first trust mark that matches is found.
func findCase(k *rt.Case) {
	r := k.Rng
	var l oidfed.TrustMarkInfos
	for i := r.Intn(9); i > 0; i-- {
		l = append(
			l, oidfed.TrustMarkInfo{
				TrustMarkType: fmt.Sprintf("https://type%d.example", r.Intn(4)), TrustMarkJWT: fmt.Sprintf("jwt%d", len(l)),
				Extra: map[string]any{"n": len(l)},
			},
		)
	}
	before := append(oidfed.TrustMarkInfos(nil), l...)
	id := fmt.Sprintf("https://type%d.example", r.Intn(5))
	limit := r.Intn(6)
	suits := func(m oidfed.TrustMarkInfo) bool { return m.TrustMarkType >= id && m.Extra["n"].(int) >= limit }
	first := func(f func(oidfed.TrustMarkInfo) bool) string {
		for _, m := range before {
			if f(m) {
				return m.TrustMarkType + " " + m.TrustMarkJWT
			}
		}
		return "none"
	}
	name := func(m *oidfed.TrustMarkInfo) string {
		if m == nil {
			return "none"
		}
		return m.TrustMarkType + " " + m.TrustMarkJWT
	}
	for what, pair := range map[string][2]string{
		"FindByID": {name(l.FindByID(id)), first(func(m oidfed.TrustMarkInfo) bool { return m.TrustMarkType == id })},
		"Find":     {name(l.Find(suits)), first(suits)},
	} {
		if pair[0] != pair[1] {
			k.Violation("another trust mark is found", map[string]any{"by": what, "found": pair[0], "expected": pair[1], "marks": len(l)})
		}
		k.Count(what, 1)
	}
	if !reflect.DeepEqual(l, before) {
		k.Violation("finding a trust mark changes the list", nil)
	}
	k.Eval(fmt.Sprintf("find/%d/%s/%d", len(l), id, limit))
}
