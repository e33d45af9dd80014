package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/cache"

	"github.com/go-oidfed/lib/verifharness/fed"
	"github.com/go-oidfed/lib/verifharness/rt"
)

func init() {
	register("C06", property{run: runC06})
	register("C07", property{run: runC07})
	register("C08", property{run: runC08, race: true})
}

type claimSpec struct {
	name, kind string // kind: str list bool num scope
	exact      bool   // not a field of the library's struct: empty values are kept
}

var extraClaims = []claimSpec{
	{"x_str", "str", true}, {"x_list", "list", true}, {"x_num", "num", true}, {"x_bool", "bool", true},
}

var rpClaims = []claimSpec{
	{"client_name", "str", false}, {"logo_uri", "str", false}, {"id_token_signed_response_alg", "str", false},
	{"grant_types", "list", false}, {"contacts", "list", false}, {"response_types", "list", false},
	{"redirect_uris", "list", false}, {"require_auth_time", "bool", false}, {"default_max_age", "num", false},
	{"scope", "scope", false},
}

var opClaims = []claimSpec{
	{"organization_name", "str", false}, {"issuer", "str", false}, {"grant_types_supported", "list", false},
	{"contacts", "list", false}, {"scopes_supported", "list", false}, {"claims_parameter_supported", "bool", false},
	{"response_types_supported", "list", false}, {"id_token_signing_alg_values_supported", "list", false},
}

var policyTypes = map[string][]claimSpec{
	"openid_relying_party":       rpClaims,
	"oauth_client":               rpClaims,
	"openid_provider":            opClaims,
	"oauth_authorization_server": opClaims,
	"federation_entity": {
		{"organization_name", "str", false}, {"contacts", "list", false}, {"keywords", "list", false},
		{"policy_uri", "str", false},
	},
	"oauth_resource": {
		{"resource_name", "str", false}, {"authorization_servers", "list", false}, {"scopes_supported", "list", false},
	},
	"custom_entity": nil,
	"custom_other":  nil,
}

var policyTypeNames = []string{
	"openid_relying_party", "oauth_client", "openid_provider", "oauth_authorization_server", "federation_entity",
	"oauth_resource", "custom_entity", "custom_other",
}

func claimsOf(t string) []claimSpec {
	return append(append([]claimSpec{}, policyTypes[t]...), extraClaims...)
}

func exactClaim(t, c string) bool {
	return strings.HasPrefix(t, "custom_") || strings.HasPrefix(c, "x_")
}

var words = []any{"alpha", "beta", "gamma", "delta", "epsilon"}

func sub(r *rand.Rand, lo, hi int) []any {
	n := lo + r.Intn(hi-lo+1)
	out := []any{}
	for _, i := range r.Perm(len(words))[:n] {
		out = append(out, words[i])
	}
	return out
}

func wordString(r *rand.Rand, lo, hi int) string {
	var ss []string
	for _, w := range sub(r, lo, hi) {
		ss = append(ss, w.(string))
	}
	return strings.Join(ss, " ")
}

// claimValue is a value as it may stand in metadata.
func claimValue(r *rand.Rand, s claimSpec) any {
	switch s.kind {
	case "str":
		return words[r.Intn(4)]
	case "bool":
		return fed.Chance(r, 0.5)
	case "num":
		return float64(fed.Pick(r, 0, 1, 300, 86400))
	case "scope":
		return wordString(r, 1, 4)
	}
	if fed.Chance(r, 0.06) {
		return []any{}
	}
	l := sub(r, 1, 5)
	if fed.Chance(r, 0.05) {
		l = append(l, l[0])
	}
	return l
}

// operand is an operand for op.
func operand(r *rand.Rand, s claimSpec, op string) any {
	switch op {
	case "essential":
		return fed.Chance(r, 0.6)
	case "value":
		if fed.Chance(r, 0.08) {
			return nil
		}
		fallthrough
	case "default":
		if s.kind == "scope" && fed.Chance(r, 0.5) {
			return sub(r, 1, 4)
		}
		return claimValue(r, s)
	case "one_of":
		l := []any{}
		for i := 0; i <= r.Intn(3); i++ {
			l = append(l, claimValue(r, s))
		}
		return dedup(l)
	case "subset_of":
		return sub(r, 1, 5)
	case "superset_of":
		return sub(r, 1, 2)
	case "add":
		return sub(r, 1, 2)
	}
	return "whatever"
}

func dedup(l []any) []any {
	out := []any{}
	for _, x := range l {
		dup := false
		for _, y := range out {
			dup = dup || reflect.DeepEqual(x, y)
		}
		if !dup {
			out = append(out, x)
		}
	}
	return out
}

func opsFor(s claimSpec) []string {
	switch s.kind {
	case "list":
		return []string{"value", "add", "add", "default", "subset_of", "subset_of", "superset_of", "superset_of", "essential"}
	case "scope":
		return []string{"value", "add", "default", "subset_of", "superset_of", "essential", "one_of"}
	}
	return []string{"value", "default", "one_of", "one_of", "essential"}
}

func genEntry(r *rand.Rand, s claimSpec) fed.PolicyEntry {
	e := fed.PolicyEntry{}
	if (s.kind == "list" || s.kind == "scope") && fed.Chance(r, 0.5) {
		// a consistent combination: required within allowed
		all := sub(r, 2, 5)
		pick := func(p float64) []any {
			l := []any{}
			for _, x := range all {
				if fed.Chance(r, p) {
					l = append(l, x)
				}
			}
			if len(l) == 0 {
				l = append(l, all[0])
			}
			return l
		}
		if fed.Chance(r, 0.7) {
			e["subset_of"] = all
		}
		if fed.Chance(r, 0.3) {
			e["add"] = pick(0.4)
			if fed.Chance(r, 0.5) {
				e["superset_of"] = e["add"]
			}
		}
		if fed.Chance(r, 0.3) {
			e["default"] = pick(0.6)
		}
		if fed.Chance(r, 0.3) {
			e["essential"] = fed.Chance(r, 0.4)
		}
		return e
	}
	ops := opsFor(s)
	for i := 0; i <= r.Intn(3); i++ {
		op := ops[r.Intn(len(ops))]
		e[op] = operand(r, s, op)
	}
	if fed.Chance(r, 0.8) { // mostly consistent combinations
		if x, ok := e["subset_of"]; ok {
			for _, op := range []string{"add", "value", "superset_of"} {
				if y, ok := e[op].([]any); ok {
					if z := inter(y, x.([]any)); len(z) > 0 {
						e[op] = z
					}
				}
			}
		}
		if _, ok := e["one_of"]; ok {
			delete(e, "add")
			delete(e, "subset_of")
			delete(e, "superset_of")
		}
	}
	return e
}

func inter(a, b []any) []any {
	out := []any{}
	for _, x := range a {
		for _, y := range b {
			if reflect.DeepEqual(x, y) {
				out = append(out, x)
				break
			}
		}
	}
	return out
}

// policyCase is metadata and policies from the anchor down.
type policyCase struct {
	types    []string
	meta     map[string]any
	policies []fed.Policies
	crit     [][]any
	ops      map[string]bool
	// asValue: the metadata was not decoded
	asValue bool
}

// genPolicies makes a chain of n policies for the entity types of the metadata; similar bounds how much they conflict.
func genPolicies(r *rand.Rand, n int, density float64) *policyCase {
	pc := &policyCase{meta: map[string]any{}, ops: map[string]bool{}}
	for _, i := range r.Perm(len(policyTypeNames))[:1+r.Intn(3)] {
		pc.types = append(pc.types, policyTypeNames[i])
	}
	sort.Strings(pc.types)
	for i := 0; i < n; i++ {
		pc.policies = append(pc.policies, fed.Policies{})
		pc.crit = append(pc.crit, nil)
	}
	for _, t := range pc.types {
		m := map[string]any{}
		for _, s := range claimsOf(t) {
			if fed.Chance(r, 0.5) {
				m[s.name] = claimValue(r, s)
			}
			if !fed.Chance(r, density) {
				continue
			}
			// the policies for this claim
			base := genEntry(r, s)
			for i := range pc.policies {
				if !fed.Chance(r, 0.5) {
					continue
				}
				e := genEntry(r, s)
				if fed.Chance(r, 0.6) {
					// of the same kind as the others
					e = fed.PolicyEntry{}
					for op, v := range base {
						e[op] = v
						if op != "value" && op != "default" && fed.Chance(r, 0.5) {
							e[op] = operand(r, s, op)
						}
						if l, ok := v.([]any); ok && (op == "value" || op == "default") && fed.Chance(r, 0.5) {
							// the same set in another order
							c := append([]any{}, l...)
							r.Shuffle(len(c), func(i, j int) { c[i], c[j] = c[j], c[i] })
							e[op] = c
						}
					}
				}
				if pc.policies[i][t] == nil {
					pc.policies[i][t] = fed.Policy{}
				}
				pc.policies[i][t][s.name] = e
				for op := range e {
					pc.ops[op] = true
				}
			}
		}
		pc.meta[t] = m
	}
	return pc
}

// genFocused makes policies for a single claim, with operands from a small domain, so that all pairs of operators meet
// with all relations between their operands and nothing else in the case hides what comes of them.
func genFocused(r *rand.Rand) *policyCase {
	t := policyTypeNames[r.Intn(len(policyTypeNames))]
	cs := claimsOf(t)
	s := cs[r.Intn(len(cs))]
	if s.kind != "list" && fed.Chance(r, 0.5) {
		s = cs[r.Intn(len(cs))]
	}
	ops := []string{"value", "default", "essential", "one_of"}
	subset := func(lo int) []any {
		l := []any{}
		for _, i := range r.Perm(3) {
			if fed.Chance(r, 0.5) {
				l = append(l, words[i])
			}
		}
		if len(l) < lo {
			l = append(l, words[r.Intn(3)])
		}
		return l
	}
	val := func() any {
		switch s.kind {
		case "str":
			return words[r.Intn(3)]
		case "bool":
			return fed.Chance(r, 0.5)
		case "num":
			return float64(fed.Pick(r, 0, 1, 300))
		case "scope":
			return wordString(r, 1, 3)
		}
		l := subset(0)
		if len(l) > 0 && fed.Chance(r, 0.08) {
			l = append(l, l[r.Intn(len(l))])
		}
		return l
	}
	switch s.kind {
	case "list":
		ops = []string{"value", "default", "essential", "add", "subset_of", "superset_of"}
	case "scope":
		ops = []string{"value", "default", "essential", "add", "subset_of", "superset_of", "one_of"}
	}
	m := map[string]any{}
	if fed.Chance(r, 0.75) {
		m[s.name] = val()
	}
	pc := &policyCase{types: []string{t}, meta: map[string]any{t: m}, ops: map[string]bool{}}
	same := fed.Pick(r, ops...)
	for i := 0; i < fed.Pick(r, 1, 2, 2, 2, 2, 3); i++ {
		e := fed.PolicyEntry{}
		for j := 0; j < fed.Pick(r, 1, 1, 1, 2, 2, 3); j++ {
			op := fed.Pick(r, ops...)
			if j == 0 && fed.Chance(r, 0.4) {
				op = same
			}
			switch op {
			case "essential":
				e[op] = fed.Chance(r, 0.6)
			case "one_of":
				l := []any{}
				for i := 0; i <= r.Intn(3); i++ {
					l = append(l, val())
				}
				e[op] = dedup(l)
			case "value", "default":
				e[op] = val()
				if s.kind == "scope" && fed.Chance(r, 0.5) {
					e[op] = subset(1)
				}
				if op == "value" && fed.Chance(r, 0.05) {
					e[op] = nil
				}
			default:
				e[op] = subset(1)
			}
			pc.ops[op] = true
		}
		pc.policies = append(pc.policies, fed.Policies{t: {s.name: e}})
		pc.crit = append(pc.crit, nil)
	}
	return pc
}

func (pc *policyCase) opNames() string {
	var r []string
	for o := range pc.ops {
		r = append(r, o)
	}
	sort.Strings(r)
	return strings.Join(r, "+")
}

// addUnknown puts operators nobody knows into the policies.
func (pc *policyCase) addUnknown(r *rand.Rand, p float64) {
	for i := range pc.policies {
		for _, pol := range pc.policies[i] {
			for c, e := range pol {
				if fed.Chance(r, p) {
					x := fed.PolicyEntry{}
					for op, v := range e {
						x[op] = v
					}
					x[fed.Pick(r, "regexp", "x_op", "Value", "intersects")] = fed.Pick[any](r, "^a", []any{"alpha"}, true, nil, 7.0)
					pol[c] = x
					pc.ops["unknown"] = true
				}
			}
		}
	}
}

// unsure tells whether it is not specified that the values of the policies are the same.
func (pc *policyCase) unsure() bool { return fed.PoliciesUnsure(pc.policies...) }

// model gives what has to come out.
func (pc *policyCase) model() (map[string]any, error) {
	p, err := fed.MergePolicies(pc.policies...)
	if err != nil {
		return nil, err
	}
	return fed.ApplyPolicies(pc.meta, p)
}

func (pc *policyCase) detail() map[string]any {
	return map[string]any{"metadata": pc.meta, "policies from the anchor down": pc.policies, "critical": pc.crit}
}

// applyAPI merges and applies with the exported functions; the order is from the subject up, as in a chain.
func (pc *policyCase) applyAPI() (res *oidfed.Metadata, err error) {
	var ps []*oidfed.MetadataPolicies
	for i := len(pc.policies) - 1; i >= 0; i-- {
		var p oidfed.MetadataPolicies
		if err := json.Unmarshal(fed.MustJSON(pc.policies[i]), &p); err != nil {
			return nil, fmt.Errorf("policy unparsable: %w", err)
		}
		ps = append(ps, &p)
	}
	var m oidfed.Metadata
	if err := json.Unmarshal(fed.MustJSON(pc.meta), &m); err != nil {
		return nil, fmt.Errorf("metadata unparsable: %w", err)
	}
	if pc.asValue {
		m = asGoValue(m)
	}
	merged, err := oidfed.MergeMetadataPolicies(ps...)
	if err != nil {
		return nil, err
	}
	return m.ApplyPolicy(merged)
}

// asGoValue gives the metadata as a program would have written it down, that is without having been decoded.
func asGoValue(m oidfed.Metadata) oidfed.Metadata {
	v := reflect.ValueOf(&m).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() != reflect.Pointer || f.IsNil() {
			continue
		}
		x := reflect.New(f.Type().Elem())
		for j := 0; j < x.Elem().NumField(); j++ {
			if x.Elem().Type().Field(j).IsExported() {
				x.Elem().Field(j).Set(f.Elem().Field(j))
			}
		}
		f.Set(x)
	}
	return m
}

// noZeroes tells whether no claim has a value that a field of a Go struct has when the claim is absent.
func noZeroes(meta map[string]any) bool {
	for _, m := range meta {
		mm, ok := m.(map[string]any)
		if !ok {
			return false
		}
		for _, v := range mm {
			switch v {
			case nil, false, "", 0.0, 0:
				return false
			}
		}
	}
	return true
}

func judge(k *rt.Case, pc *policyCase, how string, res *oidfed.Metadata, err error) {
	want, werr := pc.model()
	kind := "resolved"
	if werr != nil {
		kind = werr.(fed.PolicyError).Kind
	}
	k.Count(kind, 1)
	det := pc.detail()
	det["via"] = how
	switch {
	case werr != nil && err == nil:
		det["reason"] = werr.Error()
		det["result"] = json.RawMessage(canon(res))
		k.Violation("metadata is resolved although policies or metadata are invalid", det)
	case werr == nil && err != nil && pc.unsure():
		kind = "undecided"
		k.Count(kind, 1)
	case werr == nil && err != nil:
		det["err"] = err.Error()
		k.Violation("metadata is refused although policies and metadata are valid", det)
	case werr == nil:
		a, b := fed.CanonMeta(want, exactClaim), fed.CanonMeta(json.RawMessage(canon(res)), exactClaim)
		if a != b {
			det["want"], det["got"] = a, b
			k.Violation("resolved metadata differs from the policy semantics", det)
		}
	}
	k.Eval(fmt.Sprintf("%s/%s/%s/%s/%d", how, kind, strings.Join(pc.types, ","), pc.opNames(), len(pc.policies)))
	k.Sample(map[string]any{"case": k.Name, "outcome": kind, "metadata": pc.meta, "policies": pc.policies})
}

// resolvePolicies serves the case as a federation and resolves it.
func resolvePolicies(k *rt.Case, pc *policyCase) (w *fed.World, start string, anchor string, chain oidfed.TrustChain) {
	w = fed.NewWorld()
	f := fed.NewFed(k.Rng, w, fed.Opts{TAs: 1, Mids: len(pc.policies) - 1, Leaves: 1, MaxHints: 1})
	line(f)
	leaf := f.Nodes[len(f.Nodes)-1]
	leaf.Meta = pc.meta
	f.Rebuild()
	for i, p := range pc.policies {
		s := f.Nodes[i].About[f.Nodes[i+1].ID]
		if len(p) > 0 || fed.Chance(k.Rng, 0.3) {
			s.Claims["metadata_policy"] = generic(p)
		}
		if pc.crit[i] != nil {
			s.Claims["metadata_policy_crit"] = pc.crit[i]
		}
	}
	f.Publish()
	start, anchor = leaf.ID, f.Nodes[0].ID
	tr := oidfed.TrustResolver{TrustAnchors: oidfed.NewTrustAnchorsFromEntityIDs(anchor), StartingEntity: start}
	chains := tr.ResolveToValidChainsWithoutVerifyingMetadata()
	if len(chains) != 1 {
		k.Violation(
			"chain with metadata policies is not found", map[string]any{"chains": len(chains), "case": pc.detail()},
		)
		return w, start, anchor, nil
	}
	return w, start, anchor, chains[0]
}

const policyRule = "Metadata of one to three entity types (known to the library or not) with claims of all kinds (strings, lists, " +
	"booleans, numbers, scopes, unknown claims) and one to four policies from anchor to immediate superior are generated, mostly " +
	"consistent, partly conflicting. "

func runC06(c *rt.Ctx) {
	c.Rule = policyRule + "They go through the exported merge and apply functions and, served as a signed federation, through the " +
		"resolver; accept/reject and the resolved claims are compared with an independent implementation of the policy semantics " +
		"on plain json, which itself is checked against the published test vectors. Distinct by outcome, entity types, operators, depth."
	c.Assume = []string{
		"an empty value of a claim that the library models as a struct field is the same as an absent claim",
		"explicitly empty strings count as missing for essential (the existing tests require this)",
		"policies are only generated for entity types the subject has, and operators only for claims of a suitable type",
	}
	vectors(c)
	c.RunParallel(
		"api", c.N(40000, 1500000), func(k *rt.Case) {
			pc := genPolicies(k.Rng, 1+k.Rng.Intn(4), 0.5*k.Rng.Float64()*k.Rng.Float64())
			if fed.Chance(k.Rng, 0.1) {
				pc.addUnknown(k.Rng, 0.3)
			}
			how := "api"
			if fed.Chance(k.Rng, 0.2) && noZeroes(pc.meta) {
				pc.asValue, how = true, "value"
			}
			res, err := pc.applyAPI()
			judge(k, pc, how, res, err)
		},
	)
	c.RunParallel(
		"focused", c.N(60000, 2000000), func(k *rt.Case) {
			pc := genFocused(k.Rng)
			how := "api"
			if fed.Chance(k.Rng, 0.2) && noZeroes(pc.meta) {
				pc.asValue, how = true, "value"
			}
			res, err := pc.applyAPI()
			judge(k, pc, how, res, err)
		},
	)
	sw := &fed.Swap{}
	sw.Use(fed.NoCache{})
	cache.SetCache(sw)
	c.RunParallel(
		"chain", c.N(1500, 30000), func(k *rt.Case) {
			pc := genPolicies(k.Rng, 1+k.Rng.Intn(4), 0.4*k.Rng.Float64())
			w, start, anchor, chain := resolvePolicies(k, pc)
			defer w.Close()
			if chain == nil {
				return
			}
			res, err := chain.Metadata()
			judge(k, pc, "chain", res, err)
			if len(chain) > 2 {
				// the configuration of the anchor has no share in it
				res, err = chain[:len(chain)-1].Metadata()
				judge(k, pc, "chain without the anchor's configuration", res, err)
			}
			_, werr := pc.model()
			tr := oidfed.TrustResolver{TrustAnchors: oidfed.NewTrustAnchorsFromEntityIDs(anchor), StartingEntity: start}
			if n := len(tr.ResolveToValidChains()); (n == 1) != (werr == nil) && !(werr == nil && pc.unsure()) {
				k.Violation("valid chains do not agree with the validity of metadata", pc.detail())
			}
			lr, err := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(
				apimodel.ResolveRequest{Subject: start, TrustAnchor: []string{anchor}},
			)
			judge(k, pc, "local resolver", lr.Metadata, err)
		},
	)
	customOperators(c)
}

// vectors checks the model against the published vectors that come with the repository.
func vectors(c *rt.Ctx) {
	data, err := os.ReadFile("/repo/metadata-policy-test-vectors-2025-02-13.json")
	if err != nil {
		return
	}
	var vs []struct {
		N           int            `json:"n"`
		TA          fed.Policy     `json:"TA"`
		INT         fed.Policy     `json:"INT"`
		Metadata    map[string]any `json:"metadata"`
		Resolved    map[string]any `json:"resolved"`
		Error       string         `json:"error"`
		Combination any            `json:"combination"`
	}
	if err = json.Unmarshal(data, &vs); err != nil {
		fmt.Println("vectors:", err)
		os.Exit(3)
	}
	const t = "openid_relying_party"
	for _, v := range vs {
		p, err := fed.MergePolicies(fed.Policies{t: v.TA}, fed.Policies{t: v.INT})
		var res map[string]any
		if err == nil {
			res, err = fed.ApplyPolicies(map[string]any{t: v.Metadata}, p)
		}
		kind := ""
		if err != nil {
			kind = err.(fed.PolicyError).Kind
		}
		if (kind == "") != (v.Error == "") {
			fmt.Println("the policy model disagrees with vector", v.N, kind, v.Error)
			os.Exit(3)
		}
		no := func(string, string) bool { return false }
		if kind == "" && fed.CanonMeta(res, no) != fed.CanonMeta(map[string]any{t: v.Resolved}, no) {
			fmt.Println("the policy model disagrees with vector", v.N)
			os.Exit(3)
		}
		c.Count("vectors_agreeing_with_model", 1)
	}
}

// runC07 checks that what every single superior demands holds in the result, independent of how policies are merged.
func runC07(c *rt.Ctx) {
	c.Rule = policyRule + "Policies also contain unknown operators and lists of critical operators. An online checker looks at every " +
		"operator of every single policy in the chain and at the resolved metadata: no subordinate may loosen what a superior demands, " +
		"claims without policy are unchanged, unknown operators make no difference unless critical, and chains with critical unknown " +
		"operators never give metadata. Distinct by operators checked, outcome and positions of critical entries."
	c.RunParallel(
		"api", c.N(30000, 1000000), func(k *rt.Case) {
			pc := genPolicies(k.Rng, 1+k.Rng.Intn(4), 0.5*k.Rng.Float64()*k.Rng.Float64())
			clean, cerr := pc.applyAPI()
			pc.addUnknown(k.Rng, 0.3)
			res, err := pc.applyAPI()
			enforce(k, pc, res, err)
			if (cerr == nil) != (err == nil) || err == nil && string(canon(clean)) != string(canon(res)) {
				k.Violation("an unknown operator that is not critical makes a difference", pc.detail())
			}
		},
	)
	c.RunParallel(
		"focused", c.N(60000, 2000000), func(k *rt.Case) {
			pc := genFocused(k.Rng)
			if fed.Chance(k.Rng, 0.1) {
				pc.addUnknown(k.Rng, 0.5)
			}
			res, err := pc.applyAPI()
			enforce(k, pc, res, err)
		},
	)
	sw := &fed.Swap{}
	sw.Use(fed.NoCache{})
	cache.SetCache(sw)
	c.RunParallel(
		"chain", c.N(1500, 30000), func(k *rt.Case) {
			r := k.Rng
			pc := genPolicies(r, 1+r.Intn(4), 0.3*r.Float64())
			pc.addUnknown(r, 0.2)
			bad := false
			for i := range pc.crit {
				if fed.Chance(r, 0.3) {
					pc.crit[i] = []any{fed.Pick[any](r, "subset_of", "essential", "one_of", "value")}
				}
				if fed.Chance(r, 0.12) {
					pc.crit[i] = append(pc.crit[i], fed.Pick[any](r, "regexp", "x_op", "Value", "intersects", "subset-of"))
					bad = true
				}
			}
			w, start, anchor, chain := resolvePolicies(k, pc)
			defer w.Close()
			if chain == nil {
				return
			}
			res, err := chain.Metadata()
			tr := oidfed.TrustResolver{TrustAnchors: oidfed.NewTrustAnchorsFromEntityIDs(anchor), StartingEntity: start}
			n := len(tr.ResolveToValidChains())
			if bad {
				k.Count("critical_unknown", 1)
				if err == nil || n > 0 {
					k.Violation("an unknown critical operator is ignored", pc.detail())
				}
				k.Eval(fmt.Sprintf("crit/%v", pc.crit))
				return
			}
			if (n > 0) != (err == nil) {
				k.Violation("valid chains do not agree with the validity of metadata", pc.detail())
			}
			_, werr := pc.model()
			if werr == nil && err != nil && !pc.unsure() {
				det := pc.detail()
				det["err"] = err.Error()
				k.Violation("metadata is refused because of operators that are not critical", det)
			}
			enforce(k, pc, res, err)
		},
	)
}

// enforce checks the result against every single operator.
func enforce(k *rt.Case, pc *policyCase, res *oidfed.Metadata, err error) {
	if err != nil {
		k.Count("refused", 1)
		k.Eval("refused/" + pc.opNames())
		return
	}
	var got map[string]map[string]any
	if e := json.Unmarshal(canon(res), &got); e != nil {
		k.Violation("resolved metadata is not json", map[string]any{"err": e.Error()})
		return
	}
	checked := map[string]bool{}
	for _, t := range pc.types {
		orig := pc.meta[t].(map[string]any)
		out := got[t]
		if out == nil {
			k.Violation("metadata of an entity type is gone", pc.detail())
			continue
		}
		for _, s := range claimsOf(t) {
			v, present := out[s.name]
			if v == nil || !s.exact && !strings.HasPrefix(t, "custom_") && isEmpty(v) {
				present = false
			}
			touched := false
			producing, hasValue := false, false
			for _, p := range pc.policies {
				e := p[t][s.name]
				for op := range e {
					touched = touched || op != "essential" && contains(fed.KnownOps, op)
					hasValue = hasValue || op == "value"
					producing = producing || op == "value" || op == "default" || op == "add"
				}
			}
			if !touched {
				want, was := orig[s.name]
				if was && (s.exact || strings.HasPrefix(t, "custom_") || !isEmpty(want)) && !sameSet(want, v) || !was && present {
					det := pc.detail()
					det["claim"], det["got"], det["was"] = t+"."+s.name, v, want
					k.Violation("a claim without policy is changed", det)
				}
			}
			for i, p := range pc.policies {
				for op, x := range p[t][s.name] {
					if why := broken(op, x, v, present, s, orig, producing, hasValue); why != "" {
						det := pc.detail()
						det["claim"], det["got"], det["policy"], det["operator"] = t+"."+s.name, v, i, op
						k.Violation("a superior's demand does not hold: "+why, det)
					}
					k.Count("checked_"+op, 1)
					checked[op] = true
				}
			}
		}
	}
	var ops []string
	for o := range checked {
		ops = append(ops, o)
	}
	sort.Strings(ops)
	k.Eval(fmt.Sprintf("held/%s/%d", strings.Join(ops, "+"), len(pc.policies)))
	k.Sample(map[string]any{"case": k.Name, "metadata": pc.meta, "policies": pc.policies, "resolved": got})
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func isEmpty(v any) bool {
	switch t := v.(type) {
	case nil:
		return true
	case string:
		return t == ""
	case bool:
		return !t
	case float64:
		return t == 0
	case []any:
		return len(t) == 0
	}
	return false
}

func asSet(v any) []any {
	switch t := v.(type) {
	case nil:
		return nil
	case []any:
		return t
	}
	return []any{v}
}

func isSubset(a, b any) bool { return len(inter(asSet(a), asSet(b))) == len(asSet(a)) }
func sameSet(a, b any) bool  { return isSubset(a, b) && isSubset(b, a) }

// broken tells if the demand of one operator of one superior does not hold for the resulting claim.
func broken(op string, x, v any, present bool, s claimSpec, orig map[string]any, producing, hasValue bool) string {
	if s.kind == "scope" {
		if str, ok := v.(string); ok {
			v = splitWords(str)
		}
		if op == "one_of" {
			var l []any
			for _, y := range asSet(x) {
				l = append(l, strings.Join(strings.Fields(y.(string)), " "))
			}
			x, v = l, strings.Join(words2(v), " ")
		} else if str, ok := x.(string); ok {
			x = splitWords(str)
		}
	}
	switch op {
	case "value":
		if x == nil {
			if present {
				return "value null"
			}
			return ""
		}
		if !present && isEmpty(x) {
			return ""
		}
		if !present || !sameSet(x, v) {
			return op
		}
	case "add":
		if !present && isEmpty(x) {
			return ""
		}
		if !present || !isSubset(x, v) {
			return op
		}
	case "one_of":
		if present && !isSubset([]any{v}, x) {
			return op
		}
	case "subset_of":
		if present && !isSubset(v, x) {
			return op
		}
	case "superset_of":
		if present && !isSubset(x, v) {
			return op
		}
	case "default":
		if _, was := orig[s.name]; !was && !present && !isEmpty(x) {
			// may be removed by an intersection for struct fields (lists only) or overruled by an empty value
			if s.kind != "list" && s.kind != "scope" && !hasValue {
				return op
			}
		}
	case "essential":
		if _, was := orig[s.name]; x.(bool) && !was && !producing && !present {
			return op
		}
	}
	return ""
}

func words2(v any) (r []string) {
	for _, x := range asSet(v) {
		r = append(r, fmt.Sprint(x))
	}
	return
}

func splitWords(s string) []any {
	r := []any{}
	for _, w := range strings.Fields(s) {
		r = append(r, w)
	}
	return r
}

// runC08 checks that applying policies changes nothing but the result.
func runC08(c *rt.Ctx) {
	c.Rule = policyRule + "A subject below several superiors (so that the chains share statements) is resolved without cache; the " +
		"metadata of the chains is computed repeatedly, in random order, and concurrently under the race detector. Oracles: the " +
		"statements stay what their signed tokens say, every chain's metadata equals that computed for it alone from freshly parsed " +
		"statements, and results handed out before do not change. Distinct by number of chains, operators and outcomes."
	sw := &fed.Swap{}
	sw.Use(fed.NoCache{})
	cache.SetCache(sw)
	c.RunParallel("shared", c.N(700, 15000), sharedChains)
	c.RunParallel("api", c.N(6000, 200000), pureAPI)
	operatorLists(c)
}

// operatorLists checks that what policy operators of a program are registered with stays as it is; it runs last, because
// they stay registered.
func operatorLists(c *rt.Ctx) {
	all := []oidfed.PolicyOperatorName{"essential", "x_other", "x_kept", "x_also_kept", "x_end"}
	want := append([]oidfed.PolicyOperatorName{}, all...)
	for i, n := range []oidfed.PolicyOperatorName{"x_restricted", "x_other"} {
		oidfed.RegisterPolicyOperator(
			oidfed.NewPolicyOperator(
				n, func(a, _ any, _ string) (any, error) { return a, nil },
				func(v any, set bool, _ any, _ bool, _ string) (any, bool, error) { return v, set, nil }, all[:2+i],
			),
		)
	}
	defer func(o []oidfed.PolicyOperatorName) { oidfed.OperatorOrder = o }(oidfed.OperatorOrder)
	oidfed.OperatorOrder = append([]oidfed.PolicyOperatorName{"x_restricted", "x_other"}, oidfed.OperatorOrder...)
	c.RunParallel(
		"operators", c.N(2000, 60000), func(k *rt.Case) {
			r := k.Rng
			pc := genPolicies(r, 1+r.Intn(3), 0.2)
			t := pc.types[0]
			for i := range pc.policies {
				e := fed.PolicyEntry{}
				for _, op := range []string{"x_restricted", "x_other", "essential"} {
					if fed.Chance(r, 0.5) {
						e[op] = true
					}
				}
				if pc.policies[i][t] == nil {
					pc.policies[i][t] = fed.Policy{}
				}
				pc.policies[i][t]["x_free"] = e
			}
			pc.meta[t].(map[string]any)["x_free"] = "value"
			_, err := pc.applyAPI()
			if !reflect.DeepEqual(all, want) {
				k.Violation(
					"a list that an operator was registered with is changed",
					map[string]any{"before": want, "after": all, "case": pc.detail()},
				)
			}
			k.Eval(fmt.Sprintf("operators/%v/%v", err == nil, pc.policies))
		},
	)
}

// pureAPI checks the functions on shared inputs.
func pureAPI(k *rt.Case) {
	r := k.Rng
	pc := genPolicies(r, 2+r.Intn(3), 0.5)
	var ps []*oidfed.MetadataPolicies
	for _, p := range pc.policies {
		var x oidfed.MetadataPolicies
		if err := json.Unmarshal(fed.MustJSON(p), &x); err != nil {
			k.Violation("policy unparsable", pc.detail())
			return
		}
		ps = append(ps, &x)
	}
	var m oidfed.Metadata
	if err := json.Unmarshal(fed.MustJSON(pc.meta), &m); err != nil {
		k.Violation("metadata unparsable", pc.detail())
		return
	}
	before := string(canon(ps)) + string(canon(m))
	type out struct {
		sel []int
		res *oidfed.Metadata
		s   string
	}
	var outs []out
	for i := 0; i < 4; i++ {
		sel := r.Perm(len(ps))[:1+r.Intn(len(ps))]
		var some []*oidfed.MetadataPolicies
		alone := &policyCase{types: pc.types, meta: pc.meta, ops: pc.ops}
		for _, j := range sel {
			some = append(some, ps[j])
			// applyAPI takes them from the last to the first
			alone.policies = append([]fed.Policies{pc.policies[j]}, alone.policies...)
		}
		fresh, ferr := alone.applyAPI()
		merged, err := oidfed.MergeMetadataPolicies(some...)
		if err == nil {
			var res *oidfed.Metadata
			res, err = m.ApplyPolicy(merged)
			if err == nil {
				outs = append(outs, out{sel, res, string(canon(res))})
				if ferr == nil && string(canon(fresh)) != string(canon(res)) {
					k.Violation("an earlier application changes a later result", pc.detail())
				}
			}
		}
		if (err == nil) != (ferr == nil) {
			k.Violation("an earlier application changes whether a later one succeeds", pc.detail())
		}
	}
	if before != string(canon(ps))+string(canon(m)) {
		k.Violation("applying policies changes the metadata or the policies it is given", pc.detail())
	}
	for _, o := range outs {
		if string(canon(o.res)) != o.s {
			k.Violation("a result changes after it was handed out", pc.detail())
		}
	}
	k.Eval(fmt.Sprintf("api/%d/%s", len(outs), pc.opNames()))
}

func sharedChains(k *rt.Case) {
	r := k.Rng
	w := fed.NewWorld()
	defer w.Close()
	f := fed.NewFed(r, w, fed.Opts{TAs: 1 + r.Intn(2), Mids: 2 + r.Intn(2), Leaves: 1, MaxHints: 3})
	pc := genPolicies(r, 1, 0)
	leaf := f.Nodes[len(f.Nodes)-1]
	leaf.Meta = pc.meta
	f.Rebuild()
	ops := map[string]bool{}
	for _, n := range f.Nodes {
		for _, s := range n.About {
			if s.Claims["iss"] == s.Claims["sub"] {
				continue
			}
			p := fed.Policies{}
			for _, t := range pc.types {
				p[t] = fed.Policy{}
				for _, cs := range claimsOf(t) {
					if fed.Chance(r, 0.2) {
						e := fed.PolicyEntry{}
						if cs.kind == "list" {
							e["add"] = sub(r, 1, 3)
							if fed.Chance(r, 0.2) {
								e["superset_of"] = sub(r, 1, 2)
							}
							if fed.Chance(r, 0.3) {
								e = fed.PolicyEntry{"subset_of": sub(r, 2, 5)}
							}
						} else if cs.kind != "scope" && fed.Chance(r, 0.6) {
							e["default"] = claimValue(r, cs)
						} else {
							e["essential"] = fed.Chance(r, 0.3)
						}
						for op := range e {
							ops[op] = true
						}
						p[t][cs.name] = e
					}
				}
			}
			s.Claims["metadata_policy"] = generic(p)
		}
	}
	f.Publish()
	anchors := oidfed.TrustAnchors{}
	for _, n := range f.Nodes {
		if n.Level == 0 {
			anchors = append(anchors, oidfed.TrustAnchor{EntityID: n.ID})
		}
	}
	tr := oidfed.TrustResolver{TrustAnchors: anchors, StartingEntity: leaf.ID}
	chains := tr.ResolveToValidChainsWithoutVerifyingMetadata()
	if len(chains) == 0 {
		k.Eval("")
		return
	}
	// what each chain gives alone
	want := make([]string, len(chains))
	for i, c := range chains {
		want[i] = aloneMetadata(k, c)
	}
	snap := func() string {
		s := ""
		for _, c := range chains {
			for _, st := range c {
				s += string(canon(st.EntityStatementPayload))
			}
		}
		return s
	}
	before := snap()
	get := func(i int) (string, *oidfed.Metadata) {
		m, err := chains[i].Metadata()
		if err != nil {
			return "error", nil
		}
		return string(canon(m)), m
	}
	type kept struct {
		m *oidfed.Metadata
		s string
	}
	var keep []kept
	var mu sync.Mutex
	note := func(i int, how string) {
		s, m := get(i)
		if s != want[i] {
			k.Violation(
				"metadata of a chain depends on other computations ("+how+")", map[string]any{
					"chain": idsOf(rawChain(chains[i])), "diff": firstDiff(want[i], s), "ops": fmt.Sprint(ops),
				},
			)
		}
		if m != nil {
			mu.Lock()
			keep = append(keep, kept{m, s})
			mu.Unlock()
		}
	}
	for j := 0; j < 2; j++ {
		for _, i := range r.Perm(len(chains)) {
			note(i, "sequential")
		}
	}
	if before != snap() {
		k.Violation("computing metadata changes the statements of the chain", map[string]any{"ops": fmt.Sprint(ops)})
	}
	var wg sync.WaitGroup
	order := r.Perm(len(chains))
	for g := 0; g < 2; g++ {
		for _, i := range order {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				note(i, "concurrent")
			}(i)
		}
	}
	wg.Wait()
	if before != snap() {
		k.Violation("computing metadata changes the statements of the chain", map[string]any{"ops": fmt.Sprint(ops)})
	}
	for _, x := range keep {
		if string(canon(x.m)) != x.s {
			k.Violation("resolved metadata changes after it was handed out", map[string]any{"was": x.s, "is": string(canon(x.m))})
			break
		}
	}
	k.Count("chains", len(chains))
	k.Count("metadata_computed", len(keep))
	var on []string
	for o := range ops {
		on = append(on, o)
	}
	sort.Strings(on)
	k.Eval(fmt.Sprintf("shared/%d/%d/%s/%s", len(chains), len(keep), strings.Join(on, "+"), strings.Join(pc.types, ",")))
}

// aloneMetadata computes the metadata of a chain from freshly parsed statements.
func aloneMetadata(k *rt.Case, c oidfed.TrustChain) string {
	var fresh oidfed.TrustChain
	for _, raw := range rawChain(c) {
		st, err := oidfed.ParseEntityStatement([]byte(raw))
		if err != nil {
			k.Violation("a statement of a chain does not parse", map[string]any{"err": err.Error()})
			return ""
		}
		fresh = append(fresh, st)
	}
	m, err := fresh.Metadata()
	if err != nil {
		return "error"
	}
	return string(canon(m))
}
