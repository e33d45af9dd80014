package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"

	"github.com/go-oidfed/lib/verifharness/fed"
	"github.com/go-oidfed/lib/verifharness/rt"
)

// Operators that a program adds: without (takes values away), none_of (refuses values), equals (takes another value away,
// refuses it if the claim is essential); without and none_of may stand together, equals only beside essential.

func plain(v any) (p any) {
	if err := json.Unmarshal(fed.MustJSON(v), &p); err != nil {
		panic(err)
	}
	return p
}

func asPlainList(v any) []any {
	switch l := plain(v).(type) {
	case nil:
		return nil
	case []any:
		return l
	default:
		return []any{l}
	}
}

func unite(a, b any) (any, error) {
	return dedup(append(append([]any{}, asPlainList(a)...), asPlainList(b)...)), nil
}

func hasAny(l, of []any) bool { return len(inter(l, of)) > 0 }

var customOps = map[string]fed.CustomOp{
	"without": {
		Merge: unite,
		Apply: func(v any, present bool, x any, _ bool) (any, bool, error) {
			if !present {
				return v, present, nil
			}
			v = plain(v)
			bad := asPlainList(x)
			l, ok := v.([]any)
			if !ok {
				if hasAny([]any{v}, bad) {
					return nil, false, nil
				}
				return v, true, nil
			}
			out := []any{}
			for _, e := range l {
				if !hasAny([]any{e}, bad) {
					out = append(out, e)
				}
			}
			return out, true, nil
		},
		Combine: []string{"none_of", "essential"},
	},
	"none_of": {
		Merge: unite,
		Apply: func(v any, present bool, x any, _ bool) (any, bool, error) {
			if present && hasAny(asPlainList(v), asPlainList(x)) {
				return nil, false, errors.New("forbidden value")
			}
			return v, present, nil
		},
	},
	"equals": {
		Merge: func(a, b any) (any, error) {
			if !reflect.DeepEqual(plain(a), plain(b)) {
				return nil, errors.New("conflict")
			}
			return a, nil
		},
		Apply: func(v any, present bool, x any, essential bool) (any, bool, error) {
			if !present || reflect.DeepEqual(plain(v), plain(x)) {
				return v, present, nil
			}
			if essential {
				return nil, false, errors.New("other value")
			}
			return nil, false, nil
		},
		Combine: []string{"essential"},
	},
	// stands alone
	"is": {
		Merge: func(a, b any) (any, error) {
			if !reflect.DeepEqual(plain(a), plain(b)) {
				return nil, errors.New("conflict")
			}
			return a, nil
		},
		Apply:   func(_ any, _ bool, x any, _ bool) (any, bool, error) { return x, true, nil },
		Combine: []string{},
	},
}

// registerCustom registers the operators with the library.
func registerCustom() {
	for name, op := range customOps {
		var with []oidfed.PolicyOperatorName
		if op.Combine != nil {
			with = []oidfed.PolicyOperatorName{}
		}
		for _, o := range op.Combine {
			with = append(with, oidfed.PolicyOperatorName(o))
		}
		op := op
		oidfed.RegisterPolicyOperator(
			oidfed.NewPolicyOperator(
				oidfed.PolicyOperatorName(name),
				func(a, b any, _ string) (any, error) { return op.Merge(a, b) },
				func(v any, set bool, x any, essential bool, _ string) (any, bool, error) {
					return op.Apply(v, set, x, essential)
				}, with,
			),
		)
	}
	fed.Custom = customOps
	refuse := func(e map[string]any) string {
		if x, ok := e["none_of"]; ok && len(asPlainList(x)) > 3 {
			return "too much is forbidden"
		}
		return ""
	}
	fed.CustomVerify = func(e fed.PolicyEntry) string { return refuse(e) }
	oidfed.RegisterPolicyVerifier(
		func(e oidfed.MetadataPolicyEntry, _ string) error {
			x := map[string]any{}
			for op, v := range e {
				x[string(op)] = v
			}
			if s := refuse(x); s != "" {
				return errors.New(s)
			}
			return nil
		},
	)
}

// genCustom makes policies that use the operators, for some claims, and those of the specification for others.
func genCustom(r *rand.Rand) *policyCase {
	pc := genPolicies(r, 1+r.Intn(4), 0.15*r.Float64())
	bare := func(s claimSpec) any {
		v := claimValue(r, s)
		if s.kind == "list" || s.kind == "scope" {
			return words[r.Intn(len(words))]
		}
		return v
	}
	for _, t := range pc.types {
		m := pc.meta[t].(map[string]any)
		for _, s := range claimsOf(t) {
			if !fed.Chance(r, 0.25) {
				continue
			}
			for i := range pc.policies {
				delete(pc.policies[i][t], s.name)
			}
			ops := fed.Pick(
				r, []string{"without"}, []string{"none_of"}, []string{"equals"}, []string{"without", "none_of"},
				[]string{"without", "none_of"}, []string{"none_of", "equals"}, []string{"is"}, []string{"is"},
			)
			if ops[0] == "is" && fed.Chance(r, 0.1) {
				ops = []string{"is", fed.Pick(r, "none_of", "without", "equals")}
			}
			if len(ops) == 2 && ops[1] == "equals" && fed.Chance(r, 0.8) {
				ops = ops[1:]
			}
			eq := claimValue(r, s)
			if v, ok := m[s.name]; ok && fed.Chance(r, 0.6) {
				eq = v
			}
			for i := range pc.policies {
				if fed.Chance(r, 0.4) {
					continue
				}
				e := fed.PolicyEntry{}
				for _, op := range ops {
					if len(ops) > 1 && fed.Chance(r, 0.3) {
						continue
					}
					l := []any{}
					for len(l) == 0 || fed.Chance(r, 0.2) {
						l = append(l, bare(s))
					}
					e[op] = dedup(l)
					if op == "equals" || op == "is" {
						e[op] = eq
						if fed.Chance(r, 0.05) {
							e[op] = claimValue(r, s)
						}
					}
				}
				if fed.Chance(r, 0.2) && (ops[0] != "is" || fed.Chance(r, 0.1)) {
					e["essential"] = fed.Chance(r, 0.6)
				}
				if pc.policies[i][t] == nil {
					pc.policies[i][t] = fed.Policy{}
				}
				pc.policies[i][t][s.name] = e
				for op := range e {
					pc.ops[op] = true
				}
			}
		}
	}
	return pc
}

// customOperators runs last: what it registers stays.
func customOperators(c *rt.Ctx) {
	std := append([]oidfed.PolicyOperatorName{}, oidfed.OperatorOrder...)
	registerCustom()
	defer func() {
		oidfed.OperatorOrder, fed.CustomOrder = std, nil
		fed.Custom, fed.CustomVerify = map[string]fed.CustomOp{}, nil
	}()
	for n, order := range [][]string{
		{"without", "none_of", "equals", "is", "essential"},
		{"none_of", "is", "without", "equals", "essential"},
		{"essential", "equals", "without", "none_of", "is"},
	} {
		var lib []oidfed.PolicyOperatorName
		for _, op := range order {
			if op == "essential" {
				lib = append(lib, std...)
				continue
			}
			lib = append(lib, oidfed.PolicyOperatorName(op))
		}
		oidfed.OperatorOrder, fed.CustomOrder = lib, order
		where := fmt.Sprintf("custom operators %d", n)
		c.RunParallel(
			where, c.N(12000, 300000), func(k *rt.Case) {
				pc := genCustom(k.Rng)
				if fed.Chance(k.Rng, 0.1) {
					pc.addUnknown(k.Rng, 0.3)
				}
				how := where
				if fed.Chance(k.Rng, 0.2) && noZeroes(pc.meta) {
					pc.asValue, how = true, where+", value"
				}
				res, err := pc.applyAPI()
				judge(k, pc, how, res, err)
			},
		)
		c.RunParallel(
			where+", chain", c.N(300, 5000), func(k *rt.Case) {
				r := k.Rng
				pc := genCustom(r)
				bad := false
				for i := range pc.crit {
					if fed.Chance(r, 0.4) {
						pc.crit[i] = []any{fed.Pick[any](r, "without", "none_of", "equals", "is")}
					}
					if fed.Chance(r, 0.05) {
						pc.crit[i] = append(pc.crit[i], fed.Pick[any](r, "regexp", "none-of", "Without"))
						bad = true
					}
				}
				w, start, anchor, chain := resolvePolicies(k, pc)
				defer w.Close()
				if chain == nil {
					return
				}
				res, err := chain.Metadata()
				lr, lerr := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(
					apimodel.ResolveRequest{Subject: start, TrustAnchor: []string{anchor}},
				)
				if bad {
					k.Count("critical_unknown", 1)
					if err == nil || lerr == nil {
						k.Violation("an unknown critical operator is ignored", pc.detail())
					}
					k.Eval("critical/" + strings.Join(order, ","))
					return
				}
				judge(k, pc, where+", chain", res, err)
				judge(k, pc, where+", local resolver", lr.Metadata, lerr)
			},
		)
	}
}
