package fed

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// Reference semantics of metadata policies on plain json values, written from the specification (OpenID Federation,
// section 6.1) and checked against the published test vectors of 2019.

// PolicyEntry is the policy of one claim: operator name to operand.
type PolicyEntry map[string]any

// Policy maps claims to entries.
type Policy map[string]PolicyEntry

// Policies maps entity types to policies.
type Policies map[string]Policy

// KnownOps are the operators of the specification.
var KnownOps = []string{"value", "add", "default", "one_of", "subset_of", "superset_of", "essential"}

// CustomOp is an operator that is not in the specification.
type CustomOp struct {
	Merge func(a, b any) (any, error)
	Apply func(v any, present bool, x any, essential bool) (any, bool, error)
	// Combine has the operators it may stand beside, nil for all
	Combine []string
}

// Custom has the registered operators; CustomOrder is the order they are applied in, where "essential" stands for the
// operator of the specification; CustomVerify refuses entries. They must not be changed while they are used.
var (
	Custom       = map[string]CustomOp{}
	CustomOrder  []string
	CustomVerify func(e PolicyEntry) string
)

func known(op string) bool {
	for _, k := range KnownOps {
		if k == op {
			return true
		}
	}
	_, ok := Custom[op]
	return ok
}

func list(v any) []any {
	switch t := v.(type) {
	case nil:
		return nil
	case []any:
		return t
	}
	return []any{v}
}

func member(v any, l []any) bool {
	for _, x := range l {
		if reflect.DeepEqual(x, v) {
			return true
		}
	}
	return false
}

func subset(a, b any) bool {
	for _, x := range list(a) {
		if !member(x, list(b)) {
			return false
		}
	}
	return true
}

func union(a, b any) []any {
	r := append([]any{}, list(a)...)
	for _, x := range list(b) {
		if !member(x, r) {
			r = append(r, x)
		}
	}
	return r
}

func intersect(a, b any) []any {
	r := []any{}
	for _, x := range list(a) {
		if member(x, list(b)) {
			r = append(r, x)
		}
	}
	return r
}

// PolicyError tells the kind of failure.
type PolicyError struct{ Kind, Text string }

// Error implements error.
func (e PolicyError) Error() string { return e.Kind + ": " + e.Text }

func badPolicy(f string, a ...any) error { return PolicyError{"invalid_policy", fmt.Sprintf(f, a...)} }
func badMeta(f string, a ...any) error   { return PolicyError{"invalid_metadata", fmt.Sprintf(f, a...)} }

// MergePolicies merges the policies of a chain.
func MergePolicies(ps ...Policies) (Policies, error) {
	out := Policies{}
	for _, p := range ps {
		for t, pol := range p {
			if out[t] == nil {
				out[t] = Policy{}
			}
			for c, e := range pol {
				if out[t][c] == nil {
					out[t][c] = PolicyEntry{}
				}
				for op, v := range e {
					if !known(op) {
						continue
					}
					old, ok := out[t][c][op]
					if !ok {
						out[t][c][op] = v
						continue
					}
					switch op {
					case "value", "default":
						if same, _ := sameValue(c, old, v); !same {
							return nil, badPolicy("%s.%s: different %s", t, c, op)
						}
					case "add", "superset_of":
						out[t][c][op] = union(old, v)
					case "one_of":
						x := intersect(old, v)
						if len(x) == 0 {
							return nil, badPolicy("%s.%s: no one_of left", t, c)
						}
						out[t][c][op] = x
					case "subset_of":
						out[t][c][op] = intersect(old, v)
					case "essential":
						out[t][c][op] = old.(bool) || v.(bool)
					default:
						x, err := Custom[op].Merge(old, v)
						if err != nil {
							return nil, badPolicy("%s.%s: %s: %s", t, c, op, err)
						}
						out[t][c][op] = x
					}
				}
			}
		}
	}
	for t, pol := range out {
		for c, e := range pol {
			if err := checkCombination(e); err != "" {
				return nil, badPolicy("%s.%s: %s", t, c, err)
			}
		}
	}
	return out, nil
}

// sameValue tells whether two values of a claim are the same; they may be spelled so differently that it is not
// specified: a list with repeated elements, a scope as list and as string.
func sameValue(claim string, a, b any) (same, unsure bool) {
	if reflect.DeepEqual(a, b) {
		return true, false
	}
	_, aIs := a.([]any)
	_, bIs := b.([]any)
	if ScopeClaims[claim] {
		a, b = split(a), split(b)
	}
	la, aOK := a.([]any)
	lb, bOK := b.([]any)
	if !aOK || !bOK || !subset(la, lb) || !subset(lb, la) {
		return false, false
	}
	return true, len(la) != len(lb) || len(union(nil, la)) != len(la) || !aIs || !bIs
}

// PoliciesUnsure tells whether it is not specified that the values set by the policies are the same.
func PoliciesUnsure(ps ...Policies) bool {
	for i, p := range ps {
		for t, pol := range p {
			for c, e := range pol {
				for _, op := range []string{"value", "default"} {
					for _, q := range ps[:i] {
						a, aOK := e[op]
						b, bOK := q[t][c][op]
						if aOK && bOK {
							if _, unsure := sameValue(c, a, b); unsure {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

func checkCombination(e PolicyEntry) string {
	has := func(op string) bool { _, ok := e[op]; return ok }
	if has("one_of") {
		for _, o := range []string{"add", "subset_of", "superset_of"} {
			if has(o) {
				return "one_of with " + o
			}
		}
		if len(list(e["one_of"])) == 0 {
			return "one_of empty"
		}
	}
	if has("subset_of") {
		for _, o := range []string{"superset_of", "add", "value"} {
			if has(o) && !subset(e[o], e["subset_of"]) {
				return o + " not in subset_of"
			}
		}
	}
	if has("value") && has("add") && !subset(e["add"], e["value"]) {
		return "add not in value"
	}
	for _, o := range []string{"default", "one_of", "superset_of"} {
		if has(o) && has("value") && e["value"] == nil {
			return o + " with null value"
		}
	}
	for op := range e {
		cu, ok := Custom[op]
		if !ok {
			continue
		}
		for other := range e {
			if o, isCustom := Custom[other]; other != op && ((cu.Combine != nil && !hasString(cu.Combine, other)) ||
				(isCustom && o.Combine != nil && !hasString(o.Combine, op))) {
				return op + " with " + other
			}
		}
	}
	if CustomVerify != nil {
		return CustomVerify(e)
	}
	return ""
}

func hasString(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// ApplyEntry applies the entry to a claim (present tells whether it is there).
func ApplyEntry(e PolicyEntry, v any, present bool) (any, bool, error) {
	if x, ok := e["value"]; ok {
		v, present = x, x != nil
	}
	if x, ok := e["add"]; ok {
		if !present {
			v = []any{}
		}
		v, present = union(v, x), true
	}
	if x, ok := e["default"]; ok && !present {
		v, present = x, true
	}
	if x, ok := e["one_of"]; ok && present && !member(v, list(x)) {
		return nil, false, badMeta("%v not one of %v", v, x)
	}
	if x, ok := e["subset_of"]; ok && present {
		v = intersect(v, x)
	}
	if x, ok := e["superset_of"]; ok && present && !subset(x, v) {
		return nil, false, badMeta("%v not superset of %v", v, x)
	}
	missing := func() bool {
		x, ok := e["essential"]
		return ok && x.(bool) && (!present || v == "")
	}
	for _, op := range CustomOrder {
		if op == "essential" && missing() {
			return nil, false, badMeta("essential missing")
		}
		x, ok := e[op]
		cu, isCustom := Custom[op]
		if !ok || !isCustom {
			continue
		}
		var err error
		if v, present, err = cu.Apply(v, present, x, e["essential"] == true); err != nil {
			return nil, false, badMeta("%s: %s", op, err)
		}
	}
	if len(CustomOrder) == 0 && missing() {
		return nil, false, badMeta("essential missing")
	}
	return v, present, nil
}

// ScopeClaims are claims that are space-delimited lists.
var ScopeClaims = map[string]bool{"scope": true}

// ApplyPolicies applies merged policies to metadata by entity type.
func ApplyPolicies(meta map[string]any, p Policies) (map[string]any, error) {
	out := map[string]any{}
	for t, m := range meta {
		claims, ok := m.(map[string]any)
		if !ok {
			return nil, badMeta("%s not an object", t)
		}
		res := map[string]any{}
		for c, v := range claims {
			res[c] = v
		}
		for c, e := range p[t] {
			v, present := res[c]
			if v == nil {
				present = false
			}
			if ScopeClaims[c] {
				var err error
				if v, present, err = applyScope(e, v, present); err != nil {
					return nil, err
				}
			} else {
				var err error
				if v, present, err = ApplyEntry(e, v, present); err != nil {
					return nil, err
				}
			}
			if present {
				res[c] = v
			} else {
				delete(res, c)
			}
		}
		out[t] = res
	}
	return out, nil
}

func split(v any) any {
	s, ok := v.(string)
	if !ok {
		return v
	}
	r := []any{}
	for _, x := range strings.Fields(s) {
		r = append(r, x)
	}
	return r
}

func applyScope(e PolicyEntry, v any, present bool) (any, bool, error) {
	if _, ok := e["one_of"]; !ok {
		x := PolicyEntry{}
		for op, o := range e {
			x[op] = split(o)
		}
		e, v = x, split(v)
	}
	v, present, err := ApplyEntry(e, v, present)
	if l, ok := v.([]any); ok && err == nil {
		var ss []string
		for _, x := range l {
			ss = append(ss, fmt.Sprint(x))
		}
		v = strings.Join(ss, " ")
	}
	return v, present, err
}

// CanonMeta makes metadata comparable: empty values of claims are the same as absent claims (unless exact), lists are
// sets, scopes are sorted.
func CanonMeta(v any, exact func(entityType, claim string) bool) string {
	var m map[string]any
	if err := json.Unmarshal(MustJSON(v), &m); err != nil {
		return "not an object: " + string(MustJSON(v))
	}
	for t, x := range m {
		claims, ok := x.(map[string]any)
		if !ok {
			continue
		}
		for c, y := range claims {
			if y == nil {
				delete(claims, c)
				continue
			}
			if l, isList := y.([]any); isList {
				set := map[string]any{}
				var keys []string
				for _, e := range l {
					s := string(MustJSON(e))
					if _, dup := set[s]; !dup {
						keys = append(keys, s)
					}
					set[s] = e
				}
				sort.Strings(keys)
				n := []any{}
				for _, s := range keys {
					n = append(n, set[s])
				}
				claims[c] = n
				y = n
			}
			if s, isStr := y.(string); isStr && ScopeClaims[c] {
				f := strings.Fields(s)
				sort.Strings(f)
				claims[c] = strings.Join(f, " ")
			}
			if !exact(t, c) && emptyish(y) {
				delete(claims, c)
			}
		}
	}
	return string(MustJSON(m))
}

func emptyish(v any) bool {
	switch t := v.(type) {
	case nil:
		return true
	case string:
		return t == ""
	case bool:
		return !t
	case float64:
		return t == 0
	case []any:
		return len(t) == 0
	case map[string]any:
		return len(t) == 0
	}
	return false
}
