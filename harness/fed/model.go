package fed

import (
	"net/url"
	"strings"
	"time"
)

// WellKnown is the path of entity configurations.
const WellKnown = "/.well-known/openid-federation"

// TypStatement is the typ of entity statements.
const TypStatement = "entity-statement+jwt"

// Anchor is a trust anchor as configured by the user; JWKS is nil if the keys are not pinned.
type Anchor struct {
	ID   string
	JWKS any
}

// ECURL is the location of an entity configuration.
func ECURL(id string) string { return strings.TrimSuffix(id, "/") + WellKnown }

// ModelChain is a chain the reference model derives from what is served.
type ModelChain struct {
	Raw []string
	V   Verdict
}

// Key identifies the chain.
func (c ModelChain) Key() string { return strings.Join(c.Raw, "\n") }

type mnode struct {
	ec    *Token
	id    string
	stmt  *Token // statement about id by the next
	below []string
	types map[string]bool
	v     Verdict
}

// Model is the reference resolver.
type Model struct {
	W        *World
	Anchors  []Anchor
	Types    []string
	T0, T1   time.Time
	out      []ModelChain
	Visited  int
	Rejected map[string]int
}

// parse gives the token if it is a statement; nil otherwise.
func (m *Model) parse(r *Resp) *Token {
	if r == nil || r.Drop || r.Truncate || (r.Status != 0 && r.Status != 200) {
		return nil
	}
	t, err := Decode(r.Body)
	if err != nil || t.Typ() != TypStatement {
		return nil
	}
	return t
}

// TimeVerdict judges iat/exp against the interval in which they were looked at.
func TimeVerdict(t *Token, t0, t1 time.Time, needExp bool) Verdict {
	res := Yes
	sec := func(f float64) time.Time { return time.Unix(0, int64(f*1e9)) }
	if f, ok := t.Num("exp"); ok {
		e := sec(f)
		if e.Before(t0) {
			return No
		}
		if !e.After(t1) {
			res = Maybe
		}
	} else if needExp {
		return No
	}
	if f, ok := t.Num("iat"); ok {
		i := sec(f)
		if i.After(t1) {
			return No
		}
		if i.After(t0) {
			res = Maybe
		}
	} else {
		res = Maybe
	}
	return res
}

func (m *Model) reject(why string) {
	if m.Rejected == nil {
		m.Rejected = map[string]int{}
	}
	m.Rejected[why]++
}

// EntityTypes lists the entity types in the metadata of a statement.
func EntityTypes(t *Token) []string {
	md, _ := t.Claims["metadata"].(map[string]any)
	var r []string
	for k, v := range md {
		if v != nil {
			r = append(r, k)
		}
	}
	return r
}

func (m *Model) anchor(id string) *Anchor {
	for i := range m.Anchors {
		if m.Anchors[i].ID == id {
			return &m.Anchors[i]
		}
	}
	return nil
}

// Chains computes all chains for the starting entity.
func (m *Model) Chains(start string) []ModelChain {
	m.out = nil
	ec := m.parse(m.W.Get(ECURL(start), ""))
	if ec == nil {
		m.reject("start: no configuration")
		return nil
	}
	if ec.Str("iss") != start || ec.Str("sub") != start {
		m.reject("start: not about itself")
		return nil
	}
	v := TimeVerdict(ec, m.T0, m.T1, true)
	if v == No {
		m.reject("start: time")
		return nil
	}
	types := map[string]bool{}
	for _, t := range EntityTypes(ec) {
		if len(m.Types) > 0 && !contains(m.Types, t) {
			continue
		}
		types[t] = true
	}
	m.walk([]mnode{{ec: ec, id: start, types: types, v: v}})
	return m.out
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func strs(v any) []string {
	l, _ := v.([]any)
	var r []string
	for _, x := range l {
		if s, ok := x.(string); ok {
			r = append(r, s)
		}
	}
	return r
}

func (m *Model) walk(path []mnode) {
	m.Visited++
	top := &path[len(path)-1]
	if a := m.anchor(top.id); a != nil {
		m.finish(path, a)
		return
	}
	for _, hint := range strs(top.ec.Claims["authority_hints"]) {
		loop := false
		for _, n := range path {
			loop = loop || n.id == hint
		}
		if loop {
			m.reject("loop")
			continue
		}
		ec := m.parse(m.W.Get(ECURL(hint), ""))
		if ec == nil || ec.Str("iss") != hint || ec.Str("sub") != hint {
			m.reject("authority: no configuration")
			continue
		}
		v := TimeVerdict(ec, m.T0, m.T1, true)
		if v == No {
			m.reject("authority: time")
			continue
		}
		md, _ := ec.Claims["metadata"].(map[string]any)
		fe, _ := md["federation_entity"].(map[string]any)
		ep, _ := fe["federation_fetch_endpoint"].(string)
		if ep == "" {
			m.reject("authority: no fetch endpoint")
			continue
		}
		st := m.parse(m.W.Get(ep, top.id))
		if st == nil {
			m.reject("statement: none")
			continue
		}
		if st.Str("iss") != hint || st.Str("sub") != top.id {
			m.reject("statement: iss/sub")
			continue
		}
		sv := TimeVerdict(st, m.T0, m.T1, true)
		if sv == No {
			m.reject("statement: time")
			continue
		}
		if why := m.constraints(st, path); why != "" {
			m.reject("constraint: " + why)
			continue
		}
		types := map[string]bool{}
		for t := range top.types {
			types[t] = true
		}
		for _, t := range EntityTypes(ec) {
			types[t] = true
		}
		np := append(append([]mnode(nil), path...), mnode{ec: ec, id: hint, types: types, v: And(v, sv)})
		np[len(np)-2].stmt = st
		m.walk(np)
	}
}

// NamingMatch is the matching rule for naming constraints.
func NamingMatch(c, id string) bool {
	u, err := url.Parse(id)
	if err != nil {
		return false
	}
	h := u.Hostname()
	if strings.HasPrefix(c, ".") {
		return strings.HasSuffix(h, c)
	}
	return h == c
}

func (m *Model) constraints(st *Token, path []mnode) string {
	c, _ := st.Claims["constraints"].(map[string]any)
	if c == nil {
		return ""
	}
	if f, ok := c["max_path_length"].(float64); ok && float64(len(path)-1) > f {
		return "max_path_length"
	}
	if n, ok := c["naming_constraints"].(map[string]any); ok {
		for _, p := range path {
			for _, e := range strs(n["excluded"]) {
				if NamingMatch(e, p.id) {
					return "excluded"
				}
			}
			if pl, ok := n["permitted"].([]any); ok {
				in := false
				for _, e := range strs(pl) {
					in = in || NamingMatch(e, p.id)
				}
				if !in {
					return "not permitted"
				}
			}
		}
	}
	if l, ok := c["allowed_entity_types"].([]any); ok {
		al := strs(l)
		for t := range path[len(path)-1].types {
			if t != "federation_entity" && !contains(al, t) {
				return "entity type"
			}
		}
	}
	return ""
}

// finish verifies the signatures from the anchor down.
func (m *Model) finish(path []mnode, a *Anchor) {
	n := len(path) - 1
	keys := a.JWKS
	if keys == nil {
		keys = path[n].ec.Claims["jwks"]
	}
	raw := []string{path[n].ec.Raw}
	v := path[n].v
	if n == 0 {
		v = And(v, path[0].ec.Verify(keys))
	}
	for i := n; i > 0; i-- {
		v = And(v, path[i].v, path[i].ec.Verify(keys), path[i-1].stmt.Verify(keys))
		keys = path[i-1].stmt.Claims["jwks"]
		raw = append(raw, path[i-1].stmt.Raw)
	}
	if n > 0 {
		v = And(v, path[0].v, path[0].ec.Verify(keys))
		raw = append(raw, path[0].ec.Raw)
	}
	if v == No {
		m.reject("signature")
		return
	}
	for i, j := 0, len(raw)-1; i < j; i, j = i+1, j-1 {
		raw[i], raw[j] = raw[j], raw[i]
	}
	m.out = append(m.out, ModelChain{Raw: raw, V: v})
}
