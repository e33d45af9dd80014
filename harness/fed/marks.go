package fed

import (
	"crypto/hmac"
	"crypto/sha256"
	"fmt"
	"math/rand"
	"strings"
	"time"
)

// The types of trust marks and delegations.
const (
	TypMark       = "trust-mark+jwt"
	TypDelegation = "trust-mark-delegation+jwt"
)

// Owner is the owner of a trust mark type.
type Owner struct {
	ID   string
	Keys []*Key
}

// MarkInfo is a published trust mark.
type MarkInfo struct {
	Type string
	Raw  []byte
	Mut  string
	Obj  map[string]any
}

// Marks generates trust marks in a federation.
type Marks struct {
	F      *Fed
	Types  []string
	Listed map[string][]string // per type; absent: not listed
	Owners map[string]*Owner
}

// NewMarks decides which types are known to the anchor and who may issue them.
func NewMarks(f *Fed, anchor *Node) *Marks {
	r := f.Rng
	m := &Marks{F: f, Listed: map[string][]string{}, Owners: map[string]*Owner{}}
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		t := fmt.Sprintf("https://marks.%s/%d", f.W.Suffix, i)
		m.Types = append(m.Types, t)
		if Chance(r, 0.6) {
			var l []string
			for k := 0; k <= r.Intn(3); k++ {
				l = append(l, f.Nodes[r.Intn(len(f.Nodes))].ID)
			}
			m.Listed[t] = l
		}
		if Chance(r, 0.5) {
			o := &Owner{ID: "http://owner." + f.W.Suffix}
			for k := 0; k <= r.Intn(2); k++ {
				o.Keys = append(o.Keys, NewKey("ES256", fmt.Sprintf("o%x", r.Int63())))
			}
			if Chance(r, 0.4) {
				x := f.Nodes[r.Intn(len(f.Nodes))]
				o.ID, o.Keys = x.ID, x.Keys
			}
			m.Owners[t] = o
		}
	}
	if len(m.Listed) > 0 || Chance(r, 0.3) {
		l := map[string]any{}
		for t, ids := range m.Listed {
			l[t] = ids
		}
		anchor.EC.Claims["trust_mark_issuers"] = l
	}
	if len(m.Owners) > 0 {
		l := map[string]any{}
		for t, o := range m.Owners {
			l[t] = map[string]any{"sub": o.ID, "jwks": JWKS(o.Keys...)}
			if Chance(r, 0.05) {
				// nobody can be this owner
				l[t] = map[string]any{"sub": "", "jwks": JWKS(o.Keys...)}
			}
		}
		anchor.EC.Claims["trust_mark_owners"] = l
	}
	return m
}

// MarkMutations are attacks on and defects of a trust mark.
var MarkMutations = []string{
	"wrong-key", "holder-key", "anchor-key", "owner-key", "other-issuer-key", "foreign-key-own-kid", "tamper-payload", "tamper-sig",
	"typ-JWT", "typ-none", "typ-statement", "typ-delegation", "alg-none", "hmac", "embedded-jwk", "iss-other", "iss-missing",
	"sub-other", "type-other", "info-type", "type-missing", "exp-past", "exp-just-past", "exp-zero", "iat-future", "unlisted-issuer",
	"json-serialized", "truncated", "garbage", "empty", "no-kid", "entity-configuration",
	"d-missing", "d-wrong-key", "d-issuer-key", "d-iss-other", "d-sub-other", "d-type-other", "d-exp-past", "d-iat-future", "d-typ",
	"d-typ-mark", "d-alg-none", "d-tamper", "d-mark-itself", "d-garbage", "d-other-owner", "d-extra", "d-anchor-key",
}

func (m *Marks) delegation(t string, o *Owner, iss string) *Stmt {
	now := time.Now()
	s := &Stmt{
		Header: map[string]any{"typ": TypDelegation}, Key: o.Keys[m.F.Rng.Intn(len(o.Keys))],
		Claims: map[string]any{
			"iss": o.ID, "sub": iss, "trust_mark_type": t, "iat": now.Add(-time.Minute).Unix(),
		},
	}
	if Chance(m.F.Rng, 0.6) {
		s.Claims["exp"] = now.Add(time.Hour).Unix()
	}
	if Chance(m.F.Rng, 0.3) {
		s.Claims["ref"] = "https://ref.example"
	}
	return s
}

// New makes a trust mark for a holder; with mutation mut if not empty.
func (m *Marks) New(holder *Node, mut string) MarkInfo {
	r := m.F.Rng
	t := m.Types[r.Intn(len(m.Types))]
	if strings.HasPrefix(mut, "d-") && mut != "d-extra" {
		for i := 0; i < 8 && m.Owners[t] == nil; i++ {
			t = m.Types[r.Intn(len(m.Types))]
		}
	}
	iss := m.F.Nodes[r.Intn(len(m.F.Nodes))]
	if l := m.Listed[t]; len(l) > 0 && mut != "unlisted-issuer" && Chance(r, 0.9) {
		iss = m.F.By[l[r.Intn(len(l))]]
	}
	return m.Make(holder, t, iss, mut)
}

// Make makes a trust mark of a type for a holder.
func (m *Marks) Make(holder *Node, t string, iss *Node, mut string) MarkInfo {
	r := m.F.Rng
	now := time.Now()
	other := m.F.Nodes[r.Intn(len(m.F.Nodes))]
	info := MarkInfo{Type: t, Mut: mut}
	s := &Stmt{
		Header: map[string]any{"typ": TypMark}, Key: iss.Keys[r.Intn(len(iss.Keys))],
		Claims: map[string]any{
			"iss": iss.ID, "sub": holder.ID, "trust_mark_type": t, "iat": now.Add(-time.Minute).Unix(),
		},
	}
	if Chance(r, 0.6) {
		s.Claims["exp"] = now.Add(time.Hour).Unix()
	}
	if Chance(r, 0.3) {
		s.Claims["logo_uri"] = "https://logo.example/l.png"
	}
	if Chance(r, 0.3) {
		s.Claims["x_extra"] = map[string]any{"a": []any{1, "b"}}
	}
	owner := m.Owners[t]
	var d *Stmt
	if owner != nil {
		d = m.delegation(t, owner, iss.ID)
	}
	attacker := NewKey("ES256", s.Key.Kid)
	none := func(s *Stmt) {
		s.Post = func(raw []byte) []byte {
			return []byte(B64(MustJSON(map[string]any{"alg": "none", "typ": s.Header["typ"], "kid": s.Key.Kid})) + "." +
				strings.Split(string(raw), ".")[1] + ".")
		}
	}
	tamper := func(s *Stmt, claim string, v any) {
		s.Post = func(raw []byte) []byte {
			p := strings.Split(string(raw), ".")
			c := map[string]any{}
			for k, v := range s.Claims {
				c[k] = v
			}
			c[claim] = v
			return []byte(p[0] + "." + B64(MustJSON(c)) + "." + p[2])
		}
	}
	otherType := m.Types[r.Intn(len(m.Types))]
	if otherType == t || Chance(r, 0.3) {
		otherType = t + "x"
	}
	past := time.Now().Add(-time.Duration(1+r.Intn(100000)) * time.Minute).Unix()
	future := time.Now().Add(time.Duration(2+r.Intn(100000)) * time.Minute).Unix()
	switch mut {
	case "", "unlisted-issuer":
	case "wrong-key":
		s.Key = NewKey(s.Key.Alg, s.Key.Kid)
	case "holder-key":
		s.Key = holder.Keys[0]
	case "anchor-key":
		s.Key = m.F.Nodes[0].Keys[0]
	case "owner-key":
		if owner != nil {
			s.Key = owner.Keys[0]
		}
	case "other-issuer-key":
		s.Key = other.Keys[0]
	case "foreign-key-own-kid":
		s.Key = &Key{Priv: other.Keys[0].Priv, Alg: other.Keys[0].Alg, Kid: s.Key.Kid}
	case "tamper-payload":
		switch r.Intn(3) {
		case 0:
			tamper(s, "sub", other.ID+"x")
		case 1:
			tamper(s, "trust_mark_type", otherType)
			info.Type = otherType
		case 2:
			s.Claims["exp"] = past
			tamper(s, "exp", now.Add(time.Hour).Unix())
		}
	case "tamper-sig":
		s.Post = func(raw []byte) []byte {
			p := strings.Split(string(raw), ".")
			b, _ := UnB64(p[2])
			b[r.Intn(len(b))] ^= 1 << r.Intn(8)
			return []byte(p[0] + "." + p[1] + "." + B64(b))
		}
	case "typ-JWT":
		s.Header["typ"] = "JWT"
	case "typ-none":
		delete(s.Header, "typ")
	case "typ-statement":
		s.Header["typ"] = TypStatement
	case "typ-delegation":
		s.Header["typ"] = TypDelegation
	case "alg-none":
		none(s)
	case "hmac":
		s.Post = func([]byte) []byte {
			in := B64(MustJSON(map[string]any{"alg": "HS256", "typ": TypMark, "kid": s.Key.Kid})) + "." + B64(MustJSON(s.Claims))
			h := hmac.New(sha256.New, MustJSON(s.Key.JWK()))
			h.Write([]byte(in))
			return []byte(in + "." + B64(h.Sum(nil)))
		}
	case "embedded-jwk":
		s.Key = attacker
		s.Header["jwk"] = attacker.JWK()
	case "iss-other":
		s.Claims["iss"] = other.ID
	case "iss-missing":
		delete(s.Claims, "iss")
	case "sub-other":
		s.Claims["sub"] = Pick(r, other.ID, holder.ID+"/", "", "http://somebody.else")
	case "type-other":
		s.Claims["trust_mark_type"] = otherType
	case "info-type":
		info.Type = otherType
	case "type-missing":
		delete(s.Claims, "trust_mark_type")
	case "exp-past":
		s.Claims["exp"] = past
	case "exp-just-past":
		s.Claims["exp"] = time.Now().Unix() - 2
	case "exp-zero":
		s.Claims["exp"] = 0
	case "iat-future":
		s.Claims["iat"] = future
		delete(s.Claims, "exp")
	case "json-serialized":
		s.Post = func([]byte) []byte { return SignJSON(s.Claims, []*Key{s.Key}, []map[string]any{s.Header}) }
	case "truncated":
		s.Post = func(raw []byte) []byte { return raw[:r.Intn(len(raw))] }
	case "garbage":
		s.Post = func([]byte) []byte { b := make([]byte, r.Intn(100)); r.Read(b); return []byte(B64(b)) }
	case "empty":
		s.Post = func([]byte) []byte { return nil }
	case "no-kid":
		s.Header["kid"] = nil
	case "entity-configuration":
		s.Post = func([]byte) []byte { return holder.EC.Raw() }
	case "d-extra":
		if d == nil {
			d = m.delegation(t, &Owner{ID: other.ID, Keys: other.Keys}, iss.ID)
		}
	default:
		if d == nil {
			info.Mut = ""
			break
		}
		switch mut {
		case "d-missing":
			d = nil
		case "d-wrong-key":
			d.Key = NewKey(d.Key.Alg, d.Key.Kid)
		case "d-issuer-key":
			d.Key = &Key{Priv: s.Key.Priv, Alg: s.Key.Alg, Kid: Pick(r, s.Key.Kid, d.Key.Kid)}
		case "d-anchor-key":
			d.Key = m.F.Nodes[0].Keys[0]
		case "d-iss-other":
			d.Claims["iss"] = Pick(r, other.ID, iss.ID, "")
		case "d-sub-other":
			d.Claims["sub"] = Pick(r, other.ID, holder.ID, iss.ID+"/", "")
		case "d-type-other":
			d.Claims["trust_mark_type"] = otherType
			switch r.Intn(5) {
			case 0:
				delete(d.Claims, "trust_mark_type")
			case 1:
				d.Claims["trust_mark_type"] = Pick(r, "", ToggleSlash(t), strings.ToUpper(t))
			}
		case "d-exp-past":
			d.Claims["exp"] = past
		case "d-iat-future":
			d.Claims["iat"] = future
			delete(d.Claims, "exp")
		case "d-typ":
			d.Header["typ"] = Pick[any](r, "JWT", TypStatement, nil, "delegation")
		case "d-typ-mark":
			d.Header["typ"] = TypMark
		case "d-alg-none":
			none(d)
		case "d-tamper":
			d.Claims["sub"] = "http://former.issuer"
			tamper(d, "sub", iss.ID)
		case "d-other-owner":
			var os []*Owner
			for _, x := range m.Types {
				if o := m.Owners[x]; o != nil && o != owner {
					os = append(os, o)
				}
			}
			if len(os) > 0 {
				o := os[r.Intn(len(os))]
				d.Key = o.Keys[0]
				if Chance(r, 0.5) {
					d.Claims["iss"] = o.ID
				}
			} else {
				info.Mut = ""
			}
		case "d-mark-itself", "d-garbage":
		default:
			panic(mut)
		}
	}
	if d != nil {
		s.Claims["delegation"] = string(d.Raw())
	}
	if d != nil && mut == "d-mark-itself" {
		c := map[string]any{}
		for k, v := range s.Claims {
			c[k] = v
		}
		delete(c, "delegation")
		s.Claims["delegation"] = string(Sign(s.Key, map[string]any{"typ": TypDelegation}, c))
	}
	if d != nil && mut == "d-garbage" {
		s.Claims["delegation"] = Pick[any](r, "", "x.y.z", "garbage", string(d.Raw()[:len(d.Raw())-3]))
	}
	info.Raw = s.Raw()
	info.Obj = map[string]any{"trust_mark_type": info.Type, "trust_mark": string(info.Raw)}
	if Chance(r, 0.2) {
		info.Obj["x_info"] = "y"
	}
	return info
}

// Publish puts the marks into the configuration of a holder.
func (m *Marks) Publish(holder *Node, infos []MarkInfo) {
	var l []any
	for _, i := range infos {
		l = append(l, i.Obj)
	}
	holder.EC.Claims["trust_marks"] = l
	holder.EC.Reset()
}

func parseTyped(raw []byte, typ string) *Token {
	t, err := Decode(raw)
	if err != nil || t.Typ() != typ {
		return nil
	}
	return t
}

// MarkTime judges the time validity of a mark or delegation.
func MarkTime(t *Token, t0, t1 time.Time) Verdict { return TimeVerdict(t, t0, t1, false) }

// DelegationVerdict judges a delegation for a mark against the owner.
func DelegationVerdict(mark *Token, raw string, owner map[string]any, t0, t1 time.Time) (Verdict, string) {
	d := parseTyped([]byte(raw), TypDelegation)
	if d == nil {
		return No, "delegation: not one"
	}
	id, _ := owner["sub"].(string)
	switch {
	case d.Str("trust_mark_type") != mark.Str("trust_mark_type"):
		return No, "delegation: type"
	case d.Str("sub") != mark.Str("iss"):
		return No, "delegation: subject"
	case d.Str("iss") != id:
		return No, "delegation: issuer"
	}
	v := MarkTime(d, t0, t1)
	if v == No {
		return No, "delegation: time"
	}
	sv := d.Verify(owner["jwks"])
	if sv == No {
		return No, "delegation: signature"
	}
	return And(v, sv), "delegated"
}

// ExternalVerdict judges a mark against the keys of its issuer and its owner (nil: none).
func ExternalVerdict(raw []byte, jwks any, owner map[string]any, t0, t1 time.Time) (Verdict, string) {
	t := parseTyped(raw, TypMark)
	if t == nil {
		return No, "not a trust mark"
	}
	v := MarkTime(t, t0, t1)
	if v == No {
		return No, "time"
	}
	sv := t.Verify(jwks)
	if sv == No {
		return No, "signature"
	}
	v = And(v, sv)
	if owner == nil {
		return v, "not delegated"
	}
	ds, _ := t.Claims["delegation"].(string)
	if ds == "" {
		if id, _ := owner["sub"].(string); id == t.Str("iss") {
			return Maybe, "issued by the owner"
		}
		return No, "delegation: none"
	}
	dv, why := DelegationVerdict(t, ds, owner, t0, t1)
	if dv == No {
		if id, _ := owner["sub"].(string); id == t.Str("iss") {
			return Maybe, "issued by the owner"
		}
	}
	return And(v, dv), why
}

// FederationVerdict judges a mark for an anchor.
func FederationVerdict(w *World, raw []byte, ta *Token, t0, t1 time.Time) (Verdict, string) {
	t := parseTyped(raw, TypMark)
	if t == nil {
		return No, "not a trust mark"
	}
	typ, iss := t.Str("trust_mark_type"), t.Str("iss")
	pre := Yes
	if l, ok := ta.Claims["trust_mark_issuers"].(map[string]any); ok {
		if ids, ok := l[typ].([]any); ok {
			if len(ids) == 0 {
				pre = Maybe
			} else if !contains(strs(ids), iss) {
				return No, "issuer not listed"
			}
		}
	}
	var owner map[string]any
	if l, ok := ta.Claims["trust_mark_owners"].(map[string]any); ok {
		owner, _ = l[typ].(map[string]any)
	}
	if iss == ta.Str("sub") {
		v, why := ExternalVerdict(raw, ta.Claims["jwks"], owner, t0, t1)
		return And(pre, v), why
	}
	m := &Model{W: w, Anchors: []Anchor{{ID: ta.Str("sub")}}, T0: t0, T1: t1}
	best := No
	var chains []ModelChain
	for _, c := range m.Chains(iss) {
		if c.V != No {
			chains = append(chains, c)
		}
		if c.V > best {
			best = c.V
		}
	}
	if best == No {
		return No, "issuer has no chain"
	}
	var lo, hi = Yes, No
	var why string
	judge := func(jwks any) {
		v, x := ExternalVerdict(raw, jwks, owner, t0, t1)
		if v > hi {
			hi = v
		}
		if v < lo || why == "" {
			why = x
		}
		if v < lo {
			lo = v
		}
	}
	for _, c := range chains {
		ec, _ := Decode([]byte(c.Raw[0]))
		judge(ec.Claims["jwks"])
		if len(c.Raw) > 1 {
			st, _ := Decode([]byte(c.Raw[1]))
			judge(st.Claims["jwks"])
		}
	}
	switch {
	case hi == No:
		return No, why
	case lo == Yes:
		return And(pre, best), why
	}
	return Maybe, why
}

// RandType is a random trust mark type name.
func RandType(r *rand.Rand) string {
	return Pick(r, "https://tm.example/certified", "urn:tm:plain", "tm", "https://tm.example/ä?x=1&y#z") + fmt.Sprint(r.Intn(1000))
}
