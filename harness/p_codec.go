package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"maps"
	"math"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/jwks"
	"github.com/go-oidfed/lib/unixtime"
	"github.com/vmihailenco/msgpack/v5"
	"gopkg.in/yaml.v3"

	"github.com/go-oidfed/lib/verifharness/fed"
	"github.com/go-oidfed/lib/verifharness/rt"
)

func init() {
	register("C15", property{run: runC15})
	register("C16", property{run: runC16})
}

var docTypes = map[string]func() any{
	"Metadata":                         func() any { return new(oidfed.Metadata) },
	"OpenIDProviderMetadata":           func() any { return new(oidfed.OpenIDProviderMetadata) },
	"OpenIDRelyingPartyMetadata":       func() any { return new(oidfed.OpenIDRelyingPartyMetadata) },
	"OAuthAuthorizationServerMetadata": func() any { return new(oidfed.OAuthAuthorizationServerMetadata) },
	"OAuthClientMetadata":              func() any { return new(oidfed.OAuthClientMetadata) },
	"OAuthProtectedResourceMetadata":   func() any { return new(oidfed.OAuthProtectedResourceMetadata) },
	"FederationEntityMetadata":         func() any { return new(oidfed.FederationEntityMetadata) },
	"EntityStatementPayload":           func() any { return new(oidfed.EntityStatementPayload) },
	"MetadataPolicies":                 func() any { return new(oidfed.MetadataPolicies) },
	"ConstraintSpecification":          func() any { return new(oidfed.ConstraintSpecification) },
	"NamingConstraints":                func() any { return new(oidfed.NamingConstraints) },
	"TrustMarkOwnerSpec":               func() any { return new(oidfed.TrustMarkOwnerSpec) },
	"TrustMarkInfo":                    func() any { return new(oidfed.TrustMarkInfo) },
	"TrustMark":                        func() any { return new(oidfed.TrustMark) },
	"DelegationJWT":                    func() any { return new(oidfed.DelegationJWT) },
	"TrustMarkSpec":                    func() any { return new(oidfed.TrustMarkSpec) },
	"ResolveResponsePayload":           func() any { return new(oidfed.ResolveResponsePayload) },
	"ResolveResponse":                  func() any { return new(oidfed.ResolveResponse) },
	"EntityCollectionResponse":         func() any { return new(oidfed.EntityCollectionResponse) },
	"CollectedEntity":                  func() any { return new(oidfed.CollectedEntity) },
	"UIInfo":                           func() any { return new(oidfed.UIInfo) },
	"OIDCTokenResponse":                func() any { return new(oidfed.OIDCTokenResponse) },
	"OIDCErrorResponse":                func() any { return new(oidfed.OIDCErrorResponse) },
	"TrustAnchor":                      func() any { return new(oidfed.TrustAnchor) },
}

// types kept in caches
var packed = map[string]bool{
	"Metadata": true, "OpenIDProviderMetadata": true, "OpenIDRelyingPartyMetadata": true, "OAuthAuthorizationServerMetadata": true,
	"OAuthClientMetadata": true, "OAuthProtectedResourceMetadata": true, "FederationEntityMetadata": true, "EntityStatementPayload": true,
	"MetadataPolicies": true, "ConstraintSpecification": true, "NamingConstraints": true, "TrustMarkOwnerSpec": true, "TrustMarkInfo": true,
}

// types only received
var readOnly = map[string]bool{"OIDCTokenResponse": true}

var yamlTypes = map[string]bool{"TrustMarkSpec": true, "TrustAnchor": true}

func emptyJSON(v any) bool {
	switch t := v.(type) {
	case nil:
		return true
	case string:
		return t == ""
	case float64:
		return t == 0
	case bool:
		return !t
	case []any:
		return len(t) == 0
	case map[string]any:
		return len(t) == 0
	}
	return false
}

// docDiff compares a document with what came out; a claim of the type that is not in the document may be written as empty.
func docDiff(typ string, doc map[string]any, out []byte) string {
	var got map[string]any
	if err := json.Unmarshal(out, &got); err != nil {
		return "not an object: " + err.Error()
	}
	for _, c := range fed.Claims[typ] {
		if v, ok := got[c.Name]; ok && emptyJSON(v) {
			if _, ok = doc[c.Name]; !ok {
				delete(got, c.Name)
			}
		}
	}
	a, b := string(canon(generic(doc))), string(canon(got))
	if a == b {
		return ""
	}
	return firstDiff(a, b)
}

func kindOf(k string) string {
	if len(k) <= 2 {
		return k
	}
	return "o"
}

// fieldDiff compares the fields of a decoded document with its claims.
func fieldDiff(typ string, doc map[string]any, v any) string {
	rv := reflect.ValueOf(v).Elem()
	for _, c := range fed.Claims[typ] {
		f := rv.FieldByName(c.Field)
		if !f.IsValid() {
			continue
		}
		want, set := doc[c.Name]
		if !set {
			if !f.IsZero() {
				return fmt.Sprintf("%s is set without claim %s", c.Field, c.Name)
			}
			continue
		}
		var got any
		switch x := f.Interface().(type) {
		case unixtime.Unixtime:
			got = float64(x.UnixNano()) / 1e9
		case *unixtime.Unixtime:
			if x == nil {
				return c.Field + " is not set"
			}
			got = float64(x.UnixNano()) / 1e9
		case unixtime.DurationInSeconds:
			got = x.Duration.Seconds()
		default:
			got = generic(x)
		}
		if string(canon(got)) != string(canon(want)) {
			return fmt.Sprintf("%s is %s instead of %s", c.Field, cut(canon(got)), cut(canon(want)))
		}
	}
	if f := rv.FieldByName("Extra"); f.IsValid() && f.Kind() == reflect.Map && typ != "EntityCollectionResponse" {
		known := map[string]bool{}
		for _, c := range fed.Claims[typ] {
			known[c.Name] = true
		}
		var a, b []string
		for n := range doc {
			if !known[n] {
				a = append(a, n)
			}
		}
		for _, n := range f.MapKeys() {
			b = append(b, n.String())
		}
		sort.Strings(a)
		sort.Strings(b)
		if strings.Join(a, "\n") != strings.Join(b, "\n") {
			return fmt.Sprintf("extra claims are %q instead of %q", b, a)
		}
	}
	return ""
}

func cut(b []byte) string {
	if len(b) > 200 {
		return string(b[:200]) + "…"
	}
	return string(b)
}

func docGen(k *rt.Case) *fed.DocGen {
	g := &fed.DocGen{R: k.Rng, P: fed.Pick(k.Rng, 0.05, 0.2, 0.5, 0.9), Odd: fed.Chance(k.Rng, 0.5)}
	for i := 0; i < 3; i++ {
		g.Keys = append(g.Keys, fed.NewKey(fed.Pick(k.Rng, fed.Algs...), fmt.Sprintf("k%d", i)))
	}
	return g
}

var docNames []string

func docCase(k *rt.Case) {
	var i int
	_, _ = fmt.Sscanf(k.Name, "doc#%d", &i)
	typ := docNames[i%len(docNames)]
	g := docGen(k)
	doc := g.Doc(typ)
	raw := fed.MustJSON(doc)
	if fed.Chance(k.Rng, 0.3) {
		var b bytes.Buffer
		_ = json.Indent(&b, raw, " ", "\t")
		raw = b.Bytes()
	}
	in := append([]byte(nil), raw...)
	bad := func(what, diff string) {
		k.Violation(what, map[string]any{"type": typ, "doc": string(raw), "diff": diff})
	}
	v := docTypes[typ]()
	if err := json.Unmarshal(in, v); err != nil {
		bad("a document is refused", err.Error())
		return
	}
	if !bytes.Equal(in, raw) {
		bad("decoding changes its input", "")
	}
	for j := range in {
		in[j] = 'x'
	}
	if d := fieldDiff(typ, doc, v); d != "" {
		bad("a decoded document says something else", d)
	}
	if !readOnly[typ] {
		out, err := json.Marshal(v)
		if err != nil {
			bad("a decoded document cannot be encoded", err.Error())
			return
		}
		if d := docDiff(typ, doc, out); d != "" {
			bad("a document is not the same after decoding and encoding it", d)
		}
		out2, err := json.Marshal(reflect.ValueOf(v).Elem().Interface())
		if err != nil || string(canon(json.RawMessage(out2))) != string(canon(json.RawMessage(out))) {
			bad("a document is encoded differently by value", string(out2))
		}
		v2 := docTypes[typ]()
		if err = json.Unmarshal(out, v2); err != nil {
			bad("an encoded document cannot be decoded", err.Error())
		} else if d := fieldDiff(typ, doc, v2); d != "" {
			bad("a document is not the same after encoding and decoding it", d)
		}
		k.Count("json_roundtrips", 1)
	}
	if packed[typ] {
		p, err := msgpack.Marshal(v)
		if err != nil {
			bad("a document cannot be packed for the cache", err.Error())
			return
		}
		v2 := docTypes[typ]()
		if err = msgpack.Unmarshal(p, v2); err != nil {
			bad("a document cannot be unpacked from the cache", err.Error())
			return
		}
		for j := range p {
			p[j] = 'x'
		}
		out, err := json.Marshal(v2)
		if err != nil {
			bad("an unpacked document cannot be encoded", err.Error())
		} else if d := docDiff(typ, doc, out); d != "" {
			bad("a document is not the same after caching it", d)
		}
		if d := fieldDiff(typ, doc, v2); d != "" {
			bad("a document says something else after caching it", d)
		}
		k.Count("msgpack_roundtrips", 1)
	}
	if yamlTypes[typ] {
		yamlDoc(k, typ, doc, raw)
	}
	if m, ok := v.(*oidfed.Metadata); ok {
		findMetadata(k, doc, m)
	}
	var names []string
	for n := range doc {
		names = append(names, n)
	}
	sort.Strings(names)
	k.Eval(typ + "/" + strings.Join(names, ","))
	k.Count("documents", 1)
}

var entityTypeNames = map[string]string{
	"openid_provider": "OpenIDProviderMetadata", "openid_relying_party": "OpenIDRelyingPartyMetadata",
	"oauth_authorization_server": "OAuthAuthorizationServerMetadata", "oauth_client": "OAuthClientMetadata",
	"oauth_resource": "OAuthProtectedResourceMetadata", "federation_entity": "FederationEntityMetadata",
}

// findMetadata asks for the metadata of the entity types, as what the library knows or as something else.
func findMetadata(k *rt.Case, doc map[string]any, m *oidfed.Metadata) {
	det := map[string]any{"metadata": doc}
	before := string(canon(m))
	ask := append(slices.Sorted(maps.Keys(entityTypeNames)), slices.Sorted(maps.Keys(doc))...)
	for _, t := range append(ask, "absent", "") {
		det["entity type"] = t
		var x map[string]any
		err := m.FindEntityMetadata(t, &x)
		want, set := doc[t]
		if !set {
			if err == nil {
				det["got"] = x
				k.Violation("there is metadata for an entity type that the entity does not have", det)
			}
			continue
		}
		mm, ok := generic(want).(map[string]any)
		if !ok {
			continue
		}
		if err != nil {
			det["err"] = err.Error()
			k.Violation("the metadata of an entity type is not found", det)
			continue
		}
		typ := entityTypeNames[t]
		if d := docDiff(typ, mm, fed.MustJSON(x)); d != "" {
			det["difference"] = d
			k.Violation("the metadata found for an entity type is not what the entity says", det)
		}
		if typ != "" && docTypes[typ] != nil {
			y := docTypes[typ]()
			if err = m.FindEntityMetadata(t, y); err != nil {
				det["err"] = err.Error()
				k.Violation("the metadata of an entity type is not found", det)
			} else if d := fieldDiff(typ, mm, y); d != "" {
				det["difference"] = d
				k.Violation("the metadata found for an entity type is not what the entity says", det)
			}
		}
		k.Count("metadata_found", 1)
	}
	if string(canon(m)) != before {
		k.Violation("asking for metadata changes it", det)
	}
}

// wrongValue is a value that a claim of a kind cannot have.
func wrongValue(k *rt.Case, kind string) any {
	r := k.Rng
	obj := map[string]any{"a": 1.0}
	switch kind {
	case "s":
		return fed.Pick[any](r, 5.0, true, obj, []any{"x"}, []any{})
	case "l", "[]PolicyOperatorName":
		return fed.Pick[any](r, 5.0, true, obj, []any{5.0}, []any{"a", obj})
	case "b":
		return fed.Pick[any](r, "x", 5.0, obj, []any{true})
	case "n", "i", "t", "d":
		return fed.Pick[any](r, "soon", true, obj, []any{1.0})
	case "j":
		return fed.Pick[any](r, 5.0, "x", true, []any{})
	case "ms":
		return fed.Pick[any](r, 5.0, "x", []any{"a"}, map[string]any{"a": obj})
	}
	if kind == "JWSMessages" || kind == "TrustMarkInfos" || strings.HasPrefix(kind, "[]") {
		return fed.Pick[any](r, 5.0, "x", true, obj, []any{5.0})
	}
	return fed.Pick[any](r, 5.0, "x", true, []any{"a"})
}

// makeWrong gives one known claim of a document, or of one within it, a value of a wrong kind.
func makeWrong(k *rt.Case, typ string, doc map[string]any) (string, bool) {
	var l, within []fed.Claim
	for _, c := range fed.Claims[typ] {
		if _, ok := doc[c.Name].(map[string]any); ok && len(fed.Claims[c.Kind]) > 0 {
			within = append(within, c)
		}
		l = append(l, c)
	}
	if len(within) > 0 && fed.Chance(k.Rng, 0.5) {
		c := within[k.Rng.Intn(len(within))]
		n, ok := makeWrong(k, c.Kind, doc[c.Name].(map[string]any))
		return c.Name + "." + n, ok
	}
	if len(l) == 0 {
		return "", false
	}
	c := l[k.Rng.Intn(len(l))]
	doc[c.Name] = wrongValue(k, c.Kind)
	return c.Name + "/" + c.Kind, true
}

// wrongCase: what is not a document of the type is refused, not taken for a document that says something else.
func wrongCase(k *rt.Case) {
	var i int
	_, _ = fmt.Sscanf(k.Name, "wrong#%d", &i)
	typ := docNames[i%len(docNames)]
	g := docGen(k)
	doc := g.Doc(typ)
	what, ok := makeWrong(k, typ, doc)
	if !ok {
		return
	}
	raw := fed.MustJSON(doc)
	v := docTypes[typ]()
	if err := json.Unmarshal(raw, v); err == nil {
		k.Violation("a document with a value of a wrong kind is read", map[string]any{"type": typ, "claim": what, "doc": string(raw)})
	}
	k.Count("wrong_documents", 1)
	k.Eval("wrong/" + typ + "/" + what)
	if yamlTypes[typ] {
		for _, c := range fed.Claims[typ] {
			if c.Kind == "ms" || c.Kind == "map[string]any" {
				continue
			}
			doc = g.Doc(typ)
			doc[c.Name] = map[string]any{"a": []any{"b"}}
			if c.Kind == "j" {
				doc[c.Name] = []any{"x"}
			}
			y, err := yaml.Marshal(doc)
			if err != nil {
				panic(err)
			}
			if err = yaml.Unmarshal(y, docTypes[typ]()); err == nil {
				k.Violation("a YAML document with a value of a wrong kind is read", map[string]any{"type": typ, "claim": c.Name, "doc": string(y)})
			}
			k.Count("wrong_yaml_documents", 1)
		}
	}
}

// yamlDoc decodes and encodes a document as YAML.
func yamlDoc(k *rt.Case, typ string, doc map[string]any, raw []byte) {
	y := raw
	if fed.Chance(k.Rng, 0.6) {
		var err error
		if y, err = yaml.Marshal(doc); err != nil {
			panic(err)
		}
	}
	bad := func(what, diff string) {
		k.Violation(what, map[string]any{"type": typ, "doc": string(y), "diff": diff})
	}
	v := docTypes[typ]()
	if err := yaml.Unmarshal(y, v); err != nil {
		bad("a YAML document is refused", err.Error())
		return
	}
	if d := fieldDiff(typ, doc, v); d != "" {
		bad("a decoded YAML document says something else", d)
	}
	out, err := yaml.Marshal(v)
	if err != nil {
		bad("a YAML document cannot be encoded", err.Error())
		return
	}
	var g any
	if err = yaml.Unmarshal(out, &g); err != nil {
		bad("an encoded YAML document cannot be decoded", err.Error())
		return
	}
	if d := docDiff(typ, doc, fed.MustJSON(g)); d != "" {
		bad("a YAML document is not the same after decoding and encoding it", d)
	}
	v2 := docTypes[typ]()
	if err = yaml.Unmarshal(out, v2); err != nil {
		bad("an encoded YAML document cannot be decoded", err.Error())
	} else if d := fieldDiff(typ, doc, v2); d != "" {
		bad("a YAML document is not the same after encoding and decoding it", d)
	}
	k.Count("yaml_roundtrips", 1)
}

// constraintCase: an empty list is not the same as no list.
func constraintCase(k *rt.Case) {
	r := k.Rng
	lists := func(m map[string]any, names ...string) {
		for _, n := range names {
			switch r.Intn(3) {
			case 0:
				m[n] = []any{}
			case 1:
				m[n] = []any{"a", "b"}[:1+r.Intn(2)]
			}
		}
	}
	doc := map[string]any{}
	lists(doc, "allowed_entity_types")
	if fed.Chance(r, 0.7) {
		n := map[string]any{}
		lists(n, "permitted", "excluded")
		doc["naming_constraints"] = n
	}
	if fed.Chance(r, 0.6) {
		doc["max_path_length"] = float64(r.Intn(2))
	}
	var c oidfed.ConstraintSpecification
	raw := fed.MustJSON(doc)
	if err := json.Unmarshal(raw, &c); err != nil {
		k.Violation("constraints are refused", map[string]any{"doc": string(raw), "err": err.Error()})
		return
	}
	p := oidfed.EntityStatementPayload{Issuer: "a", Subject: "b", Constraints: &c}
	check := func(how string, got []byte) {
		var m map[string]any
		_ = json.Unmarshal(got, &m)
		if ex, ok := m["constraints"].(map[string]any); ok {
			if n, ok := ex["naming_constraints"].(map[string]any); ok {
				// nothing is excluded either way
				if l, ok := n["excluded"].([]any); ok && len(l) == 0 {
					delete(n, "excluded")
				}
			}
		}
		want := generic(doc).(map[string]any)
		if n, ok := want["naming_constraints"].(map[string]any); ok {
			if l, ok := n["excluded"].([]any); ok && len(l) == 0 {
				delete(n, "excluded")
			}
		}
		if a, b := string(canon(want)), string(canon(m["constraints"])); a != b {
			k.Violation("constraints are lost "+how, map[string]any{"were": a, "are": b})
		}
	}
	out, err := json.Marshal(p)
	if err != nil {
		k.Violation("constraints cannot be encoded", map[string]any{"doc": string(raw), "err": err.Error()})
		return
	}
	check("by encoding them", out)
	pk, err := msgpack.Marshal(p)
	var q oidfed.EntityStatementPayload
	if err == nil {
		err = msgpack.Unmarshal(pk, &q)
	}
	if err != nil {
		k.Violation("constraints cannot be cached", map[string]any{"doc": string(raw), "err": err.Error()})
		return
	}
	out, _ = json.Marshal(q)
	check("by caching them", out)
	k.Eval("constraints/" + string(raw))
}

// keysCase: key sets.
func keysCase(k *rt.Case) {
	r := k.Rng
	var ks []*fed.Key
	for i := 0; i <= r.Intn(4); i++ {
		ks = append(ks, fed.NewKey(fed.Pick(r, fed.Algs...), fmt.Sprintf("k%d", i)))
	}
	set := fed.JWKS(ks...)
	if fed.Chance(r, 0.4) {
		j := set["keys"].([]any)[0].(map[string]any)
		j["x_custom"] = fed.Pick[any](r, "v", 1.5, true, []any{"a"}, map[string]any{"b": "c"})
		j["key_ops"] = []any{"verify"}
	}
	raw := fed.MustJSON(set)
	other := fed.NewKey(ks[0].Alg, ks[0].Kid)
	signed := ks[r.Intn(len(ks))]
	now := time.Now().Unix()
	jwt := fed.Sign(signed, map[string]any{"typ": fed.TypStatement}, map[string]any{"iss": "a", "sub": "a", "iat": now, "exp": now + 100, "jwks": set})
	fjwt := fed.Sign(other, map[string]any{"typ": fed.TypStatement, "kid": signed.Kid}, map[string]any{"iss": "a", "sub": "a", "iat": now, "exp": now + 100, "jwks": set})
	st, err := oidfed.ParseEntityStatement(jwt)
	fst, err2 := oidfed.ParseEntityStatement(fjwt)
	if err != nil || err2 != nil {
		k.Violation("a statement is refused", map[string]any{"jwt": string(jwt), "err": fmt.Sprint(err, err2)})
		return
	}
	check := func(how string, s jwks.JWKS, err error) {
		if err != nil {
			k.Violation("a key set is refused "+how, map[string]any{"jwks": string(raw), "err": err.Error()})
			return
		}
		if a, b := string(canon(set)), string(canon(s)); a != b {
			k.Violation("a key set is not the same "+how, map[string]any{"was": a, "is": b})
		}
		if !st.Verify(s) {
			k.Violation("a signature cannot be verified with a key set "+how, map[string]any{"jwks": string(raw)})
		}
		if fst.Verify(s) {
			k.Violation("a forged signature is verified with a key set "+how, map[string]any{"jwks": string(raw)})
		}
		k.Count("key_sets", 1)
	}
	var a jwks.JWKS
	err = json.Unmarshal(raw, &a)
	check("as JSON", a, err)
	var b jwks.JWKS
	y, err := yaml.Marshal(a)
	if err == nil {
		err = yaml.Unmarshal(y, &b)
	}
	check("as YAML", b, err)
	var c jwks.JWKS
	if err = yaml.Unmarshal(raw, &c); err == nil {
		check("as JSON in YAML", c, err)
	}
	var d jwks.JWKS
	p, err := msgpack.Marshal(a)
	if err == nil {
		err = msgpack.Unmarshal(p, &d)
	}
	check("packed for the cache", d, err)
	check("in a statement", st.JWKS, nil)
	// the statement as a whole
	pk, err := msgpack.Marshal(st)
	var st2 oidfed.EntityStatement
	if err == nil {
		err = msgpack.Unmarshal(pk, &st2)
	}
	if err != nil {
		k.Violation("a statement cannot be cached", map[string]any{"jwt": string(jwt), "err": err.Error()})
		return
	}
	check("in a cached statement", st2.JWKS, nil)
	if !st2.Verify(a) || string(canon(st2.EntityStatementPayload)) != string(canon(st.EntityStatementPayload)) {
		k.Violation("a cached statement is another one", map[string]any{"jwt": string(jwt)})
	}
	pk, err = msgpack.Marshal(fst)
	var fst2 oidfed.EntityStatement
	if err == nil && msgpack.Unmarshal(pk, &fst2) == nil && fst2.Verify(a) {
		k.Violation("a cached forged statement is verified", map[string]any{"jwt": string(fjwt)})
	}
	k.Eval(fmt.Sprintf("keys/%d/%s/%v", len(ks), signed.Alg, strings.Contains(string(raw), "x_custom")))
}

// sliceCase: values that may be written without a list.
func sliceCase(k *rt.Case) {
	g := docGen(k)
	check := func(what string, data []byte, want []any, v any, err error, again func() ([]byte, error)) {
		if err != nil {
			k.Violation("a single value or list is refused", map[string]any{"data": string(data), "err": err.Error(), "as": what})
			return
		}
		rv := reflect.ValueOf(v).Elem()
		got := []any{}
		for i := 0; i < rv.Len(); i++ {
			got = append(got, generic(rv.Index(i).Interface()))
		}
		if string(canon(got)) != string(canon(want)) {
			k.Violation("a single value or list is read as something else", map[string]any{"data": string(data), "is": got, "as": what})
		}
		out, err := again()
		if err != nil {
			k.Violation("a single value or list cannot be written", map[string]any{"data": string(data), "err": err.Error()})
			return
		}
		var x any = want
		if len(want) == 1 {
			x = want[0]
		}
		var y any
		if strings.HasPrefix(what, "yaml") {
			_ = yaml.Unmarshal(out, &y)
		} else {
			_ = json.Unmarshal(out, &y)
		}
		if len(want) > 0 && string(canon(x)) != string(canon(y)) {
			k.Violation("a single value or list is written as something else", map[string]any{"data": string(data), "out": string(out), "as": what})
		}
		k.Eval(fmt.Sprintf("slice/%s/%d", what, len(want)))
	}
	n := k.Rng.Intn(4)
	want := []any{}
	for i := 0; i < n; i++ {
		want = append(want, fmt.Sprint("v", g.Value(fed.Claim{Kind: "s"})))
	}
	var x any = want
	if n == 1 && fed.Chance(k.Rng, 0.5) {
		x = want[0]
	}
	if n == 0 && fed.Chance(k.Rng, 0.5) {
		x = nil
	}
	data := fed.MustJSON(x)
	var s oidfed.SliceOrSingleValue[string]
	err := json.Unmarshal(data, &s)
	check("json/string", data, want, &s, err, func() ([]byte, error) { return json.Marshal(s) })
	ydata, _ := yaml.Marshal(x)
	var sy oidfed.SliceOrSingleValue[string]
	err = yaml.Unmarshal(ydata, &sy)
	check("yaml/string", ydata, want, &sy, err, func() ([]byte, error) { return yaml.Marshal(sy) })
	wantD := []any{}
	for i := 0; i < n; i++ {
		wantD = append(wantD, any(g.Doc("TrustMarkInfo")))
	}
	x = wantD
	if n == 1 && fed.Chance(k.Rng, 0.5) {
		x = wantD[0]
	}
	data = fed.MustJSON(x)
	var d oidfed.SliceOrSingleValue[oidfed.TrustMarkInfo]
	err = json.Unmarshal(data, &d)
	check("json/object", data, wantD, &d, err, func() ([]byte, error) { return json.Marshal(d) })
	wantN := []any{}
	for i := 0; i < n; i++ {
		wantN = append(wantN, float64(k.Rng.Intn(100)))
	}
	x = wantN
	if n == 1 && fed.Chance(k.Rng, 0.5) {
		x = wantN[0]
	}
	data = fed.MustJSON(x)
	var f oidfed.SliceOrSingleValue[int]
	err = json.Unmarshal(data, &f)
	check("json/number", data, wantN, &f, err, func() ([]byte, error) { return json.Marshal(f) })
}

func runC15(c *rt.Ctx) {
	c.Rule = "Documents of 24 types are generated from an independent table of claims (with unknown claims, odd names and values); every " +
		"document is decoded, its fields compared with its claims, encoded again, packed for the cache and unpacked, and (where " +
		"documented) taken through YAML; all results must be the same document; documents with one value of a wrong kind, at any depth, must be refused. Distinct by type and set of claims."
	c.Assume = []string{
		"claims that are absent may be written with an empty value and claims with an empty value may be left out, except for constraints",
		"numbers are float64",
	}
	for n := range docTypes {
		docNames = append(docNames, n)
	}
	sort.Strings(docNames)
	c.RunParallel("doc", len(docNames)*c.N(800, 12000), docCase)
	c.RunParallel("wrong", len(docNames)*c.N(300, 4000), wrongCase)
	c.RunParallel("constraints", c.N(400, 2000), constraintCase)
	c.RunParallel("keys", c.N(1500, 20000), keysCase)
	c.RunParallel("slice", c.N(3000, 30000), sliceCase)
}

// numText writes a number the ways JSON allows.
func numText(k *rt.Case, f float64) string {
	r := k.Rng
	switch r.Intn(4) {
	case 0:
		return strconv.FormatFloat(f, 'f', -1, 64)
	case 1:
		return strconv.FormatFloat(f, 'e', -1, 64)
	case 2:
		return strings.ToUpper(strconv.FormatFloat(f, 'e', 20, 64))
	default:
		return strconv.FormatFloat(f, 'g', -1, 64)
	}
}

// moment is a number of seconds as in some document.
func moment(k *rt.Case) float64 {
	r := k.Rng
	f := fed.Pick(
		r, 0, 1, 59, 1e6, 1.6e9, 1.7e9, 1.75e9, 4294967295, 4294967296, 9223372035, 9223372037, 1e10, 9999999999, 253402300799, 253402300800, 1e12, 1.7e12, 1e15,
		9007199254740991, 9007199254740993, 1e18, 9223372036854774784, 9223372036854775807, 9223372036854775808, 1e19, 1.8446744073709552e19, 1e100, 1e300, 1.7976931348623157e308,
	)
	if fed.Chance(r, 0.4) {
		f = float64(r.Int63n(fed.Pick[int64](r, 1e4, 1e10, 1e11, 1e15)))
	}
	if fed.Chance(r, 0.3) && math.Abs(f) < 1e12 {
		f += fed.Pick(r, 0.5, 0.25, 0.125, 0.001, 0.999, 0.1, 1e-6)
	}
	if fed.Chance(r, 0.25) {
		f = -f
	}
	return f
}

// timeIs: 0 if t is moment f (as far as time.Time can tell), or the direction of the error.
func timeIs(t time.Time, f float64) string {
	const lim = 9.2e18
	switch {
	case f > lim:
		if t.Unix() < 9e18 {
			return fmt.Sprintf("%v is %d", f, t.Unix())
		}
		return ""
	case f < -lim:
		if t.Unix() > -9e18 {
			return fmt.Sprintf("%v is %d", f, t.Unix())
		}
		return ""
	}
	got := float64(t.Unix()) + float64(t.Nanosecond())/1e9
	if math.Abs(got-f) > 2e-6+math.Abs(f)*4e-16 {
		return fmt.Sprintf("%v is %v", f, got)
	}
	return ""
}

// atNow: what has been over for a moment is over, and what begins in a moment has not begun.
func atNow(k *rt.Case) {
	d := time.Duration(1 + k.Rng.Int63n(int64(fed.Pick(k.Rng, time.Microsecond, time.Millisecond, time.Second))))
	past, future := unixtime.Unixtime{Time: time.Now().Add(-d)}, unixtime.Unixtime{Time: time.Now().Add(d + time.Minute)}
	if unixtime.VerifyTime(nil, &past) == nil {
		k.Violation("what ended a moment ago is said to be valid", map[string]any{"ago": d.String()})
	}
	if unixtime.VerifyTime(&past, nil) != nil {
		k.Violation("what began a moment ago is said not to be valid", map[string]any{"ago": d.String()})
	}
	if unixtime.VerifyTime(&past, &future) != nil {
		k.Violation("what is valid now is said not to be valid", map[string]any{"since": d.String()})
	}
	soon := unixtime.Unixtime{Time: time.Now().Add(d)}
	err := unixtime.VerifyTime(&soon, nil)
	if time.Now().Before(soon.Time) && err == nil {
		k.Violation("what begins in a moment is said to be valid", map[string]any{"in": d.String()})
	}
	soon = unixtime.Unixtime{Time: time.Now().Add(d)}
	err = unixtime.VerifyTime(nil, &soon)
	if time.Now().Before(soon.Time) && err != nil {
		k.Violation("what ends in a moment is said to be over", map[string]any{"in": d.String()})
	}
	k.Count("judged_at_the_moment", 5)
}

// momentCase: single times.
func momentCase(k *rt.Case) {
	f := moment(k)
	txt := numText(k, f)
	f, _ = strconv.ParseFloat(txt, 64)
	det := map[string]any{"number": txt}
	var u unixtime.Unixtime
	if err := json.Unmarshal([]byte(txt), &u); err != nil {
		det["err"] = err.Error()
		k.Violation("a time is refused", det)
		return
	}
	if why := timeIs(u.Time, f); why != "" {
		det["why"] = why
		k.Violation("a time is read as another one", det)
	}
	atNow(k)
	if math.Abs(f) > 5 {
		now := time.Now()
		n := float64(now.Unix())
		if math.Abs(f-n) > 1000 {
			if u.After(now) != (f > n) || u.Before(now) != (f < n) {
				k.Violation("a time is on the wrong side of now", det)
			}
			if (unixtime.Until(u) > 0) != (f > n) {
				k.Violation("the time until a moment has the wrong sign", det)
			}
			if f != -62135596800 {
				if (unixtime.VerifyTime(&u, nil) == nil) != (f < n) {
					k.Violation("a start of validity is judged wrongly", det)
				}
				if (unixtime.VerifyTime(nil, &u) == nil) != (f > n) {
					k.Violation("an end of validity is judged wrongly", det)
				}
			}
			k.Count("judged_against_now", 1)
		}
	}
	if math.Abs(f) < 9e18 {
		out, err := json.Marshal(u)
		if err != nil {
			det["err"] = err.Error()
			k.Violation("a time cannot be written", det)
			return
		}
		g, err := strconv.ParseFloat(string(out), 64)
		if err != nil || math.Abs(g-f) > 4e-6+math.Abs(f)*8e-16 {
			det["out"] = string(out)
			k.Violation("a time is written as another one", det)
		}
		pk, err := msgpack.Marshal(u)
		var v unixtime.Unixtime
		if err == nil {
			err = msgpack.Unmarshal(pk, &v)
		}
		if math.Abs(f) < 2e11 && (err != nil || timeIs(v.Time, f) != "") {
			det["err"] = fmt.Sprint(err, " ", timeIs(v.Time, f))
			k.Violation("a time is another one after caching it", det)
		}
	}
	for _, bad := range []string{`"1700000000"`, `true`, `[1]`, `{}`, `"x"`, `""`} {
		var x unixtime.Unixtime
		if json.Unmarshal([]byte(bad), &x) == nil {
			k.Violation("something that is no number is read as a time", map[string]any{"json": bad})
		}
	}
	k.Eval("moment/" + txt)
}

// lengthCase: single durations.
func lengthCase(k *rt.Case) {
	f := moment(k)
	if fed.Chance(k.Rng, 0.4) {
		f = float64(k.Rng.Intn(100000)) / fed.Pick(k.Rng, 1.0, 10, 1000, 8)
	}
	txt := numText(k, f)
	f, _ = strconv.ParseFloat(txt, 64)
	const lim = 9.2e9
	is := func(how string, d time.Duration) {
		ok := math.Abs(d.Seconds()-f) <= 1e-6+math.Abs(f)*4e-16
		if f > lim {
			ok = d.Seconds() > 9e9
		} else if f < -lim {
			ok = d.Seconds() < -9e9
		}
		if !ok {
			k.Violation("a duration is another one "+how, map[string]any{"number": txt, "is": d.String()})
		}
	}
	is("from seconds", unixtime.NewDurationInSeconds(f).Duration)
	var d unixtime.DurationInSeconds
	if err := json.Unmarshal([]byte(txt), &d); err != nil {
		k.Violation("a duration is refused", map[string]any{"number": txt, "err": err.Error()})
	}
	is("as JSON", d.Duration)
	var y unixtime.DurationInSeconds
	if err := yaml.Unmarshal([]byte(txt), &y); err != nil {
		k.Violation("a YAML duration is refused", map[string]any{"number": txt, "err": err.Error()})
	}
	is("as YAML", y.Duration)
	out, err := json.Marshal(d)
	var d2 unixtime.DurationInSeconds
	if err == nil {
		err = json.Unmarshal(out, &d2)
	}
	if err != nil {
		k.Violation("a duration cannot be written and read", map[string]any{"number": txt, "err": err.Error()})
	}
	is("written as JSON", d2.Duration)
	out, err = yaml.Marshal(d)
	var d3 unixtime.DurationInSeconds
	if err == nil {
		err = yaml.Unmarshal(out, &d3)
	}
	if err != nil {
		k.Violation("a duration cannot be written and read", map[string]any{"number": txt, "err": err.Error()})
	}
	is("written as YAML", d3.Duration)
	var spec oidfed.TrustMarkSpec
	if err = yaml.Unmarshal([]byte("trust_mark_type: x\nlifetime: "+txt), &spec); err != nil {
		k.Violation("a lifetime is refused", map[string]any{"number": txt, "err": err.Error()})
	}
	is("as a lifetime", spec.Lifetime.Duration)
	k.Eval("length/" + txt)
}

// validityCase: the validity of documents.
func validityCase(k *rt.Case) {
	r := k.Rng
	now := time.Now()
	n := float64(now.Unix())
	at := func() (string, float64, bool) {
		switch r.Intn(6) {
		case 0:
			return "", 0, false
		case 1, 2:
			f := n + fed.Pick(r, -1e6, -3600.0, -30, -10.5, 30, 60.25, 3600, 1e6)
			return numText(k, f), f, true
		}
		for {
			f := moment(k)
			if math.Abs(f-n) > 1000 && f != -62135596800 {
				t := numText(k, f)
				f, _ = strconv.ParseFloat(t, 64)
				return t, f, true
			}
		}
	}
	it, iat, hasIat := at()
	et, exp, hasExp := at()
	key := fed.NewKey("ES256", "k")
	claims := map[string]any{"iss": "http://x", "sub": "http://x", "jwks": fed.JWKS(key), "trust_mark_type": "http://t"}
	if hasIat {
		claims["iat"] = json.RawMessage(it)
	}
	if hasExp {
		claims["exp"] = json.RawMessage(et)
	}
	det := map[string]any{"iat": it, "exp": et}
	started, ended := !hasIat || iat < n, hasExp && exp < n
	st, err := oidfed.ParseEntityStatement(fed.Sign(key, map[string]any{"typ": fed.TypStatement}, claims))
	if err != nil {
		det["err"] = err.Error()
		k.Violation("a statement cannot be read", det)
		return
	}
	want := started && hasExp && !ended
	if got := st.TimeValid(); got != want {
		det["valid"] = got
		k.Violation("the validity of a statement is judged wrongly", det)
	}
	mark := oidfed.TrustMarkInfo{TrustMarkType: "http://t", TrustMarkJWT: string(fed.Sign(key, map[string]any{"typ": "trust-mark+jwt"}, claims))}
	want = started && !ended
	if err = mark.VerifyExternal(st.JWKS); (err == nil) != want {
		det["err"] = fmt.Sprint(err)
		k.Violation("the validity of a trust mark is judged wrongly", det)
	}
	pk, err := msgpack.Marshal(st)
	var st2 oidfed.EntityStatement
	if err == nil {
		err = msgpack.Unmarshal(pk, &st2)
	}
	if err != nil {
		// cannot be cached
		k.Count("uncacheable", 1)
	} else if st2.TimeValid() && !(started && hasExp && !ended) {
		k.Violation("a statement becomes valid by caching it", det)
	}
	k.Eval("validity/" + it + "/" + et)
}

func runC16(c *rt.Ctx) {
	c.Rule = "Times and durations of all magnitudes (from fractions of a second to beyond what any clock represents, both signs, all JSON " +
		"number notations) are decoded, compared with the exact value, written again, cached, and used as start and end of validity of " +
		"statements and trust marks; the expected verdict follows from comparing numbers. Distinct by numbers."
	c.Assume = []string{"moments within some seconds of now and the moment Go uses as zero time are not judged"}
	c.RunParallel("moment", c.N(20000, 400000), momentCase)
	c.RunParallel("length", c.N(20000, 400000), lengthCase)
	c.RunParallel("validity", c.N(8000, 100000), validityCase)
}
