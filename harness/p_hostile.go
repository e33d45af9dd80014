package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"
	"github.com/vmihailenco/msgpack/v5"
	"gopkg.in/yaml.v3"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/cache"
	"github.com/go-oidfed/lib/jwks"
	"github.com/go-oidfed/lib/unixtime"

	"github.com/go-oidfed/lib/verifharness/fed"
	"github.com/go-oidfed/lib/verifharness/rt"
)

func init() {
	register("C14", property{run: runC14})
}

var hostileURLs = []string{
	"", "http://", "://", "http://[::1", "mailto:x", "http://host:99999/", "http://%zz/", "/relative", "http://x y/", "http://127.0.0.1:1/x",
	"?", "#", "http://a\x00b/", "ftp://x/y", "http:///nohost", "\n", "http://user:pw@h.test/", "http://h.test/" + strings.Repeat("a/", 3000), "https://secure.test/",
	"HTTP://UPPER.TEST", "http://ä.test/☃", "http://h.test/?a=b&sub=evil", "..", "http://h.test/%2e%2e/%00", "data:,x",
}

func deep(r *rand.Rand) any {
	n := fed.Pick(r, 3, 50, 400)
	var v any = "bottom"
	obj := fed.Chance(r, 0.5)
	for i := 0; i < n; i++ {
		if obj {
			v = map[string]any{fed.Pick(r, "a", "keys", "openid_provider", "scope"): v}
		} else {
			v = []any{v}
		}
	}
	return v
}

// hostileValue is a value that may be anything.
func hostileValue(r *rand.Rand) any {
	switch r.Intn(24) {
	case 0, 1, 2, 3:
		return nil
	case 4:
		return fed.Chance(r, 0.5)
	case 5:
		return fed.Pick[any](r, 0, -1, 1e308, -1e308, 1.5, 1e19, -9223372036854775808.0, 253402300800, 5e-324, 9007199254740993.0)
	case 6:
		return ""
	case 7:
		return fed.Pick(r, "\x00", "a", "eyJ", "a.b.c", "..", "null", "é☃", strings.Repeat("x", 5000), "http://h.test", "*", "\ufffd", "-1", "true")
	case 8:
		return []any{}
	case 9:
		return []any{nil}
	case 10:
		return map[string]any{}
	case 11:
		return map[string]any{"": nil}
	case 12:
		return deep(r)
	case 13:
		return []any{"a", 1.0, nil, map[string]any{}, []any{}}
	case 14:
		return hostileURLs[r.Intn(len(hostileURLs))]
	case 15:
		return map[string]any{"keys": hostileValue(r)}
	case 16:
		return map[string]any{"keys": []any{map[string]any{"kty": fed.Pick[any](r, "EC", "RSA", "OKP", "oct", nil, 1.0, "x"), "crv": fed.Pick[any](r, "P-256", "Ed25519", "x", nil),
			"x": hostileValue(r), "y": "AA", "n": fed.Pick[any](r, "AQ", "", nil), "e": fed.Pick[any](r, "AQAB", "", "AA"), "k": "AA", "kid": hostileValue(r), "alg": hostileValue(r)}}}
	case 17:
		return map[string]any{fed.Pick(r, "openid_provider", "federation_entity", "openid_relying_party", "x"): hostileValue(r)}
	case 18:
		return map[string]any{fed.Pick(r, "value", "add", "default", "one_of", "subset_of", "superset_of", "essential", "x"): hostileValue(r)}
	case 19:
		return map[string]any{fed.Pick(r, "permitted", "excluded", "max_path_length", "naming_constraints", "allowed_entity_types"): hostileValue(r)}
	case 20:
		return []any{hostileValue(r), hostileValue(r)}
	case 21:
		return map[string]any{fed.Pick(r, "trust_mark", "trust_mark_type", "id", "sub", "jwks", "iss"): hostileValue(r)}
	case 22:
		l := make([]any, 2000)
		for i := range l {
			l[i] = fmt.Sprint("s", i)
		}
		return l
	}
	return []any{[]any{nil}, []any{}}
}

// mutateValue replaces a part of a document; depth tells how far down it may go.
func mutateValue(r *rand.Rand, v any) any {
	switch x := v.(type) {
	case map[string]any:
		if len(x) == 0 || fed.Chance(r, 0.15) {
			break
		}
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		k := ks[r.Intn(len(ks))]
		c := map[string]any{}
		for n, y := range x {
			c[n] = y
		}
		switch r.Intn(8) {
		case 0:
			delete(c, k)
		case 1:
			c[fed.Pick(r, "", "x", strings.ToUpper(k), k+"\x00", "$", "kid")] = x[k]
		case 2:
			c[k] = c[ks[r.Intn(len(ks))]]
		default:
			c[k] = mutateValue(r, x[k])
		}
		return c
	case []any:
		if len(x) == 0 || fed.Chance(r, 0.15) {
			break
		}
		c := append([]any{}, x...)
		i := r.Intn(len(c))
		switch r.Intn(8) {
		case 0:
			c = append(c, c...)
		case 1:
			c = append(c[:i], c[i+1:]...)
		case 2:
			c = append(c, nil)
		default:
			c[i] = mutateValue(r, c[i])
		}
		return c
	}
	return hostileValue(r)
}

// mutateBytes damages a serialization.
func mutateBytes(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for i := 0; i <= r.Intn(3); i++ {
		n := len(b)
		if n == 0 {
			return []byte{byte(r.Intn(256))}
		}
		p := r.Intn(n)
		switch r.Intn(9) {
		case 0:
			b = b[:p]
		case 1:
			b = b[p:]
		case 2:
			b[p] = byte(r.Intn(256))
		case 3:
			b = append(b[:p], append([]byte(fed.Pick(r, "null", "{", "}", "[", "]", ",", "\"", "\\u0000", "\xff", "0", "-", ".", "e9", " ", "true", "!!binary ", "&a ", "*a", "<<: ", "\n- ", ": ")), b[p:]...)...)
		case 4:
			q := p + r.Intn(n-p)
			b = append(b, b[p:q]...)
		case 5:
			q := p + r.Intn(n-p)
			b = append(b[:p], b[q:]...)
		case 6:
			b = append([]byte("\xef\xbb\xbf"), b...)
		case 7:
			b = append(b, b...)
		case 8:
			b = bytes.Replace(b, []byte(`"`), []byte(`'`), 1+r.Intn(3))
		}
	}
	return b
}

// exercise calls the methods without arguments of all values of the library that are part of v, and those that encode.
func exercise(v reflect.Value, depth int, seen map[uintptr]bool) (calls int) {
	if depth > 7 || !v.IsValid() {
		return
	}
	t := v.Type()
	own := t.PkgPath() != "" && strings.HasPrefix(t.PkgPath(), "github.com/go-oidfed/lib") ||
		t.Kind() == reflect.Pointer && strings.HasPrefix(t.Elem().PkgPath(), "github.com/go-oidfed/lib")
	nilable := v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface
	if own && v.CanInterface() && !(nilable && v.IsNil()) {
		for i := 0; i < t.NumMethod(); i++ {
			m := t.Method(i)
			if m.Type.NumIn() != 1 {
				continue
			}
			if promoted(t, m.Name) && !strings.HasPrefix(m.Name, "Marshal") {
				continue
			}
			v.Method(i).Call(nil)
			calls++
		}
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.Kind() == reflect.Pointer {
			if seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
		}
		if e := v.Elem(); e.Kind() == reflect.Struct || e.Kind() == reflect.Map || e.Kind() == reflect.Slice || e.Kind() == reflect.Pointer {
			calls += exercise(e, depth+1, seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).IsExported() {
				calls += exercise(v.Field(i), depth+1, seen)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len() && i < 5; i++ {
			calls += exercise(v.Index(i), depth+1, seen)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			calls += exercise(v.MapIndex(k), depth+1, seen)
		}
	}
	return
}

// promoted tells whether a method is (also) one of an embedded field, which may be nil.
func promoted(t reflect.Type, name string) bool {
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	if t.Kind() != reflect.Struct {
		return false
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Anonymous && !strings.HasPrefix(f.Type.PkgPath(), "github.com/go-oidfed/lib") {
			if _, ok := f.Type.MethodByName(name); ok {
				return true
			}
		}
	}
	return false
}

// operate does what is done with received values.
func operate(k *rt.Case, v any) {
	k.Count("method_calls", exercise(reflect.ValueOf(v), 0, map[uintptr]bool{}))
	_, _ = json.Marshal(v)
	if b, err := msgpack.Marshal(v); err == nil {
		_ = msgpack.Unmarshal(b, reflect.New(reflect.TypeOf(v).Elem()).Interface())
	}
	keys := someKeys
	switch x := v.(type) {
	case *oidfed.Metadata:
		x.IterateStringClaim("organization_name", func(string, string) {})
		x.IterateStringSliceClaim("keywords", func(string, []string) {})
		_, _ = x.ApplyPolicy(nil)
		_, _ = x.ApplyPolicy(somePolicies)
		for _, t := range x.GuessEntityTypes() {
			var y any
			_ = x.FindEntityMetadata(t, &y)
			var m oidfed.OpenIDProviderMetadata
			_ = x.FindEntityMetadata(t, &m)
		}
	case *oidfed.MetadataPolicies:
		p, err := oidfed.MergeMetadataPolicies(x, somePolicies)
		if err == nil {
			_, _ = someMetadata.ApplyPolicy(p)
			_, _ = (&oidfed.Metadata{}).ApplyPolicy(p)
		}
		_, _ = oidfed.MergeMetadataPolicies(somePolicies, x, nil)
		_, _ = someMetadata.ApplyPolicy(x)
	case *oidfed.TrustMarkInfo:
		_ = x.VerifyExternal(keys)
		_ = x.VerifyFederation(&oidfed.EntityStatementPayload{})
	case *oidfed.TrustMark:
		_ = x.VerifyExternal(keys)
		_ = x.VerifyExternal(jwks.JWKS{}, oidfed.TrustMarkOwnerSpec{})
	case *oidfed.DelegationJWT:
		_ = x.VerifyExternal(keys)
		_ = x.VerifyFederation(&oidfed.EntityStatementPayload{})
	case *oidfed.EntityStatementPayload:
		operatePayload(k, x)
	case *oidfed.ResolveResponse:
		operatePayload(k, &oidfed.EntityStatementPayload{TrustMarks: x.TrustMarks, Metadata: x.Metadata})
	case *oidfed.TrustMarkSpec:
		tmi := oidfed.NewTrustMarkIssuer("http://i", someSigner.TrustMarkSigner(), []oidfed.TrustMarkSpec{*x})
		_, _ = tmi.IssueTrustMark(x.TrustMarkType, "http://s")
	}
}

// operatePayload uses the claims of a statement, also as those of an anchor.
func operatePayload(k *rt.Case, x *oidfed.EntityStatementPayload) {
	_ = x.TimeValid()
	for i := range x.TrustMarks {
		if i > 3 {
			break
		}
		_ = x.TrustMarks[i].VerifyExternal(someKeys)
		_ = x.TrustMarks[i].VerifyFederation(x)
	}
	x.TrustMarks.FindByID("x")
	x.TrustMarks.VerifiedExternal(someKeys)
	// as anchor of a genuine mark
	if m, err := oidfed.ParseTrustMark(someMark); err == nil {
		_ = m.VerifyFederation(x)
		if d, err := m.Delegation(); err == nil && d != nil {
			_ = d.VerifyFederation(x)
		}
		_ = m.VerifyExternal(x.JWKS)
		for _, o := range x.TrustMarkOwners {
			_ = m.VerifyExternal(someKeys, o)
		}
	}
	if x.Metadata != nil {
		_, _ = x.Metadata.ApplyPolicy(x.MetadataPolicy)
	}
	c := oidfed.TrustChain{
		&oidfed.EntityStatement{EntityStatementPayload: *x}, &oidfed.EntityStatement{EntityStatementPayload: *x},
	}
	_ = c.PathLen()
	_ = c.ExpiresAt()
	var claims map[string]any
	if b, err := json.Marshal(x); err != nil || json.Unmarshal(b, &claims) != nil {
		return
	}
	if st, err := oidfed.ParseEntityStatement(fed.Sign(someKey, map[string]any{"typ": fed.TypStatement}, claims)); err == nil {
		c := oidfed.TrustChain{st, st, st}
		_, _ = c.Metadata()
		_ = c.Messages()
		st.Verify(x.JWKS)
		st.Verify(someKeys)
		if b, err := msgpack.Marshal(st); err == nil {
			_ = msgpack.Unmarshal(b, new(oidfed.EntityStatement))
		}
	}
}

var (
	someKey      = fed.NewKey("ES256", "some")
	someKeys     jwks.JWKS
	somePolicies *oidfed.MetadataPolicies
	someMetadata *oidfed.Metadata
	someSigner   *oidfed.GeneralJWTSigner
	someMark     []byte
)

func prepareSome() {
	someKeys = toJWKS(generic(fed.JWKS(someKey)))
	somePolicies = decode[oidfed.MetadataPolicies](map[string]any{
		"openid_provider": map[string]any{
			"scopes_supported": map[string]any{"add": []any{"a"}, "subset_of": []any{"a", "openid"}}, "issuer": map[string]any{"default": "x"},
			"grant_types_supported": map[string]any{"superset_of": []any{"authorization_code"}}, "organization_name": map[string]any{"one_of": []any{"a", "b"}},
			"x_y": map[string]any{"essential": true},
		},
		"openid_relying_party": map[string]any{"redirect_uris": map[string]any{"value": []any{"http://x"}}},
		"custom":               map[string]any{"c": map[string]any{"add": []any{1.0}}},
	})
	someMetadata = decode[oidfed.Metadata](map[string]any{
		"openid_provider": fed.OPMeta("http://op"), "openid_relying_party": fed.RPMeta("http://rp"), "custom": map[string]any{"c": "d", "e": []any{}},
		"federation_entity": map[string]any{"federation_fetch_endpoint": "x"},
	})
	someSigner = oidfed.NewGeneralJWTSigner(someKey.Priv, jwa.ES256())
	d := fed.Sign(someKey, map[string]any{"typ": fed.TypDelegation}, map[string]any{"iss": "http://o", "sub": "http://i", "trust_mark_type": "t", "iat": 1})
	someMark = fed.Sign(someKey, map[string]any{"typ": fed.TypMark}, map[string]any{
		"iss": "http://i", "sub": "http://s", "trust_mark_type": "t", "iat": 1, "delegation": string(d),
	})
}

// hostileDoc decodes damaged documents and uses what comes out.
func hostileDoc(k *rt.Case) {
	r := k.Rng
	g := docGen(k)
	names := make([]string, 0, len(docTypes))
	for n := range docTypes {
		names = append(names, n)
	}
	sort.Strings(names)
	typ := names[r.Intn(len(names))]
	var doc any = g.Doc(typ)
	for i := 0; i <= r.Intn(3); i++ {
		doc = mutateValue(r, doc)
	}
	raw := fed.MustJSON(doc)
	if fed.Chance(r, 0.2) {
		raw = mutateBytes(r, raw)
	}
	k.Logf("%s: %q", typ, raw)
	v := docTypes[typ]()
	err := json.Unmarshal(raw, v)
	operate(k, v)
	how := "json"
	switch r.Intn(4) {
	case 0:
		how = "msgpack"
		b, e := msgpack.Marshal(doc)
		if e == nil {
			if fed.Chance(r, 0.3) {
				b = mutateBytes(r, b)
			}
			v = docTypes[typ]()
			k.Logf("msgpack %x", b)
			err = msgpack.Unmarshal(b, v)
			operate(k, v)
		}
	case 1:
		how = "yaml"
		y, e := yaml.Marshal(doc)
		if e == nil {
			if fed.Chance(r, 0.5) {
				y = mutateBytes(r, y)
			}
			k.Logf("yaml %q", y)
			if yamlTypes[typ] {
				v = docTypes[typ]()
				err = yamlUnmarshal(k, y, v)
				operate(k, v)
			}
			for _, c := range []any{
				new(oidfed.EntityConfigurationTrustMarkConfig), new(oidfed.OwnedTrustMark), new(jwks.JWKS), new(unixtime.DurationInSeconds),
				new(oidfed.TrustAnchors), new(oidfed.SliceOrSingleValue[string]),
			} {
				_ = yamlUnmarshal(k, y, c)
				if yv := reflect.ValueOf(c); yv.Type() != reflect.TypeOf(new(oidfed.EntityConfigurationTrustMarkConfig)) {
					exercise(yv, 0, map[uintptr]bool{})
				}
			}
		}
	}
	o := "read"
	if err != nil {
		o = "refused"
	}
	k.Count(how+" "+o, 1)
	k.Eval(fmt.Sprintf("doc/%s/%s/%s/%d", typ, how, o, len(raw)))
}

// yamlUnmarshal lets panics of the YAML library itself pass: they are not of this library.
func yamlUnmarshal(k *rt.Case, y []byte, v any) (err error) {
	return yaml.Unmarshal(y, v)
}

var smallTypes = []func() any{
	func() any { return new(unixtime.Unixtime) }, func() any { return new(unixtime.DurationInSeconds) },
	func() any { return new(jwks.JWKS) }, func() any { return new(oidfed.SliceOrSingleValue[string]) },
	func() any { return new(oidfed.MetadataPolicy) }, func() any { return new(oidfed.MetadataPolicyEntry) }, func() any { return new(oidfed.JWSMessages) },
	func() any { return new(oidfed.TrustMarkInfos) }, func() any { return new(oidfed.TrustMarkOwners) }, func() any { return new(oidfed.AllowedTrustMarkIssuers) },
	func() any { return new(apimodel.ResolveRequest) }, func() any { return new(apimodel.EntityCollectionRequest) }, func() any { return new(oidfed.EntityStatement) },
	func() any { return new(oidfed.TrustChain) }, func() any { return new(oidfed.TrustChains) }, func() any { return new(oidfed.TrustAnchors) },
}

// hostileSmall decodes arbitrary values into the small types.
func hostileSmall(k *rt.Case) {
	r := k.Rng
	x := r.Intn(len(smallTypes))
	v := smallTypes[x]()
	h := hostileValue(r)
	raw := fed.MustJSON(h)
	switch r.Intn(5) {
	case 0:
		raw = mutateBytes(r, raw)
	case 1:
		raw = []byte(fed.Pick(r, "1e400", "-0", "1e-400", "99999999999999999999999999", "1e309", "0.1e1000000000", "-1e18", "1E5", "9223372036854775807.999", "NaN", "", " ", "\"1\"", "1_000", "0x10"))
	}
	k.Logf("%T %q", v, raw)
	err := json.Unmarshal(raw, v)
	useSmall(k, v)
	if _, ok := v.(*oidfed.JWSMessages); ok {
		k.Eval(fmt.Sprintf("small/messages/%v/%d", err == nil, len(raw)))
		return // JSON only
	}
	if y, e := yaml.Marshal(h); e == nil {
		if fed.Chance(r, 0.3) {
			y = raw
		}
		w := smallTypes[x]()
		_ = yaml.Unmarshal(y, w)
		useSmall(k, w)
	}
	if b, e := msgpack.Marshal(h); e == nil {
		if fed.Chance(r, 0.3) {
			b = mutateBytes(r, b)
		}
		w := smallTypes[x]()
		_ = msgpack.Unmarshal(b, w)
		useSmall(k, w)
	}
	k.Eval(fmt.Sprintf("small/%T/%v/%d", v, err == nil, len(raw)))
}

func useSmall(k *rt.Case, v any) {
	if s, ok := v.(*oidfed.EntityStatement); ok {
		s.Verify(someKeys)
		_ = s.TimeValid()
		return
	}
	if c, ok := v.(*oidfed.TrustChain); ok {
		for _, s := range *c {
			if s == nil {
				return
			}
		}
		_, _ = c.Metadata()
		return
	}
	if _, ok := v.(*oidfed.TrustChains); ok {
		return
	}
	exercise(reflect.ValueOf(v), 0, map[uintptr]bool{})
	_, _ = json.Marshal(v)
	_, _ = msgpack.Marshal(v)
	if reflect.TypeOf(v) != reflect.TypeOf(new(oidfed.JWSMessages)) {
		_, _ = yaml.Marshal(v)
	}
	switch x := v.(type) {
	case *oidfed.MetadataPolicyEntry:
		_ = x.Verify("p")
		for _, y := range policyValues {
			_, _ = x.ApplyTo(y, y != nil, "p")
		}
	case *oidfed.MetadataPolicy:
		_ = x.Verify("p")
		_, _ = oidfed.CombineMetadataPolicy("p", *x, *x)
		_, _ = oidfed.CombineMetadataPolicy("p", *x, somePolicies.OpenIDProvider)
	case *jwks.JWKS:
		if x.Set != nil {
			st, err := oidfed.ParseEntityStatement(fed.Sign(someKey, map[string]any{"typ": fed.TypStatement}, map[string]any{"iss": "a", "sub": "a"}))
			if err == nil {
				st.Verify(*x)
			}
		}
	}
}

var policyValues = []any{
	nil, "", "a", 1.0, true, []any{}, []any{"a"}, []string{"a", "b"}, []any{1.0, nil}, map[string]any{"a": 1.0}, [][]string{{"a"}}, 5, int64(7), uint8(1), []int{1},
	[]any{[]any{"a"}}, []any{map[string]any{"a": "b"}}, math.NaN(), math.Inf(1), struct{}{}, &struct{ A string }{"x"}, unixtime.Now(), time.Second, []byte("abc"),
	oidfed.SliceOrSingleValue[string]{"a"}, (*string)(nil), [2]string{"a", "b"}, []*string{nil},
}

// hostilePolicy applies arbitrary policies to arbitrary metadata.
func hostilePolicy(k *rt.Case) {
	r := k.Rng
	pc := genPolicies(r, 1+r.Intn(3), 0.5)
	var ms []any
	for _, p := range pc.policies {
		var x any = generic(p)
		for i := 0; i <= r.Intn(3); i++ {
			x = mutateValue(r, x)
		}
		ms = append(ms, x)
	}
	var md any = pc.meta
	for i := 0; i < r.Intn(3); i++ {
		md = mutateValue(r, md)
	}
	k.Logf("policies %s metadata %s", fed.MustJSON(ms), fed.MustJSON(md))
	var ps []*oidfed.MetadataPolicies
	for _, m := range ms {
		var p oidfed.MetadataPolicies
		if json.Unmarshal(fed.MustJSON(m), &p) == nil {
			ps = append(ps, &p)
		} else if fed.Chance(r, 0.5) {
			ps = append(ps, nil)
		}
	}
	var m oidfed.Metadata
	_ = json.Unmarshal(fed.MustJSON(md), &m)
	o := "refused"
	if p, err := oidfed.MergeMetadataPolicies(ps...); err == nil {
		if res, err := m.ApplyPolicy(p); err == nil {
			o = "applied"
			operate(k, res)
		}
	}
	for _, p := range ps {
		if p != nil {
			_, _ = m.ApplyPolicy(p)
		}
	}
	k.Count("policies "+o, 1)
	k.Eval(fmt.Sprintf("policy/%s/%d/%s", o, len(ps), pc.opNames()))
}

// hostileOps calls the operators with everything.
func hostileOps(k *rt.Case) {
	r := k.Rng
	e := oidfed.MetadataPolicyEntry{}
	for i := 0; i <= r.Intn(3); i++ {
		op := fed.Pick(r, oidfed.OperatorOrder...)
		if fed.Chance(r, 0.1) {
			op = "x"
		}
		e[op] = policyValues[r.Intn(len(policyValues))]
	}
	v := policyValues[r.Intn(len(policyValues))]
	set := fed.Chance(r, 0.8)
	k.Logf("%v applied to %v %v", e, v, set)
	err := e.Verify("p")
	_, err2 := e.ApplyTo(v, set, "p")
	o := oidfed.MetadataPolicyEntry{fed.Pick(r, oidfed.OperatorOrder...): policyValues[r.Intn(len(policyValues))]}
	_, err3 := oidfed.CombineMetadataPolicy("p", oidfed.MetadataPolicy{"c": e}, oidfed.MetadataPolicy{"c": o, "d": o})
	_, _ = oidfed.CombineMetadataPolicy("p")
	var names []string
	for n := range e {
		names = append(names, string(n))
	}
	sort.Strings(names)
	k.Eval(fmt.Sprintf("ops/%s/%T/%v/%v/%v/%v", strings.Join(names, "+"), v, set, err == nil, err2 == nil, err3 == nil))
}

// hostileToken parses damaged tokens with every parser.
func hostileToken(k *rt.Case) {
	r := k.Rng
	g := docGen(k)
	typ := fed.Pick(r, fed.TypStatement, fed.TypMark, fed.TypDelegation, typResolve)
	var claims any
	switch typ {
	case fed.TypStatement:
		claims = g.Doc("EntityStatementPayload")
	case fed.TypMark:
		c := g.Doc("TrustMark")
		if fed.Chance(r, 0.6) {
			d := mutateValue(r, g.Doc("DelegationJWT"))
			if dm, ok := d.(map[string]any); ok {
				c["delegation"] = string(fed.Sign(someKey, map[string]any{"typ": fed.TypDelegation}, dm))
			}
		}
		claims = c
	case fed.TypDelegation:
		claims = g.Doc("DelegationJWT")
	default:
		claims = g.Doc("ResolveResponse")
	}
	for i := 0; i < r.Intn(4); i++ {
		claims = mutateValue(r, claims)
	}
	var h any = map[string]any{"typ": typ}
	if fed.Chance(r, 0.2) {
		h = mutateValue(r, map[string]any{"typ": typ, "kid": someKey.Kid, "alg": "ES256"})
	}
	hm, _ := h.(map[string]any)
	var raw []byte
	if cm, ok := claims.(map[string]any); ok {
		raw = fed.Sign(someKey, hm, cm)
	} else {
		raw = []byte(fmt.Sprintf("%s.%s.%s", fed.B64(fed.MustJSON(h)), fed.B64(fed.MustJSON(claims)), fed.B64([]byte("x"))))
	}
	if fed.Chance(r, 0.2) {
		raw = mutateBytes(r, raw)
	}
	k.Logf("%s", raw)
	ok := ""
	if s, err := oidfed.ParseEntityStatement(raw); err == nil {
		ok += "s"
		s.Verify(someKeys)
		s.Verify(s.JWKS)
		if b, err := msgpack.Marshal(s); err == nil {
			_ = msgpack.Unmarshal(mutateBytes(r, b), new(oidfed.EntityStatement))
		}
		operatePayload(k, &s.EntityStatementPayload)
		c := oidfed.TrustChain{s, s}
		_, _ = c.Metadata()
		_, _ = json.Marshal(s)
	}
	if m, err := oidfed.ParseTrustMark(raw); err == nil {
		ok += "m"
		_ = m.VerifyExternal(someKeys)
		operate(k, m)
	}
	info := oidfed.TrustMarkInfo{TrustMarkJWT: string(raw)}
	_ = info.VerifyExternal(someKeys)
	_, _ = info.TrustMark()
	if p, err := oidfed.ParseResolveResponse(raw); err == nil {
		ok += "r"
		operate(k, p)
	}
	cfg := oidfed.EntityConfigurationTrustMarkConfig{JWT: string(raw)}
	if cfg.Verify("http://s", "", nil) == nil {
		ok += "c"
		_, _ = cfg.TrustMarkJWT()
	}
	k.Count("tokens read as "+ok, 1)
	k.Eval(fmt.Sprintf("token/%s/%s/%d", typ, ok, len(raw)))
}

// hostileResp is an answer that may be anything.
func hostileResp(r *rand.Rand, w *fed.World, u string, honest []byte) *fed.Resp {
	body := fed.MustJSON(hostileValue(r))
	switch r.Intn(10) {
	case 0:
		return &fed.Resp{Type: fed.Pick(r, "application/json", "text/html", "", "application/xml", "application/entity-statement+jwt", "multipart/form-data", "x/y; charset=\"", "application/problem+json"), Body: body, Status: fed.Pick(r, 200, 400, 404, 500, 204, 304, 418)}
	case 1:
		return &fed.Resp{Status: fed.Pick(r, 301, 302, 307, 308), Location: fed.Pick(r, u, hostileURLs[r.Intn(len(hostileURLs))], "http://other."+w.Suffix+"/x", u+"/")}
	case 2:
		return &fed.Resp{Type: "application/json", Body: mutateBytes(r, honest)}
	case 3:
		return &fed.Resp{Body: []byte{}}
	case 4:
		return &fed.Resp{Type: "application/xml", Body: []byte("<a><b></a>")}
	case 5:
		return &fed.Resp{Status: fed.Pick(r, 400, 500), Type: "application/json", Body: body}
	case 6:
		return &fed.Resp{Type: "application/json", Body: bytes.Repeat([]byte("[\"a\",0,"), 1<<uint(r.Intn(15)))}
	case 7:
		return &fed.Resp{Type: "application/json", Body: honest, Truncate: true}
	case 8:
		return &fed.Resp{Type: "application/json", Body: append([]byte("\xef\xbb\xbf \n"), honest...)}
	}
	return &fed.Resp{Type: "application/json", Body: body}
}

// poison makes nodes of a federation hostile; statements stay correctly signed, so that what is in them is used.
func poison(r *rand.Rand, f *fed.Fed) (what []string) {
	ss := f.Stmts()
	for i := 0; i <= r.Intn(4); i++ {
		s := ss[r.Intn(len(ss))]
		if fed.Chance(r, 0.12) {
			s.Resp = hostileResp(r, f.W, fmt.Sprint(s.Claims["iss"]), s.Raw())
			what = append(what, "response")
			continue
		}
		c := generic(s.Claims).(map[string]any)
		x := fed.Pick(r, "metadata", "metadata", "metadata", "metadata_policy", "metadata_policy", "constraints", "trust_marks", "trust_mark_owners", "trust_mark_issuers",
			"authority_hints", "jwks", "metadata_policy_crit", "crit", "exp", "iat", "iss", "sub", "logo_uri", "source_endpoint", "aud")
		switch {
		case x == "metadata" && fed.Chance(r, 0.35):
			// endpoints
			m, _ := c["metadata"].(map[string]any)
			if m == nil {
				m = map[string]any{}
				c["metadata"] = m
			}
			fe, _ := m["federation_entity"].(map[string]any)
			if fe == nil {
				fe = map[string]any{}
				m["federation_entity"] = fe
			}
			ep := fed.Pick(r, "federation_fetch_endpoint", "federation_list_endpoint", "federation_resolve_endpoint", "federation_collection_endpoint", "federation_trust_mark_endpoint")
			fe[ep] = hostileURLs[r.Intn(len(hostileURLs))]
			x = ep
		case c[x] != nil && fed.Chance(r, 0.6):
			c[x] = mutateValue(r, c[x])
		default:
			c[x] = hostileValue(r)
			if x == "constraints" && fed.Chance(r, 0.7) {
				c[x] = map[string]any{fed.Pick(r, "max_path_length", "naming_constraints", "allowed_entity_types"): hostileValue(r)}
			}
			if x == "metadata_policy" && fed.Chance(r, 0.7) {
				c[x] = map[string]any{fed.Pick(r, "openid_provider", "openid_relying_party", "federation_entity", "custom_entity"): map[string]any{
					fed.Pick(r, "issuer", "redirect_uris", "scopes_supported", "x", "jwks", "federation_fetch_endpoint", "client_registration_types"): map[string]any{
						fed.Pick(r, "value", "add", "default", "one_of", "subset_of", "superset_of", "essential"): hostileValue(r)}}}
			}
			if x == "trust_mark_owners" && fed.Chance(r, 0.7) {
				c[x] = map[string]any{fed.Pick(r, "urn:tm:0", "t"): hostileValue(r)}
			}
			if x == "authority_hints" && fed.Chance(r, 0.7) {
				c[x] = []any{hostileURLs[r.Intn(len(hostileURLs))], f.Nodes[0].ID}
			}
		}
		s.Claims = c
		s.Reset()
		what = append(what, x)
	}
	f.Publish()
	if fed.Chance(r, 0.3) {
		n := f.Nodes[r.Intn(len(f.Nodes))]
		f.W.Put(n.ListEP(), "", hostileResp(r, f.W, n.ListEP(), fed.MustJSON(n.List)))
		what = append(what, "list")
	}
	if fed.Chance(r, 0.2) {
		n := f.Nodes[r.Intn(len(f.Nodes))]
		l := append([]string{}, n.List...)
		for i := 0; i < 3; i++ {
			l = append(l, hostileURLs[r.Intn(len(hostileURLs))])
		}
		f.W.Put(n.ListEP(), "", &fed.Resp{Type: "application/json", Body: fed.MustJSON(l)})
		what = append(what, "listed")
	}
	sort.Strings(what)
	return
}

// hostileFederation uses a federation in which some participants are hostile.
func hostileFederation(k *rt.Case) {
	r := k.Rng
	x := raceKinds[r.Intn(4)]
	g := x.f(subCase(k, r.Int63()))
	defer g.w.Close()
	what := poison(r, g.f)
	k.Logf("%s %s hostile: %v", x.name, g.desc, what)
	for _, s := range g.f.Stmts() {
		k.Logf("%v about %v: %s", s.Claims["iss"], s.Claims["sub"], fed.MustJSON(s.Claims))
	}
	if x.name == "client" {
		for _, p := range []string{"/token", "/t/oken", "/t/oken/", "/Token", "/forced"} {
			n := g.f.Nodes[len(g.f.Nodes)-1]
			u := "http://" + n.Host + p
			res := hostileResp(r, g.w, u, []byte(`{"access_token":"a","token_type":"b","expires_in":60}`))
			g.w.Handle(u, func(fed.Req) *fed.Resp { return res })
		}
	}
	// endpoints of the anchors
	for _, n := range g.f.Nodes {
		if n.Level != 0 {
			continue
		}
		for _, ep := range []string{"/resolve", "/collect"} {
			u := "http://" + n.Host + ep
			g.w.Put(u, "", hostileResp(r, g.w, u, []byte(`{"federation_entities":[{"entity_id":"http://x"}]}`)))
		}
	}
	for _, t := range g.tasks {
		out := t.f()
		o := "value"
		if out == "error" || out == "" {
			o = "none"
		}
		k.Count(t.name+": "+o, 1)
	}
	// whoever is named
	for _, n := range g.f.Nodes {
		req := apimodel.ResolveRequest{Subject: n.ID, TrustAnchor: []string{g.f.Nodes[0].ID}}
		if p, err := (oidfed.LocalMetadataResolver{}).ResolveResponsePayload(req); err == nil {
			_, _ = json.Marshal(p)
			k.Count("resolved", 1)
		}
		if ec, err := oidfed.GetEntityConfiguration(n.ID); err == nil {
			operatePayload(k, &ec.EntityStatementPayload)
			k.Count("configurations", 1)
		}
	}
	k.Eval(x.name + "/" + strings.Join(what, "+"))
}

// hostileEndpoints queries remote resolvers and collectors, and trust mark endpoints, that are hostile.
func hostileEndpoints(k *rt.Case) {
	r := k.Rng
	w := fed.NewWorld()
	defer w.Close()
	f := fed.NewFed(r, w, fed.Opts{TAs: 1, Mids: r.Intn(2), Leaves: 1, MaxHints: 1})
	ta, leaf := f.Nodes[0], f.Nodes[len(f.Nodes)-1]
	fe := ta.Meta["federation_entity"].(map[string]any)
	base := "http://" + ta.Host
	for n, p := range map[string]string{"federation_resolve_endpoint": "/resolve", "federation_collection_endpoint": "/collect", "federation_trust_mark_endpoint": "/mark"} {
		fe[n] = base + p
	}
	if fed.Chance(r, 0.15) {
		fe[fed.Pick(r, "federation_resolve_endpoint", "federation_collection_endpoint", "federation_trust_mark_endpoint")] = hostileURLs[r.Intn(len(hostileURLs))]
	}
	switch r.Intn(12) {
	case 0:
		delete(ta.Meta, "federation_entity")
		ta.Meta["openid_relying_party"] = fed.RPMeta(ta.ID)
	case 1:
		ta.Meta = nil
	case 2:
		ta.Meta["federation_entity"] = map[string]any{}
	}
	if fed.Chance(r, 0.3) {
		leaf.Meta = fed.Pick[map[string]any](r, nil, map[string]any{}, map[string]any{"openid_provider": nil}, map[string]any{"openid_provider": map[string]any{}},
			map[string]any{"openid_relying_party": map[string]any{}}, map[string]any{"openid_provider": fed.OPMeta(leaf.ID)})
	}
	f.Rebuild()
	f.Publish()
	g := docGen(k)
	key := ta.Keys[0]
	sign := func(typ string, doc any) []byte {
		if m, ok := doc.(map[string]any); ok {
			return fed.Sign(key, map[string]any{"typ": typ}, m)
		}
		return []byte("x")
	}
	honest := g.Doc("ResolveResponse")
	honest["iss"], honest["sub"] = ta.ID, leaf.ID
	rr := sign(typResolve, mutateValue(r, honest))
	put := func(p string, body []byte, typ string) {
		u := base + p
		res := &fed.Resp{Type: typ, Body: body}
		if fed.Chance(r, 0.3) {
			res = hostileResp(r, w, u, body)
		}
		w.Handle(u, func(fed.Req) *fed.Resp { return res })
		k.Logf("%s: %+v %q", u, *res, res.Body)
	}
	put("/resolve", rr, fed.Pick(r, "application/resolve-response+jwt", "application/json"))
	var col any = map[string]any{"federation_entities": []any{g.Doc("CollectedEntity")}, "last_updated": 1}
	for i := 0; i < r.Intn(3); i++ {
		col = mutateValue(r, col)
	}
	put("/collect", fed.MustJSON(col), "application/json")
	mark := map[string]any{"iss": ta.ID, "sub": leaf.ID, "trust_mark_type": "urn:t", "iat": time.Now().Unix()}
	put("/mark", sign(fed.TypMark, mutateValue(r, mark)), "application/trust-mark+jwt")
	req := apimodel.ResolveRequest{Subject: leaf.ID, TrustAnchor: []string{ta.ID, hostileURLs[r.Intn(len(hostileURLs))]}}
	remote := oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: fed.Pick(r, base+"/resolve", hostileURLs[r.Intn(len(hostileURLs))])}
	res, _, err := remote.ResolveResponse(req)
	if err == nil && res != nil {
		_, _ = json.Marshal(res)
		operate(k, res)
	}
	p, err2 := remote.ResolveResponsePayload(req)
	_, _ = json.Marshal(p)
	_, _ = remote.Resolve(req)
	remote.ResolvePossible(req)
	smart := oidfed.SmartRemoteMetadataResolver{}
	p, err3 := smart.ResolveResponsePayload(req)
	_, _ = json.Marshal(p)
	_, _ = smart.Resolve(req)
	smart.ResolvePossible(req)
	cr := apimodel.EntityCollectionRequest{TrustAnchor: ta.ID, NameQuery: fed.Pick(r, "", "a", "\x00", strings.Repeat("ab", 200)),
		EntityTypes: fed.Pick(r, nil, []string{""}, []string{"openid_provider"}), Claims: []string{"entity_types", "ui_infos", "metadata", "trust_marks", "trust_chain", ""},
		Limit: uint64(fed.Pick(r, 0, 1, 1<<62)), TrustMarkTypes: fed.Pick(r, nil, []string{"", "x"}), FromEntityID: "\n"}
	n := 0
	for _, c := range []oidfed.EntityCollector{
		oidfed.SimpleRemoteEntityCollector{EntityCollectionEndpoint: fed.Pick(r, base+"/collect", hostileURLs[r.Intn(len(hostileURLs))])},
		oidfed.SmartRemoteEntityCollector{TrustAnchors: []string{ta.ID, hostileURLs[r.Intn(len(hostileURLs))]}},
		&oidfed.SimpleEntityCollector{}, oidfed.FilterableVerifiedChainsEntityCollector{
			Collector: oidfed.SimpleRemoteEntityCollector{EntityCollectionEndpoint: base + "/collect"},
			Filters: []oidfed.EntityCollectionFilter{oidfed.EntityCollectionFilterOPs(),
				oidfed.EntityCollectionFilterOPSupportedScopesIncludes([]string{ta.ID}, "openid"),
				oidfed.EntityCollectionFilterOPSupportsExplicitRegistration([]string{ta.ID})},
		},
	} {
		for _, e := range c.CollectEntities(cr) {
			n++
			if e == nil {
				k.Violation("a collection has an entity that is nil", map[string]any{"collector": fmt.Sprintf("%T", c)})
				continue
			}
			_, _ = json.Marshal(e)
		}
	}
	// the exported filters, on whatever entities a caller has
	kept := 0
	es := []*oidfed.CollectedEntity{nil, {}, {EntityID: leaf.ID}, {EntityID: ta.ID}, {EntityID: hostileURLs[r.Intn(len(hostileURLs))]},
		{EntityID: leaf.ID, EntityTypes: []string{"", "openid_provider"}}, {EntityID: "http://nobody." + w.Suffix, EntityTypes: []string{"openid_provider"}}}
	var ce oidfed.CollectedEntity
	if json.Unmarshal(fed.MustJSON(mutateValue(r, g.Doc("CollectedEntity"))), &ce) == nil {
		es = append(es, &ce)
	}
	tas := fed.Pick(r, []string{ta.ID}, []string{hostileURLs[r.Intn(len(hostileURLs))], ta.ID}, nil, []string{})
	words := fed.Pick(r, nil, []string{}, []string{"openid"}, []string{"", "authorization_code"})
	for i, f := range []oidfed.EntityCollectionFilter{
		oidfed.EntityCollectionFilterVerifiedChains{TrustAnchors: oidfed.NewTrustAnchorsFromEntityIDs(tas...)}, oidfed.EntityCollectionFilterVerifiedChains{},
		oidfed.EntityCollectionFilterOPs(), oidfed.EntityCollectionFilterOPSupportsExplicitRegistration(tas), oidfed.EntityCollectionFilterOPSupportsAutomaticRegistration(tas),
		oidfed.EntityCollectionFilterOPSupportedGrantTypesIncludes(tas, words...), oidfed.EntityCollectionFilterOPSupportedScopesIncludes(tas, words...),
	} {
		for _, e := range es {
			if e == nil && i < 2 {
				continue // only the filters for metadata say that they take no entity
			}
			k.Count("filter calls", 1)
			if f.Filter(e) {
				kept++
				if e == nil {
					k.Violation("a filter keeps an entity that is nil", map[string]any{"filter": i})
				}
			}
		}
	}
	// trust marks
	cfg := &oidfed.EntityConfigurationTrustMarkConfig{TrustMarkType: "urn:t", TrustMarkIssuer: ta.ID}
	if fed.Chance(r, 0.1) {
		cfg.TrustMarkIssuer = hostileURLs[r.Intn(len(hostileURLs))]
	}
	own := ""
	if fed.Chance(r, 0.2) {
		own = fed.Pick(r, base+"/mark", hostileURLs[r.Intn(len(hostileURLs))])
		cfg.TrustMarkIssuer = leaf.ID
	}
	got := "no mark"
	if cfg.Verify(leaf.ID, own, nil) == nil {
		if j, err := cfg.TrustMarkJWT(); err == nil && j != "" {
			got = "mark"
		}
		ent, err := oidfed.NewFederationEntity(leaf.ID, nil, nil, someSigner.EntityStatementSigner(), 60, nil)
		if err == nil {
			ent.TrustMarks = append(ent.TrustMarks, cfg)
			if _, err = ent.EntityConfigurationJWT(); err != nil {
				k.Violation("a hostile trust mark issuer prevents the own configuration", map[string]any{"err": err.Error()})
			}
		}
	}
	k.Count(got, 1)
	k.Eval(fmt.Sprintf("endpoints/%v/%v/%v/%d/%s/%d", err == nil, err2 == nil, err3 == nil, n, got, len(rr)))
}

// hostileCache lets the cache fail and return truncated entries.
func hostileCache(k *rt.Case, sw *fed.Swap) {
	r := k.Rng
	mc := fed.NewMemCache()
	seed := r.Int63()
	rr := rand.New(rand.NewSource(seed))
	var mu sync.Mutex
	mc.Corrupt = func(key string, data []byte) []byte {
		mu.Lock()
		defer mu.Unlock()
		if rr.Intn(2) == 0 || len(data) == 0 {
			return data
		}
		return append([]byte(nil), data[:rr.Intn(len(data))]...)
	}
	mc.FailGet = func(string) error {
		mu.Lock()
		defer mu.Unlock()
		if rr.Intn(20) == 0 {
			return fmt.Errorf("no connection")
		}
		return nil
	}
	sw.Use(mc)
	defer sw.Use(fed.NoCache{})
	x := raceKinds[r.Intn(4)]
	g := x.f(subCase(k, r.Int63()))
	defer g.w.Close()
	for i := 0; i < 2; i++ {
		for _, t := range g.tasks {
			t.f()
			k.Count("calls with a damaged cache", 1)
		}
	}
	k.Eval(fmt.Sprintf("cache/%s/%d", x.name, len(mc.Events())))
}

// hostileArgs passes odd arguments.
func hostileArgs(k *rt.Case) {
	r := k.Rng
	s := func() string {
		return fed.Pick(r, "", "x", "\x00", "http://[::1", "http://nobody.test", strings.Repeat("é", 3000), "%zz", "a b")
	}
	key := rpKey(k)
	as := oidfed.NewTrustAnchorsFromEntityIDs(s(), s())
	leaf, err := oidfed.NewFederationLeaf(s(), []string{s()}, as, nil, someSigner.EntityStatementSigner(), int64(r.Intn(3)-1), key.Priv, alg(key.Alg), map[string]any{"": nil})
	if err == nil {
		_, _ = leaf.EntityConfigurationJWT()
		_, _ = leaf.GetAuthorizationURL(s(), s(), s(), s(), url.Values{"": nil, "x": {}, s(): {s()}})
		_, _, _ = leaf.CodeExchange(s(), s(), s(), nil)
		_, _ = leaf.ResolveOPMetadata(s())
		rop := leaf.RequestObjectProducer()
		_, _ = rop.RequestObject(map[string]any{"aud": hostileValue(r), s(): hostileValue(r), "claims": hostileValue(r), "jti": hostileValue(r)})
		_, _ = rop.RequestObject(map[string]any{"aud": "x", "f": math.NaN(), "c": make(chan int)})
		_, _ = rop.ClientAssertion(s())
	}
	tr := oidfed.TrustResolver{TrustAnchors: as, StartingEntity: s(), Types: []string{s()}}
	tr.VerifySignatures()
	tr.Chains()
	tr.ResolveToValidChains()
	(&oidfed.TrustResolver{}).ResolveToValidChains()
	_, _ = oidfed.GetEntityConfiguration(s())
	_, _ = oidfed.FetchEntityStatement(s(), s(), s())
	(&oidfed.SimpleEntityCollector{}).CollectEntities(apimodel.EntityCollectionRequest{TrustAnchor: s()})
	oidfed.FilterableVerifiedChainsEntityCollector{}.CollectEntities(apimodel.EntityCollectionRequest{})
	tmi := oidfed.NewTrustMarkIssuer(s(), someSigner.TrustMarkSigner(), nil)
	_, _ = tmi.IssueTrustMark(s(), s(), -time.Hour)
	tmi.AddTrustMark(oidfed.TrustMarkSpec{TrustMarkType: "t", Extra: map[string]any{"a": make(chan int)}})
	_, _ = tmi.IssueTrustMark("t", s(), math.MaxInt64)
	tmo := oidfed.NewTrustMarkOwner(s(), someSigner.TrustMarkDelegationSigner(), nil)
	_, _ = tmo.DelegationJWT(s(), s())
	tmo.AddTrustMark(oidfed.OwnedTrustMark{ID: "t"})
	_, _ = tmo.DelegationJWT("t", s(), math.MinInt64)
	ch := oidfed.TrustChain{}
	_, _ = ch.Metadata()
	_, _, _ = ch.PathLen(), ch.ExpiresAt(), ch.Messages()
	cs := oidfed.TrustChains{ch, ch}
	cs.Filter(oidfed.TrustChainsFilterMinPathLength, oidfed.TrustChainsFilterValidMetadata, oidfed.TrustChainsFilterTrustAnchor(s()))
	cs.SortAsc(oidfed.TrustChainScoringPathLen)
	oidfed.TrustChains(nil).Filter(oidfed.TrustChainsFilterMinPathLength)
	_, _ = someSigner.JWT(make(chan int), s())
	_, _ = someSigner.JWT(nil, s())
	_, _ = someSigner.Typed(s()).JWT(map[string]any{"a": math.Inf(1)})
	k.Eval(fmt.Sprintf("args/%v/%s", err == nil, key.Alg))
}

func runC14(c *rt.Ctx) {
	c.Rule = "Documents of all types, policies, tokens of all kinds, whole federations, endpoints, (truncated) cache entries and arguments are made hostile: null " +
		"and wrong types at any place, deep nesting, extreme numbers, odd and unusable URLs, damaged JSON, YAML, msgpack and JWTs (correctly " +
		"signed where that lets the content through), redirects, wrong content types, truncated bodies. Everything the library offers is then " +
		"done with what was read. The monitor watches for panics in any goroutine, fatal errors and calls that do not return. " +
		"Distinct by kind, part that was made hostile, and whether it was read or refused."
	c.Assume = []string{
		"a call that does not return is one that takes longer than 300 s where the honest one takes milliseconds",
		"answers that are never finished by the server are left to the timeout of the HTTP client",
	}
	prepareSome()
	sw := &fed.Swap{}
	sw.Use(fed.NoCache{})
	cache.SetCache(sw)
	c.RunParallel("doc", c.N(40000, 1500000), hostileDoc)
	c.RunParallel("small", c.N(40000, 1500000), hostileSmall)
	c.RunParallel("policy", c.N(15000, 500000), hostilePolicy)
	c.RunParallel("ops", c.N(30000, 500000), hostileOps)
	c.RunParallel("token", c.N(20000, 500000), hostileToken)
	c.RunWide("federation", c.N(1200, 30000), 64, hostileFederation)
	c.RunWide("endpoints", c.N(1500, 30000), 64, hostileEndpoints)
	c.RunWide("args", c.N(100, 2000), 32, hostileArgs)
	c.Run("cache", c.N(100, 2000), func(k *rt.Case) { hostileCache(k, sw) })
}
