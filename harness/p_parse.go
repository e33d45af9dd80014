package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/asn1"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/vmihailenco/msgpack/v5"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/jwks"

	"github.com/go-oidfed/lib/verifharness/fed"
	"github.com/go-oidfed/lib/verifharness/rt"
)

func init() {
	register("C23", property{run: runC23})
}

// parsed is what a parser of the library made of a JWT.
type parsed struct {
	iss, sub string
	iat      time.Time
	// verify is nil where the library has no way to verify the result
	verify func(set jwks.JWKS) bool
	value  any
}

type parser struct {
	name, typ, doc string
	parse          func(raw []byte) (*parsed, error)
}

var parsers = []parser{
	{
		"ParseEntityStatement", fed.TypStatement, "EntityStatementPayload", func(raw []byte) (*parsed, error) {
			s, err := oidfed.ParseEntityStatement(raw)
			if err != nil {
				return nil, err
			}
			return &parsed{s.Issuer, s.Subject, s.IssuedAt.Time, s.Verify, s}, nil
		},
	},
	{
		"ParseTrustMark", fed.TypMark, "TrustMark", func(raw []byte) (*parsed, error) {
			m, err := oidfed.ParseTrustMark(raw)
			if err != nil {
				return nil, err
			}
			return &parsed{
				m.Issuer, m.Subject, m.IssuedAt.Time, func(set jwks.JWKS) bool { return m.VerifyExternal(set) == nil }, m,
			}, nil
		},
	},
	{
		"TrustMarkInfo.TrustMark", fed.TypMark, "TrustMark", func(raw []byte) (*parsed, error) {
			t, _ := fed.Decode(bytes.TrimSpace(raw))
			i := &oidfed.TrustMarkInfo{TrustMarkJWT: string(raw)}
			if t != nil {
				i.TrustMarkType = t.Str("trust_mark_type")
			}
			m, err := i.TrustMark()
			if err != nil {
				return nil, err
			}
			return &parsed{
				m.Issuer, m.Subject, m.IssuedAt.Time, func(set jwks.JWKS) bool { return i.VerifyExternal(set) == nil }, m,
			}, nil
		},
	},
	{
		"TrustMark.Delegation", fed.TypDelegation, "DelegationJWT", func(raw []byte) (*parsed, error) {
			m := &oidfed.TrustMark{DelegationJWT: string(raw)}
			d, err := m.Delegation()
			if err != nil {
				if d2, err2 := m.Delegation(); err2 == nil && d2 != nil {
					return &parsed{d2.Issuer, d2.Subject, d2.IssuedAt.Time, nil, d2}, nil
				}
				return nil, err
			}
			if d == nil {
				return nil, nil
			}
			return &parsed{
				d.Issuer, d.Subject, d.IssuedAt.Time, func(set jwks.JWKS) bool { return d.VerifyExternal(set) == nil }, d,
			}, nil
		},
	},
	{
		"ParseResolveResponse", "resolve-response+jwt", "ResolveResponse", func(raw []byte) (*parsed, error) {
			r, err := oidfed.ParseResolveResponse(raw)
			if err != nil {
				return nil, err
			}
			return &parsed{r.Issuer, r.Subject, r.IssuedAt.Time, nil, r}, nil
		},
	},
}

// forged is a JWT made from a genuine one.
type forged struct {
	raw []byte
	// parse is the expectation for the parser of its kind
	parse fed.Verdict
	what  string
}

func compact(h, p, s []byte) []byte {
	return []byte(fed.B64(h) + "." + fed.B64(p) + "." + fed.B64(s))
}

// wrongClaims are values that no document of the kind may have.
func wrongClaim(k *rt.Case, doc string) (string, any) {
	r := k.Rng
	type wc struct {
		n string
		v any
	}
	l := []wc{
		{"iss", fed.Pick[any](r, 5, map[string]any{"a": 1}, []any{}, true)}, {"sub", fed.Pick[any](r, 5, map[string]any{}, []any{"x"}, false)},
		{"iat", fed.Pick[any](r, "soon", map[string]any{}, []any{}, true)}, {"exp", fed.Pick[any](r, "never", map[string]any{}, []any{1}, false)},
	}
	switch doc {
	case "EntityStatementPayload":
		l = append(
			l, wc{"jwks", fed.Pick[any](r, 5, "x", []any{}, []any{map[string]any{}})}, wc{"authority_hints", fed.Pick[any](r, 5, map[string]any{"a": 1}, []any{5})},
			wc{"metadata", fed.Pick[any](r, 5, []any{}, "x")}, wc{"constraints", fed.Pick[any](r, 5, "x", []any{})},
			wc{"trust_marks", fed.Pick[any](r, 5, "x", []any{5})}, wc{"metadata_policy", fed.Pick[any](r, 5, "x", []any{1})},
			wc{"trust_mark_issuers", fed.Pick[any](r, 5, []any{"x"})},
		)
	case "ResolveResponse":
		l = append(
			l, wc{"metadata", fed.Pick[any](r, 5, []any{}, "x")}, wc{"trust_chain", fed.Pick[any](r, 5, []any{"x"}, []any{"a.b"}, []any{5})},
			wc{"trust_marks", fed.Pick[any](r, 5, []any{5})},
		)
	default:
		l = append(l, wc{"trust_mark_type", fed.Pick[any](r, 5, []any{}, map[string]any{})}, wc{"ref", fed.Pick[any](r, 5, []any{1})})
	}
	w := fed.Pick(r, l...)
	return w.n, w.v
}

// forge makes a JWT; key is the genuine key, evil another one.
func forge(k *rt.Case, p parser, claims map[string]any, key, evil *fed.Key) forged {
	r := k.Rng
	sign := func(h map[string]any) []byte {
		x := map[string]any{"typ": p.typ}
		for n, v := range h {
			x[n] = v
		}
		return fed.Sign(key, x, claims)
	}
	genuine := sign(nil)
	seg := strings.Split(string(genuine), ".")
	header := fed.MustJSON(map[string]any{"alg": key.Alg, "kid": key.Kid, "typ": p.typ})
	payload := fed.MustJSON(claims)
	signRaw := func(h, pl []byte) []byte {
		return compact(h, pl, key.SignRaw([]byte(fed.B64(h)+"."+fed.B64(pl))))
	}
	what := fed.Pick(
		r, "genuine", "genuine", "genuine", "typ", "typ", "no typ", "typ case", "typ prefix", "typ value", "none", "none signed", "hmac", "json", "json flat",
		"json many", "space", "pad", "cut", "segments", "payload kind", "payload kind", "payload text", "claim", "claim", "claim", "duplicate", "header text",
		"embedded", "other alg", "other alg", "bits", "bits", "sig len", "der", "mixed", "evil", "evil kid", "no kid", "crit", "zip", "double", "std base64", "no alg",
		"empty sig", "swap rs",
	)
	f := forged{what: what, parse: fed.Yes}
	switch what {
	case "genuine":
		f.raw = genuine
	case "typ":
		f.raw = sign(
			map[string]any{
				"typ": fed.Pick(
					r, fed.TypStatement, fed.TypMark, fed.TypDelegation, "resolve-response+jwt", "JWT", "jwt", "oauth-authz-req+jwt", "jwk-set+jwt",
					"entity-statement", "", "trust-mark+jwt ", "explicit-registration-response+jwt",
				),
			},
		)
		t, _ := fed.Decode(f.raw)
		if t.Typ() != p.typ {
			f.parse = fed.No
		}
	case "no typ":
		f.raw, f.parse = sign(map[string]any{"typ": nil}), fed.No
	case "typ case":
		f.raw, f.parse = sign(map[string]any{"typ": strings.ToUpper(p.typ)}), fed.No
		if fed.Chance(r, 0.5) {
			f.raw = sign(map[string]any{"typ": nil, "Typ": p.typ})
		}
	case "typ prefix":
		f.raw, f.parse = sign(map[string]any{"typ": fed.Pick(r, "application/", " ", "x", "entity-") + p.typ}), fed.No
		if fed.Chance(r, 0.5) {
			f.raw = sign(map[string]any{"typ": p.typ + fed.Pick(r, " ", "x", ";q=1", "\x00", "+jwt")})
		}
	case "typ value":
		f.raw, f.parse = sign(map[string]any{"typ": fed.Pick[any](r, 5, []any{p.typ}, map[string]any{p.typ: 1}, true)}), fed.No
	case "none":
		h := fed.MustJSON(map[string]any{"alg": fed.Pick(r, "none", "None", "NONE", ""), "kid": key.Kid, "typ": p.typ})
		f.raw, f.parse = compact(h, payload, nil), fed.Maybe
	case "none signed":
		h := fed.MustJSON(map[string]any{"alg": "none", "kid": key.Kid, "typ": p.typ})
		f.raw, f.parse = signRaw(h, payload), fed.Maybe
	case "no alg":
		h := fed.MustJSON(map[string]any{"kid": key.Kid, "typ": p.typ})
		f.raw, f.parse = signRaw(h, payload), fed.Maybe
	case "hmac":
		h := fed.MustJSON(map[string]any{"alg": "HS256", "kid": key.Kid, "typ": p.typ})
		m := hmac.New(sha256.New, publicBytes(k, key))
		m.Write([]byte(fed.B64(h) + "." + fed.B64(payload)))
		f.raw, f.parse = compact(h, payload, m.Sum(nil)), fed.Maybe
	case "json":
		f.raw, f.parse = fed.SignJSON(claims, []*fed.Key{key}, []map[string]any{{"typ": p.typ}}), fed.No
	case "json many":
		f.raw, f.parse = fed.SignJSON(claims, []*fed.Key{evil, key}, []map[string]any{{"typ": p.typ}, {"typ": "JWT"}}), fed.No
	case "json flat":
		f.raw, f.parse = fed.MustJSON(map[string]any{"payload": seg[1], "protected": seg[0], "signature": seg[2]}), fed.No
	case "space":
		ws := fed.Pick(r, " ", "\n", "\r\n", "\t")
		f.parse = fed.Maybe
		switch r.Intn(3) {
		case 0:
			f.raw = append([]byte(ws), genuine...)
		case 1:
			f.raw = append(append([]byte{}, genuine...), ws...)
		default:
			i := 1 + r.Intn(len(genuine)-2)
			f.raw = append(append(append([]byte{}, genuine[:i]...), ws...), genuine[i:]...)
		}
	case "pad":
		f.parse = fed.Maybe
		i := r.Intn(3)
		seg[i] += fed.Pick(r, "=", "==", "A")
		f.raw = []byte(strings.Join(seg, "."))
	case "std base64":
		f.parse = fed.Maybe
		for i := range seg {
			b, _ := fed.UnB64(seg[i])
			seg[i] = base64.StdEncoding.EncodeToString(b)
		}
		f.raw = []byte(strings.Join(seg, "."))
	case "cut":
		f.raw, f.parse = genuine[:r.Intn(len(genuine))], fed.Maybe
		if n := bytes.Count(f.raw, []byte(".")); n < 2 {
			f.parse = fed.No
		}
	case "segments":
		f.parse = fed.No
		switch r.Intn(5) {
		case 0:
			f.raw = []byte(seg[0] + "." + seg[1])
		case 1:
			f.raw = []byte(string(genuine) + "." + seg[2])
		case 2:
			f.raw = []byte("." + seg[1] + "." + seg[2])
		case 3:
			f.raw = []byte(string(genuine) + ".a.b")
		default:
			f.raw = []byte(seg[0] + ".." + seg[2])
		}
	case "payload kind":
		x := fed.Pick(r, "[]", "\"x\"", "5", "true", "", "{", "[{}]", "null")
		f.raw, f.parse = signRaw(header, []byte(x)), fed.No
		if x == "null" {
			f.parse = fed.Maybe
		}
	case "payload text":
		x := append([]byte{}, payload...)
		switch r.Intn(4) {
		case 0:
			x = append(x, fed.Pick(r, "x", "{}", ",", "}", "\x00")...)
		case 1:
			x = append([]byte("\xef\xbb\xbf"), x...)
		case 2:
			x = x[:len(x)-1]
		default:
			x = x[1:]
		}
		f.raw, f.parse = signRaw(header, x), fed.No
	case "claim":
		c := map[string]any{}
		for n, v := range claims {
			c[n] = v
		}
		n, v := wrongClaim(k, p.doc)
		c[n] = v
		f.raw, f.parse = signRaw(header, fed.MustJSON(c)), fed.No
		f.what = "claim " + n
	case "duplicate":
		x := append([]byte(`{"sub":"http://other.example",`), payload[1:]...)
		f.raw, f.parse = signRaw(header, x), fed.Maybe
	case "header text":
		x := fed.Pick(r, "{", "[]", "", "null", "x", string(header)+"x", `{"typ":"JWT",`+string(header[1:]), string(header[:len(header)-1])+`,"typ":"JWT"}`)
		f.raw, f.parse = signRaw([]byte(x), payload), fed.No
		if strings.Count(x, "typ") == 2 || strings.HasSuffix(x, "}x") {
			f.parse = fed.Maybe
		}
	case "embedded":
		h := map[string]any{"alg": evil.Alg, "kid": fed.Pick(r, key.Kid, evil.Kid), "typ": p.typ}
		switch r.Intn(3) {
		case 0:
			h["jwk"] = evil.JWK()
		case 1:
			h["jku"] = "http://evil.example/jwks"
		default:
			h["x5u"] = "http://evil.example/x5u"
		}
		hd := fed.MustJSON(h)
		f.raw = compact(hd, payload, evil.SignRaw([]byte(fed.B64(hd)+"."+fed.B64(payload))))
		f.parse = fed.Maybe
	case "other alg":
		alg := fed.Pick(r, append([]string{"ES256K", "XX999", "RS512", "HS512", "dir"}, fed.Algs...)...)
		if strings.HasSuffix(key.Alg, "S256") && key.Alg != "ES256" && fed.Chance(r, 0.7) {
			// another one for the same key
			alg = fed.Pick(r, "RS256", "PS256", "RS384", "PS512")
		}
		h := fed.MustJSON(map[string]any{"alg": alg, "kid": key.Kid, "typ": p.typ})
		f.raw, f.parse = signRaw(h, payload), fed.Maybe
	case "bits":
		i := r.Intn(3)
		b, _ := fed.UnB64(seg[i])
		b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		seg[i] = fed.B64(b)
		f.raw, f.parse = []byte(strings.Join(seg, ".")), fed.Maybe
		if i == 2 {
			f.parse = fed.Yes
		}
	case "sig len":
		b, _ := fed.UnB64(seg[2])
		if fed.Chance(r, 0.5) {
			b = b[:1+r.Intn(len(b)-1)]
		} else {
			b = append(b, b[:1+r.Intn(10)]...)
		}
		seg[2] = fed.B64(b)
		f.raw = []byte(strings.Join(seg, "."))
	case "empty sig":
		f.raw, f.parse = []byte(seg[0]+"."+seg[1]+"."), fed.Maybe
	case "der", "swap rs":
		b, _ := fed.UnB64(seg[2])
		if key.Alg[:2] == "ES" {
			n := len(b) / 2
			if what == "der" {
				b, _ = asn1.Marshal(struct{ R, S *big.Int }{new(big.Int).SetBytes(b[:n]), new(big.Int).SetBytes(b[n:])})
			} else {
				b = append(append([]byte{}, b[n:]...), b[:n]...)
			}
		} else {
			for i := range b[:len(b)/2] {
				b[i], b[len(b)-1-i] = b[len(b)-1-i], b[i]
			}
		}
		seg[2] = fed.B64(b)
		f.raw = []byte(strings.Join(seg, "."))
	case "mixed":
		c := map[string]any{}
		for n, v := range claims {
			c[n] = v
		}
		c["sub"] = "http://other.example"
		seg[1] = fed.B64(fed.MustJSON(c))
		f.raw = []byte(strings.Join(seg, "."))
	case "evil":
		e := *evil
		e.Kid = key.Kid
		f.raw = fed.Sign(&e, map[string]any{"typ": p.typ}, claims)
	case "evil kid":
		f.raw = fed.Sign(evil, map[string]any{"typ": p.typ}, claims)
	case "no kid":
		f.raw = sign(map[string]any{"kid": nil})
	case "crit":
		f.raw, f.parse = sign(map[string]any{"crit": fed.Pick[any](r, []any{"x"}, []any{"exp"}, []any{}), "x": 1}), fed.Maybe
	case "zip":
		f.raw, f.parse = sign(map[string]any{"zip": "DEF"}), fed.Maybe
	case "double":
		h := fed.MustJSON(map[string]any{"alg": key.Alg, "kid": key.Kid, "typ": p.typ, "cty": "JWT"})
		f.raw, f.parse = signRaw(h, genuine), fed.No
	}
	return f
}

// publicBytes gives the public key in a form an attacker may use as a symmetric key.
func publicBytes(k *rt.Case, key *fed.Key) []byte {
	der, err := x509.MarshalPKIXPublicKey(key.Priv.Public())
	if err != nil {
		panic(err)
	}
	var raw []byte
	switch p := key.Priv.Public().(type) {
	case *ecdsa.PublicKey:
		raw = p.X.Bytes()
	case ed25519.PublicKey:
		raw = p
	case *rsa.PublicKey:
		raw = p.N.Bytes()
	}
	return fed.Pick(
		k.Rng, der, pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der}), fed.MustJSON(key.JWK()), raw, []byte(key.Kid), []byte{},
	)
}

// someSet is a key set that may hold the key.
func someSet(k *rt.Case, key, evil *fed.Key) (any, string) {
	r := k.Rng
	jwk := func(key *fed.Key, edit ...any) map[string]any {
		m := key.JWK()
		for i := 0; i+1 < len(edit); i += 2 {
			if edit[i+1] == nil {
				delete(m, edit[i].(string))
			} else {
				m[edit[i].(string)] = edit[i+1]
			}
		}
		return m
	}
	other := fed.NewKey(fed.Pick(r, fed.Algs...), "")
	var l []any
	kind := fed.Pick(r, "own", "own", "own", "own", "others", "kid", "same kid", "no alg", "no alg", "no use", "enc", "alg", "empty", "nil", "two", "mixed", "no kid")
	switch kind {
	case "own":
		l = append(l, key.JWK())
	case "others":
		l = append(l, other.JWK())
	case "kid":
		l = append(l, jwk(key, "kid", "another"))
	case "same kid":
		l = append(l, jwk(other, "kid", key.Kid))
	case "no alg":
		l = append(l, jwk(key, "alg", nil))
	case "no use":
		l = append(l, jwk(key, "use", nil))
	case "enc":
		l = append(l, jwk(key, "use", "enc"))
	case "alg":
		l = append(l, jwk(key, "alg", "RS512"))
	case "two":
		l = append(l, key.JWK(), jwk(other, "kid", key.Kid))
	case "mixed":
		l = append(l, other.JWK(), key.JWK(), fed.NewKey("ES256", "third").JWK())
	case "no kid":
		l = append(l, jwk(key, "kid", nil))
	}
	if kind == "nil" {
		return nil, kind
	}
	if l == nil {
		l = []any{}
	}
	return generic(map[string]any{"keys": l}), kind
}

func verifiedSet(set any) (j jwks.JWKS) {
	if set == nil {
		return
	}
	return toJWKS(set)
}

func parseDoc(k *rt.Case, p parser) map[string]any {
	g := docGen(k)
	claims := g.Doc(p.doc)
	now := time.Now().Unix()
	claims["iat"] = now - 100
	claims["iss"] = fmt.Sprintf("http://iss%d.example", k.Rng.Intn(1000))
	claims["sub"] = fmt.Sprintf("http://sub%d.example", k.Rng.Intn(1000))
	delete(claims, "exp")
	if p.doc == "EntityStatementPayload" || p.doc == "ResolveResponse" || fed.Chance(k.Rng, 0.5) {
		claims["exp"] = now + 10000
	}
	return claims
}

func parseCase(k *rt.Case) {
	r := k.Rng
	made := fed.Pick(r, parsers...)
	key := fed.NewKey(fed.Pick(r, fed.Algs...), fmt.Sprint("key", r.Intn(100)))
	evil := fed.NewKey(fed.Pick(r, key.Alg, fed.Pick(r, fed.Algs...)), fmt.Sprint("evil", r.Intn(100)))
	claims := parseDoc(k, made)
	f := forge(k, made, claims, key, evil)
	tok, err := fed.Decode(bytes.TrimSpace(f.raw))
	if err != nil || bytes.ContainsAny(f.raw, " \r\n\t") {
		tok = nil // an odd encoding
	}
	for _, p := range parsers {
		want := f.parse
		if p.typ != made.typ {
			want = fed.No
			if tok != nil && tok.Typ() == p.typ || tok == nil {
				want = fed.Maybe // the payload decides
			}
		}
		given := append([]byte(nil), f.raw...)
		got, err := p.parse(given)
		det := map[string]any{"parser": p.name, "made for": made.name, "what": f.what, "jwt": string(f.raw), "err": fmt.Sprint(err)}
		if !bytes.Equal(given, f.raw) {
			k.Violation("parsing modifies the given bytes", det)
		}
		switch {
		case (got != nil) == (err != nil) && !(got == nil && len(f.raw) == 0):
			k.Violation("neither a result nor an error, or both", det)
			continue
		case want == fed.Yes && err != nil:
			k.Violation("a genuine JWT is not parsed", det)
			continue
		case want == fed.No && got != nil:
			k.Violation("something that is not a JWT of the wanted kind is parsed as one: "+f.what, det)
			continue
		}
		k.Count(fmt.Sprintf("parsed %v", got != nil), 1)
		if got == nil {
			k.Eval(fmt.Sprint(p.name, f.what, "refused"))
			continue
		}
		if tok == nil {
			k.Eval(fmt.Sprint(p.name, f.what, "odd"))
			if got.verify != nil && got.verify(verifiedSet(generic(fed.JWKS(key)))) {
				det["payload"] = fmt.Sprint(got.value)
				// odd encodings are judged by what is signed: the content has to be that of the genuine JWT
				if got.sub != claims["sub"] || got.iss != claims["iss"] {
					k.Violation("a verified JWT has other claims than were signed", det)
				}
			}
			continue
		}
		if f.what != "duplicate" && f.what != "bits" && (got.iss != tok.Str("iss") || got.sub != tok.Str("sub")) {
			k.Violation("the parsed claims are not those of the JWT", det)
		}
		for i := 0; got.verify != nil && i < 3; i++ {
			set, kind := someSet(k, key, evil)
			v := tok.Verify(set)
			if f.what == "bits" && v != fed.No {
				v = fed.Maybe
			}
			if iat, ok := tok.Num("iat"); !ok || iat > float64(time.Now().Unix()) || f.what == "bits" || strings.HasPrefix(f.what, "claim") {
				v = min(v, fed.Maybe)
			}
			if kind == "two" {
				v = min(v, fed.Maybe)
			}
			if tok.Claims == nil {
				v = min(v, fed.Maybe)
			}
			ok := got.verify(verifiedSet(set))
			det["set"], det["keys"] = kind, set
			switch {
			case ok && v == fed.No:
				k.Violation("a JWT is verified that is not signed with the keys: "+f.what, det)
			case !ok && v == fed.Yes:
				k.Violation("a genuine signature is not verified", det)
			}
			k.Count(fmt.Sprintf("verified %v", ok), 1)
			k.Eval(fmt.Sprint(p.name, f.what, kind, key.Alg, v, ok))
			if s, is := got.value.(*oidfed.EntityStatement); is && f.what != "null" {
				restored(k, s, verifiedSet(set), ok, det)
			}
		}
	}
}

// restored checks a statement that was written to a cache and read from it.
func restored(k *rt.Case, s *oidfed.EntityStatement, set jwks.JWKS, want bool, det map[string]any) {
	data, err := msgpack.Marshal(s)
	if err != nil {
		k.Violation("a parsed statement cannot be cached", det)
		return
	}
	var x oidfed.EntityStatement
	if err = msgpack.Unmarshal(data, &x); err != nil {
		det["err"] = err.Error()
		k.Violation("a cached statement cannot be read", det)
		return
	}
	if x.Verify(set) != want {
		k.Violation("a cached statement verifies differently", det)
	}
	a, err1 := json.Marshal(s.EntityStatementPayload)
	b, err2 := json.Marshal(x.EntityStatementPayload)
	if err1 != nil || err2 != nil || !bytes.Equal(canonJSON(a), canonJSON(b)) {
		det["before"], det["after"] = string(a), string(b)
		k.Violation("a cached statement has other claims", det)
	}
	k.Count("statements restored", 1)
}

func canonJSON(b []byte) []byte {
	var v any
	if json.Unmarshal(b, &v) != nil {
		return b
	}
	sortKeySets(v)
	return fed.MustJSON(v)
}

// bufferCase: what is verified is what was parsed, whatever happens to the buffer it was parsed from.
func bufferCase(k *rt.Case) {
	r := k.Rng
	p := fed.Pick(r, parsers[:2]...)
	key := fed.NewKey(fed.Pick(r, "ES256", "EdDSA", "RS256"), "a")
	evil := fed.NewKey(key.Alg, "a")
	claims := parseDoc(k, p)
	good := fed.Sign(key, map[string]any{"typ": p.typ}, claims)
	claims["sub"] = strings.Replace(claims["sub"].(string), "sub", "bad", 1)
	bad := fed.Sign(evil, map[string]any{"typ": p.typ}, claims)
	set := toJWKS(generic(fed.JWKS(key)))
	if len(good) != len(bad) {
		return
	}
	first, second, want := good, bad, true
	if fed.Chance(r, 0.5) {
		first, second, want = bad, good, false
	}
	buf := append([]byte(nil), first...)
	x, err := p.parse(buf)
	if err != nil {
		k.Violation("a genuine JWT is not parsed", map[string]any{"parser": p.name, "jwt": string(first), "err": err.Error()})
		return
	}
	early := fed.Chance(r, 0.5) && x.verify(set) != want
	copy(buf, second)
	sub := x.sub
	if early || x.verify(set) != want {
		k.Violation("other bytes are verified than were parsed", map[string]any{"parser": p.name, "want": want, "subject": sub})
	}
	k.Eval(fmt.Sprint("buffer", p.name, want, key.Alg))
}

// zeroCase: what was not parsed from a JWT does not verify.
func zeroCase(k *rt.Case) {
	r := k.Rng
	key := fed.NewKey("ES256", "a")
	set := toJWKS(generic(fed.JWKS(key)))
	if fed.Chance(r, 0.2) {
		set = jwks.JWKS{}
	}
	var ok bool
	kind := r.Intn(5)
	p := parsers[[]int{0, 1, 1, 3, 0}[kind]]
	doc := fed.MustJSON(parseDoc(k, p))
	switch kind {
	case 0:
		var s oidfed.EntityStatement
		_ = json.Unmarshal(doc, &s.EntityStatementPayload)
		ok = s.Verify(set)
	case 1:
		var s oidfed.TrustMark
		_ = json.Unmarshal(doc, &s)
		ok = s.VerifyExternal(set) == nil
	case 2:
		var s oidfed.TrustMarkInfo
		ok = s.VerifyExternal(set) == nil
		s.TrustMarkType = "x"
		ok = ok || s.VerifyExternal(set) == nil
	case 3:
		var s oidfed.DelegationJWT
		_ = json.Unmarshal(doc, &s)
		ok = s.VerifyExternal(set) == nil
	default:
		ok = oidfed.EntityStatement{}.Verify(set)
	}
	if ok {
		k.Violation("something that was never signed is verified", map[string]any{"kind": kind})
	}
	k.Eval(fmt.Sprint("zero", kind, set.Set == nil))
}

func runC23(c *rt.Ctx) {
	c.Rule = "A genuine JWT of each kind is turned into one of 40 kinds of variants (token type, algorithm, serialization, encoding, key, signature, " +
		"payload) and given to every parser; 'jwt' compares acceptance and verification under varied key sets with an independent parser " +
		"and verifier, also after a trip through the cache format; 'buffer' overwrites the bytes after parsing; 'zero' verifies what was never signed. " +
		"Distinct by parser, variant, key set, algorithm and outcome."
	c.RunParallel("jwt", c.N(20000, 300000), parseCase)
	c.RunParallel("buffer", c.N(500, 5000), bufferCase)
	c.RunParallel("zero", c.N(200, 2000), zeroCase)
}
