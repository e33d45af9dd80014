// Package fed simulates federations: keys, statements and the HTTP servers of all entities, independent of the library.
package fed

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"sync"
)

// Key is a signing key.
type Key struct {
	Priv crypto.Signer
	Alg  string
	Kid  string
}

var b64 = base64.RawURLEncoding

// B64 encodes.
func B64(b []byte) string { return b64.EncodeToString(b) }

// UnB64 decodes.
func UnB64(s string) ([]byte, error) { return b64.DecodeString(s) }

var (
	poolMu sync.Mutex
	pool   = map[string][]crypto.Signer{}
	poolAt = map[string]int{}
)

// NewKey returns a key; key material is taken round robin from a pool big enough that keys in a case differ.
func NewKey(alg, kid string) *Key {
	poolMu.Lock()
	defer poolMu.Unlock()
	size := 400
	if strings.HasPrefix(alg, "RS") || strings.HasPrefix(alg, "PS") {
		size = 6
	}
	i := poolAt[alg] % size
	poolAt[alg]++
	if i < len(pool[alg]) {
		return &Key{Priv: pool[alg][i], Alg: alg, Kid: kid}
	}
	var p crypto.Signer
	var err error
	switch alg {
	case "ES256":
		p, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	case "ES384":
		p, err = ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
	case "ES512":
		p, err = ecdsa.GenerateKey(elliptic.P521(), rand.Reader)
	case "EdDSA":
		_, p, err = ed25519.GenerateKey(rand.Reader)
	case "RS256", "PS256":
		p, err = rsa.GenerateKey(rand.Reader, 2048)
	default:
		panic("alg " + alg)
	}
	if err != nil {
		panic(err)
	}
	pool[alg] = append(pool[alg], p)
	return &Key{Priv: p, Alg: alg, Kid: kid}
}

// JWK returns the public JWK.
func (k *Key) JWK() map[string]any {
	m := map[string]any{"kid": k.Kid, "use": "sig", "alg": k.Alg}
	switch p := k.Priv.Public().(type) {
	case *ecdsa.PublicKey:
		n := (p.Curve.Params().BitSize + 7) / 8
		m["kty"] = "EC"
		m["crv"] = p.Curve.Params().Name
		m["x"] = B64(p.X.FillBytes(make([]byte, n)))
		m["y"] = B64(p.Y.FillBytes(make([]byte, n)))
	case ed25519.PublicKey:
		m["kty"] = "OKP"
		m["crv"] = "Ed25519"
		m["x"] = B64(p)
	case *rsa.PublicKey:
		m["kty"] = "RSA"
		m["n"] = B64(p.N.Bytes())
		m["e"] = B64(big.NewInt(int64(p.E)).Bytes())
	}
	return m
}

// JWKS returns a set as generic json.
func JWKS(keys ...*Key) map[string]any {
	ks := make([]any, 0)
	for _, k := range keys {
		ks = append(ks, k.JWK())
	}
	return map[string]any{"keys": ks}
}

func hashFor(alg string) crypto.Hash {
	switch alg[2:] {
	case "256":
		return crypto.SHA256
	case "384":
		return crypto.SHA384
	case "512":
		return crypto.SHA512
	}
	return 0
}

func digest(h crypto.Hash, data []byte) []byte {
	hh := h.New()
	hh.Write(data)
	return hh.Sum(nil)
}

// SignRaw signs bytes.
func (k *Key) SignRaw(data []byte) []byte {
	switch p := k.Priv.(type) {
	case ed25519.PrivateKey:
		return ed25519.Sign(p, data)
	case *ecdsa.PrivateKey:
		r, s, err := ecdsa.Sign(rand.Reader, p, digest(hashFor(k.Alg), data))
		if err != nil {
			panic(err)
		}
		n := (p.Curve.Params().BitSize + 7) / 8
		return append(r.FillBytes(make([]byte, n)), s.FillBytes(make([]byte, n))...)
	case *rsa.PrivateKey:
		var sig []byte
		var err error
		if k.Alg[0] == 'P' {
			sig, err = rsa.SignPSS(
				rand.Reader, p, crypto.SHA256, digest(crypto.SHA256, data),
				&rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash},
			)
		} else {
			sig, err = rsa.SignPKCS1v15(rand.Reader, p, crypto.SHA256, digest(crypto.SHA256, data))
		}
		if err != nil {
			panic(err)
		}
		return sig
	}
	panic("key")
}

// MustJSON marshals.
func MustJSON(v any) []byte {
	d, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return d
}

// Sign builds a compact JWS.
func Sign(k *Key, header map[string]any, claims any) []byte {
	h := map[string]any{"alg": k.Alg, "kid": k.Kid}
	for n, v := range header {
		if v == nil {
			delete(h, n)
			continue
		}
		h[n] = v
	}
	in := B64(MustJSON(h)) + "." + B64(MustJSON(claims))
	return []byte(in + "." + B64(k.SignRaw([]byte(in))))
}

// SignJSON builds a JWS in (general) JSON serialization with one entry per key/header.
func SignJSON(claims any, keys []*Key, headers []map[string]any) []byte {
	pl := B64(MustJSON(claims))
	var sigs []any
	for i, k := range keys {
		h := map[string]any{"alg": k.Alg, "kid": k.Kid}
		for n, v := range headers[i] {
			h[n] = v
		}
		p := B64(MustJSON(h))
		sigs = append(sigs, map[string]any{"protected": p, "signature": B64(k.SignRaw([]byte(p + "." + pl)))})
	}
	return MustJSON(map[string]any{"payload": pl, "signatures": sigs})
}

// Token is a decoded compact JWS.
type Token struct {
	Raw     string
	Header  map[string]any
	Claims  map[string]any
	Payload []byte
	signed  string
	sig     []byte
}

// Decode decodes a compact JWS without verifying.
func Decode(raw []byte) (*Token, error) {
	parts := strings.Split(string(raw), ".")
	if len(parts) != 3 {
		return nil, fmt.Errorf("not a compact jws")
	}
	t := &Token{Raw: string(raw), signed: parts[0] + "." + parts[1]}
	h, err := UnB64(parts[0])
	if err != nil {
		return nil, err
	}
	if err = json.Unmarshal(h, &t.Header); err != nil {
		return nil, err
	}
	if t.Payload, err = UnB64(parts[1]); err != nil {
		return nil, err
	}
	if err = json.Unmarshal(t.Payload, &t.Claims); err != nil {
		return nil, err
	}
	t.sig, err = UnB64(parts[2])
	return t, err
}

// Typ returns the typ header.
func (t *Token) Typ() string { s, _ := t.Header["typ"].(string); return s }

// Str returns a string claim.
func (t *Token) Str(n string) string { s, _ := t.Claims[n].(string); return s }

// Num returns a numeric claim.
func (t *Token) Num(n string) (float64, bool) { f, ok := t.Claims[n].(float64); return f, ok }

// Verdict is three-valued.
type Verdict int

// The verdicts.
const (
	No Verdict = iota
	Maybe
	Yes
)

// And is the minimum.
func And(a ...Verdict) Verdict {
	r := Yes
	for _, v := range a {
		if v < r {
			r = v
		}
	}
	return r
}

// Verify checks the signature against a JWKS in generic json form: Yes if some key with the kid of the token verifies
// it, No if no key in the set verifies it, Maybe if only a key verifies that a strict implementation may not use.
func (t *Token) Verify(jwks any) Verdict {
	m, _ := jwks.(map[string]any)
	keys, _ := m["keys"].([]any)
	alg, _ := t.Header["alg"].(string)
	kid, hasKid := t.Header["kid"].(string)
	res := No
	if _, crit := t.Header["crit"]; crit {
		return No // no extension is understood
	}
	for _, kk := range keys {
		jwk, _ := kk.(map[string]any)
		if jwk == nil || !verifyWith(jwk, alg, []byte(t.signed), t.sig) {
			continue
		}
		v := Yes
		if k, _ := jwk["kid"].(string); !hasKid || k != kid {
			v = Maybe
		}
		if a, ok := jwk["alg"].(string); ok && a != alg {
			v = Maybe
		}
		if u, ok := jwk["use"].(string); ok && u != "sig" {
			v = Maybe
		}
		if v > res {
			res = v
		}
	}
	if res == Yes {
		// a second key with the same kid that does not verify makes it depend on the order of trying
		n := 0
		for _, kk := range keys {
			if jwk, _ := kk.(map[string]any); jwk != nil {
				if k, _ := jwk["kid"].(string); k == kid {
					n++
				}
			}
		}
		if n > 1 {
			res = Maybe
		}
	}
	return res
}

func verifyWith(jwk map[string]any, alg string, data, sig []byte) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	str := func(n string) []byte {
		s, _ := jwk[n].(string)
		b, _ := UnB64(s)
		return b
	}
	switch jwk["kty"] {
	case "EC":
		var c elliptic.Curve
		var want string
		switch jwk["crv"] {
		case "P-256":
			c, want = elliptic.P256(), "ES256"
		case "P-384":
			c, want = elliptic.P384(), "ES384"
		case "P-521":
			c, want = elliptic.P521(), "ES512"
		default:
			return false
		}
		n := (c.Params().BitSize + 7) / 8
		if alg != want || len(sig) != 2*n {
			return false
		}
		pub := &ecdsa.PublicKey{Curve: c, X: new(big.Int).SetBytes(str("x")), Y: new(big.Int).SetBytes(str("y"))}
		return ecdsa.Verify(
			pub, digest(hashFor(alg), data), new(big.Int).SetBytes(sig[:n]), new(big.Int).SetBytes(sig[n:]),
		)
	case "OKP":
		x := str("x")
		return alg == "EdDSA" && len(x) == 32 && ed25519.Verify(x, data, sig)
	case "RSA":
		pub := &rsa.PublicKey{N: new(big.Int).SetBytes(str("n")), E: int(new(big.Int).SetBytes(str("e")).Int64())}
		switch alg {
		case "RS256":
			return rsa.VerifyPKCS1v15(pub, crypto.SHA256, digest(crypto.SHA256, data), sig) == nil
		case "PS256":
			return rsa.VerifyPSS(pub, crypto.SHA256, digest(crypto.SHA256, data), sig, nil) == nil
		}
	}
	return false
}

// Thumbprint is the RFC 7638 thumbprint of a public JWK.
func Thumbprint(jwk map[string]any) string {
	m := map[string]any{}
	for _, n := range map[any][]string{"EC": {"crv", "kty", "x", "y"}, "OKP": {"crv", "kty", "x"}, "RSA": {"e", "kty", "n"}}[jwk["kty"]] {
		m[n] = jwk[n]
	}
	return B64(digest(crypto.SHA256, MustJSON(m)))
}
