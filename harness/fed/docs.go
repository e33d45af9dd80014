package fed

import (
	_ "embed"
	"fmt"
	"math/rand"
	"strings"
)

//go:embed claims.txt
var claimsTxt string

// Claim is a claim a type of documents is documented to have.
type Claim struct {
	Field string // of the Go type
	Name  string
	Kind  string
	Req   bool // always written
}

// Claims holds the claims of all types of documents.
var Claims = map[string][]Claim{}

func init() {
	cur := ""
	for _, l := range strings.Split(claimsTxt, "\n") {
		p := strings.Fields(l)
		switch {
		case len(p) == 2 && p[0] == "#":
			cur = p[1]
		case len(p) == 3:
			c := Claim{Field: p[0], Name: p[1], Kind: strings.TrimSuffix(p[2], "!")}
			c.Req = c.Kind != p[2]
			Claims[cur] = append(Claims[cur], c)
		}
	}
	Claims["OAuthAuthorizationServerMetadata"] = Claims["OpenIDProviderMetadata"]
	Claims["OAuthClientMetadata"] = Claims["OpenIDRelyingPartyMetadata"]
	rr := []Claim{
		{"Issuer", "iss", "s", true}, {"Subject", "sub", "s", true}, {"IssuedAt", "iat", "t", true}, {"ExpiresAt", "exp", "t", true},
		{"Audience", "aud", "s", false},
	}
	Claims["ResolveResponse"] = append(rr, Claims["ResolveResponsePayload"]...)
}

// DocGen generates documents.
type DocGen struct {
	R    *rand.Rand
	Keys []*Key
	P    float64 // of optional claims
	Odd  bool    // strange strings
}

// Str is some string.
func (g *DocGen) Str() string {
	if g.Odd && Chance(g.R, 0.2) {
		return Pick(
			g.R, "ü€😀", "<a href=\"x\">&amp;'", "line\nbreak\ttab", " lead and trail ", "null", "true", "12", "0x1f", "1e3", "~", "{}", "- a", "a: b", "\\", "\u2028",
			"yes", "2001-01-01", "!!int 3", "#c", "%s", strings.Repeat("x", 300),
		)
	}
	return fmt.Sprintf("v%d", g.R.Intn(1000))
}

// Any is some claim value.
func (g *DocGen) Any(depth int) any {
	switch n := g.R.Intn(9); {
	case n == 0:
		return nil
	case n == 1:
		return Chance(g.R, 0.5)
	case n == 2:
		return float64(g.R.Int63n(1<<52)) * Pick(g.R, 1.0, -1, 0.5)
	case n == 3:
		return Pick[any](g.R, "", 0.0, false, []any{}, map[string]any{}, -0.5, 1e-7, 1e21)
	case n == 4 && depth > 0:
		l := []any{}
		for i := 0; i < g.R.Intn(4); i++ {
			l = append(l, g.Any(depth-1))
		}
		return l
	case n == 5 && depth > 0:
		m := map[string]any{}
		for i := 0; i < g.R.Intn(4); i++ {
			m[g.Str()] = g.Any(depth - 1)
		}
		return m
	default:
		return g.Str()
	}
}

var oddNames = []string{
	"-", "x", "x y", "ü", "Extra", "extra", "wasSet", "jwtMsg", "a.b", "https://c.example/claim", "client_name#de", "omitempty", "x_1", "0", "<b>", "_", "nbf",
	"jti", "trustmark", "id", "crit2", "logo_uri#ja-Hani-JP", "subx", "RawJWT",
}

// Extras adds claims nobody knows.
func (g *DocGen) Extras(m map[string]any, typ string) (names []string) {
	if Chance(g.R, 0.4) {
		return
	}
	for i := 0; i <= g.R.Intn(4); i++ {
		n := Pick(g.R, oddNames...)
		known := false
		for _, c := range Claims[typ] {
			known = known || strings.EqualFold(c.Name, n) || strings.EqualFold(c.Field, n)
		}
		if _, ok := m[n]; known || ok {
			continue
		}
		m[n] = g.Any(2)
		names = append(names, n)
	}
	return
}

// JWT is some JWT.
func (g *DocGen) JWT() string {
	return string(
		Sign(g.Keys[g.R.Intn(len(g.Keys))], map[string]any{"typ": TypStatement}, map[string]any{"iss": g.Str(), "sub": g.Str(), "n": g.R.Intn(1000)}),
	)
}

func (g *DocGen) list() []any {
	l := []any{}
	for i := 0; i <= g.R.Intn(3); i++ {
		l = append(l, g.Str())
	}
	return l
}

func (g *DocGen) many(f func() any) []any {
	l := []any{}
	for i := 0; i <= g.R.Intn(3); i++ {
		l = append(l, f())
	}
	return l
}

// Time is a moment as in documents.
func (g *DocGen) Time() float64 {
	t := float64(Pick[int64](g.R, 1, 1e6, 1_600_000_000, 1_700_000_000, 1_999_999_999, 4_102_444_800) + int64(g.R.Intn(1000)))
	return t
}

func (g *DocGen) policy() any {
	p := map[string]any{}
	for i := 0; i <= g.R.Intn(3); i++ {
		e := map[string]any{}
		for j := 0; j <= g.R.Intn(3); j++ {
			switch op := Pick(g.R, "value", "default", "add", "one_of", "subset_of", "superset_of", "essential", "custom_op"); op {
			case "value", "default", "custom_op":
				e[op] = g.Any(1)
			case "essential":
				e[op] = Chance(g.R, 0.5)
			default:
				e[op] = g.list()
			}
		}
		p[Pick(g.R, "scope", "contacts", "client_name", "grant_types", "unknown_claim", "jwks", "default_max_age")] = e
	}
	return p
}

// Value generates the value of a claim.
func (g *DocGen) Value(c Claim) any {
	r := g.R
	switch c.Kind {
	case "s":
		return g.Str()
	case "l", "[]PolicyOperatorName":
		return g.list()
	case "b":
		return true
	case "n":
		return float64(1 + r.Intn(1e9))
	case "i":
		return float64(r.Intn(5))
	case "t":
		return g.Time()
	case "d":
		return float64(1 + r.Intn(1e6))
	case "j":
		n := 1 + r.Intn(len(g.Keys))
		return JWKS(g.Keys[:n]...)
	case "ms":
		return map[string]any{g.Str(): g.Str(), "k": g.Str()}
	case "map[string][]string", "AllowedTrustMarkIssuers":
		m := map[string]any{}
		for i := 0; i <= r.Intn(3); i++ {
			m["http://t/"+g.Str()] = g.list()
		}
		if c.Kind == "AllowedTrustMarkIssuers" && Chance(r, 0.3) {
			m["http://t/any"] = []any{}
		}
		return m
	case "MetadataPolicy":
		return g.policy()
	case "JWSMessages":
		return g.many(func() any { return g.JWT() })
	case "TrustMarkInfos":
		return g.many(func() any { return g.Doc("TrustMarkInfo") })
	case "TrustMarkOwners":
		m := map[string]any{}
		for i := 0; i <= r.Intn(2); i++ {
			m["http://t/"+g.Str()] = g.Doc("TrustMarkOwnerSpec")
		}
		return m
	case "[]*CollectedEntity":
		return g.many(func() any { return g.Doc("CollectedEntity") })
	case "map[string]UIInfo":
		m := map[string]any{}
		for i := 0; i <= r.Intn(3); i++ {
			m[Pick(r, "openid_provider", "federation_entity", "custom")] = g.Doc("UIInfo")
		}
		return m
	}
	if _, ok := Claims[c.Kind]; ok {
		return g.Doc(c.Kind)
	}
	panic("no generator for " + c.Kind)
}

// NoExtras are the types without further claims.
var NoExtras = map[string]bool{
	"ConstraintSpecification": true, "NamingConstraints": true, "TrustMarkOwnerSpec": true, "OIDCErrorResponse": true, "TrustAnchor": true,
}

// Doc generates a document.
func (g *DocGen) Doc(typ string) map[string]any {
	m := map[string]any{}
	for _, c := range Claims[typ] {
		if c.Req || Chance(g.R, g.P) {
			m[c.Name] = g.Value(c)
		}
	}
	switch {
	case NoExtras[typ]:
	case typ == "MetadataPolicies":
		if Chance(g.R, 0.3) {
			m["custom_type"] = g.policy()
		}
	case typ == "Metadata":
		if Chance(g.R, 0.3) {
			m["custom_type"] = map[string]any{"a": g.Any(2), "client_name": g.Str()}
		}
	default:
		g.Extras(m, typ)
	}
	return m
}
