package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/unixtime"

	"github.com/go-oidfed/lib/verifharness/fed"
	"github.com/go-oidfed/lib/verifharness/rt"
)

func init() {
	register("C20", property{run: runC20})
}

const typResolve = "resolve-response+jwt"

// remoteAnswer is what a resolve endpoint answers.
type remoteAnswer struct {
	kind   string
	resp   *fed.Resp
	claims map[string]any
	// verdicts: of the payload, and what is confirmed about the chain
	good    fed.Verdict // with the right signature
	forged  bool
	valid   bool
	invalid bool
}

var answerKinds = []string{
	"ok", "ok", "ok", "ok", "bare", "nochain", "typ", "notyp", "sub", "nosub", "expired", "future", "forged", "none", "garbage", "empty", "json",
	"error:invalid_trust_chain", "error:invalid_metadata", "error:invalid_subject", "error:invalid_trust_anchor", "error:not_found",
	"error:server_error", "error:temporarily_unavailable", "error:invalid_request", "error:unsupported_parameter", "error:something",
	"text404", "text500", "drop", "slow", "error200", "badpayload", "flip",
}

func genAnswer(k *rt.Case, kind string, n *fed.Node, req apimodel.ResolveRequest) *remoteAnswer {
	r := k.Rng
	now := time.Now()
	a := &remoteAnswer{kind: kind}
	a.claims = map[string]any{
		"iss": n.ID, "sub": req.Subject, "iat": now.Unix() - 10, "exp": now.Add(time.Hour).Unix(),
		"metadata": map[string]any{"openid_relying_party": fed.RPMeta(fmt.Sprint("http://remote", r.Intn(1000)))},
	}
	jwt := func(sub string) string {
		return string(
			fed.Sign(n.Keys[0], map[string]any{"typ": fed.TypStatement}, map[string]any{"iss": n.ID, "sub": sub, "iat": now.Unix(), "exp": now.Unix() + 600}),
		)
	}
	a.claims["trust_chain"] = []any{jwt(req.Subject), jwt(n.ID)}
	if fed.Chance(r, 0.4) {
		a.claims["trust_marks"] = []any{map[string]any{"trust_mark_type": "http://t", "trust_mark": jwt("x")}}
	}
	for x, v := range extras(k) {
		a.claims[x] = v
	}
	key := n.Keys[r.Intn(len(n.Keys))]
	head := map[string]any{"typ": typResolve}
	a.good = fed.Yes
	switch kind {
	case "bare":
		delete(a.claims, "metadata")
		delete(a.claims, "trust_chain")
		delete(a.claims, "trust_marks")
	case "nochain":
		delete(a.claims, "trust_chain")
	case "typ":
		head["typ"] = fed.Pick(r, "JWT", fed.TypStatement, "trust-mark+jwt", "Resolve-Response+jwt ", "")
		a.good = fed.No
	case "notyp":
		head = map[string]any{}
		a.good = fed.No
	case "sub":
		a.claims["sub"] = fed.Pick(r, n.ID, req.Subject+"x", "http://other.example", strings.ToUpper(req.Subject), fed.ToggleSlash(req.Subject))
		a.good = fed.No
	case "nosub":
		delete(a.claims, "sub")
		a.good = fed.No
	case "expired":
		a.claims["exp"] = now.Unix() - fed.Pick[int64](r, 2, 3600, 1e9)
		a.good = fed.No
	case "future":
		a.claims["iat"] = now.Unix() + fed.Pick[int64](r, 3600, 1e9)
		a.good = fed.No
	case "forged":
		key = fed.NewKey(key.Alg, key.Kid)
		a.forged = true
	case "badpayload":
		a.claims[fed.Pick(r, "metadata", "trust_chain", "trust_marks")] = fed.Pick[any](r, "x", 7, true, []any{7}, map[string]any{"openid_relying_party": 5})
		a.good = fed.No
	}
	raw := fed.Sign(key, head, a.claims)
	a.resp = &fed.Resp{Type: "application/resolve-response+jwt", Body: raw}
	if kind == "flip" {
		i := strings.LastIndexByte(string(raw), '.') + 5
		b := append([]byte(nil), raw...)
		if b[i] == 'A' {
			b[i] = 'B'
		} else {
			b[i] = 'A'
		}
		a.resp.Body = b
		a.forged = true
	}
	bad := func(x *fed.Resp) {
		a.resp, a.good = x, fed.No
	}
	switch {
	case kind == "none":
		bad(nil)
	case kind == "garbage":
		bad(&fed.Resp{Type: a.resp.Type, Body: []byte(fed.Pick(r, "xxx", "a.b.c", "..", string(raw[:len(raw)/3]), "\x00\xff", "eyJ.eyJ.x"))})
	case kind == "empty":
		bad(&fed.Resp{Type: a.resp.Type, Body: nil})
	case kind == "json":
		bad(&fed.Resp{Type: "application/json", Body: fed.MustJSON(a.claims)})
	case kind == "text404":
		bad(&fed.Resp{Status: 404, Type: fed.Pick(r, "text/html", a.resp.Type), Body: fed.Pick(r, []byte("<html>"), raw)})
	case kind == "text500":
		bad(&fed.Resp{Status: 500, Type: fed.Pick(r, "text/plain", a.resp.Type), Body: fed.Pick(r, []byte("internal"), raw)})
	case kind == "error200":
		bad(&fed.Resp{Type: "application/json", Body: []byte(`{"error":"invalid_trust_chain"}`)})
	case kind == "drop":
		bad(&fed.Resp{Drop: true})
	case kind == "slow":
		a.resp.Delay = 20 * time.Millisecond
	case strings.HasPrefix(kind, "error:"):
		e := kind[6:]
		bad(
			&fed.Resp{
				Status: fed.Pick(r, 400, 401, 404, 500, 503), Type: fed.Pick(r, "application/json", "application/json; charset=utf-8"),
				Body: fed.MustJSON(map[string]any{"error": e, "error_description": "d"}),
			},
		)
		a.valid = e == "invalid_metadata"
		a.invalid = e == "invalid_trust_chain"
	}
	if a.good == fed.Yes {
		a.valid = true
	}
	return a
}

// payloadIs compares a payload with the claims of the response.
func payloadIs(p oidfed.ResolveResponsePayload, claims map[string]any) string {
	want := map[string]any{}
	for n, v := range claims {
		switch n {
		case "iss", "sub", "iat", "exp", "aud":
		default:
			want[n] = v
		}
	}
	data, err := json.Marshal(p)
	if err != nil {
		return err.Error()
	}
	var got map[string]any
	if err = json.Unmarshal(data, &got); err != nil {
		return err.Error()
	}
	for n := range got {
		// these belong to the envelope
		switch n {
		case "iss", "sub", "iat", "exp", "aud":
			return "claim " + n + " among the payload"
		}
	}
	if string(canon(got)) != string(canon(generic(want))) {
		return firstDiff(string(canon(generic(want))), string(canon(got)))
	}
	return ""
}

func remoteReq(k *rt.Case, f *fed.Fed) apimodel.ResolveRequest {
	r := k.Rng
	req := apimodel.ResolveRequest{Subject: f.Nodes[len(f.Nodes)-1].ID}
	if fed.Chance(r, 0.2) {
		req.EntityTypes = []string{"openid_provider", "openid_relying_party"}
	}
	for _, n := range f.Nodes {
		if n.Level == 0 && (fed.Chance(r, 0.8) || len(req.TrustAnchor) == 0) {
			req.TrustAnchor = append(req.TrustAnchor, n.ID)
		}
	}
	r.Shuffle(len(req.TrustAnchor), func(i, j int) { req.TrustAnchor[i], req.TrustAnchor[j] = req.TrustAnchor[j], req.TrustAnchor[i] })
	return req
}

func checkResolveQuery(k *rt.Case, q fed.Req, req apimodel.ResolveRequest) {
	want := map[string][]string{"sub": {req.Subject}, "trust_anchor": req.TrustAnchor}
	if len(req.EntityTypes) > 0 {
		want["entity_type"] = req.EntityTypes
	}
	_, got := q.Endpoint()
	if !reflect.DeepEqual(map[string][]string(got), want) || q.Method != "GET" {
		k.Violation("a resolve endpoint is asked for something else", map[string]any{"got": q.Query, "want": want})
	}
	k.Count("resolve_requests", 1)
}

// simpleRemote asks one endpoint.
func simpleRemote(k *rt.Case) {
	w := fed.NewWorld()
	defer w.Close()
	f := fed.NewFed(k.Rng, w, fed.Opts{TAs: 1 + k.Rng.Intn(3), Mids: 1, Leaves: 1, RichAlgs: fed.Chance(k.Rng, 0.3), PathIDs: fed.Chance(k.Rng, 0.3)})
	f.Publish()
	req := remoteReq(k, f)
	n := f.Nodes[0]
	var i int
	_, _ = fmt.Sscanf(k.Name, "simple#%d", &i)
	a := genAnswer(k, answerKinds[i%len(answerKinds)], n, req)
	ep := n.Endpoint("resolve")
	if a.resp != nil {
		w.Put(ep, req.Subject, a.resp)
	}
	r := oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: ep}
	det := map[string]any{"answer": a.kind, "claims": a.claims, "request": generic(req)}
	m, err := r.Resolve(req)
	p, err2 := r.ResolveResponsePayload(req)
	yes, no := r.ResolvePossible(req)
	res, _, err3 := r.ResolveResponse(req)
	for _, q := range w.Requests() {
		checkResolveQuery(k, q, req)
	}
	if (err == nil) != (err2 == nil) {
		k.Violation("remote Resolve and ResolveResponsePayload disagree", det)
	}
	if a.good == fed.No && (err == nil || err2 == nil) {
		k.Violation("metadata from a response that must not be accepted", det)
	}
	if a.good == fed.Yes && !a.forged {
		if err != nil || err2 != nil {
			det["err"] = fmt.Sprint(err, err2)
			k.Violation("a correct resolve response is refused", det)
		} else {
			if why := payloadIs(p, a.claims); why != "" {
				det["diff"] = why
				k.Violation("a resolve response is not what the endpoint said", det)
			}
			if string(canon(m)) != string(canon(generic(a.claims["metadata"]))) {
				det["got"] = generic(m)
				k.Violation("remote metadata is not what the endpoint said", det)
			}
			if err3 != nil || res == nil {
				k.Violation("a correct resolve response is refused", det)
			} else if res.Issuer != n.ID || res.Subject != req.Subject || float64(res.ExpiresAt.Unix()) != generic(a.claims["exp"]) || float64(res.IssuedAt.Unix()) != generic(a.claims["iat"]) {
				det["got"] = map[string]any{"iss": res.Issuer, "sub": res.Subject, "exp": res.ExpiresAt.Unix(), "iat": res.IssuedAt.Unix()}
				k.Violation("the claims of a resolve response are lost", det)
			} else if string(canon(generic(*res))) != string(canon(generic(a.claims))) {
				det["got"] = generic(*res)
				k.Violation("a resolve response does not survive encoding", det)
			}
		}
	}
	if yes && no {
		k.Violation("a chain is confirmed as valid and as invalid", det)
	}
	if yes && !a.valid {
		k.Violation("a chain is confirmed as valid without a positive answer", det)
	}
	if no && !a.invalid {
		k.Violation("a chain is confirmed as invalid without a negative answer", det)
	}
	if !a.forged && a.valid && !yes || a.invalid && !no {
		k.Violation("a definite answer is ignored", det)
	}
	k.Eval("simple/" + a.kind)
}

// smartRemote walks over the endpoints of the anchors.
func smartRemote(k *rt.Case) {
	r := k.Rng
	cc := genChain(
		k, fed.Opts{TAs: 1 + r.Intn(4), Mids: r.Intn(3), Leaves: 1, MaxHints: 3, RichAlgs: fed.Chance(r, 0.2), PathIDs: fed.Chance(r, 0.2)}, nil, 0, 0,
	)
	w, f := cc.f.W, cc.f
	defer w.Close()
	req := remoteReq(k, f)
	answers := map[string]*remoteAnswer{}
	dead := map[string]bool{}
	for _, n := range f.Nodes {
		if n.Level != 0 {
			continue
		}
		if fed.Chance(r, 0.75) {
			ep := n.Endpoint("resolve")
			kind := fed.Pick(r, answerKinds...)
			if fed.Chance(r, 0.5) {
				kind = fed.Pick(r, "error:invalid_trust_chain", "error:not_found", "drop", "text500", "garbage", "sub", "forged", "flip", "expired", "error:invalid_metadata")
			}
			a := genAnswer(k, kind, n, req)
			if a.resp != nil {
				w.Put(ep, req.Subject, a.resp)
			}
			answers[n.ID] = a
			n.Meta["federation_entity"].(map[string]any)["federation_resolve_endpoint"] = ep
			if fed.Chance(r, 0.3) {
				// an anchor may be below others
				n.EC.Claims["authority_hints"] = fed.Pick(r, []any{"http://above." + w.Suffix}, []any{f.Nodes[0].ID}, []any{n.ID}, []any{})
			}
			n.EC.Reset()
			f.PublishNode(n)
		}
		if fed.Chance(r, 0.1) {
			w.Put(fed.ECURL(n.ID), "", fed.Pick(r, &fed.Resp{Status: 500, Type: "text/plain", Body: []byte("x")}, &fed.Resp{Drop: true}, &fed.Resp{Body: []byte("junk")}))
			dead[n.ID] = true
		}
	}
	smartRound(k, cc, req, answers, dead)
	// the endpoints answer differently
	for range r.Intn(3) {
		for _, n := range f.Nodes {
			if answers[n.ID] == nil || fed.Chance(r, 0.3) {
				continue
			}
			a := genAnswer(k, fed.Pick(r, fed.Pick(r, answerKinds...), "ok", "error:invalid_trust_chain", "error:not_found", "drop", "text500", "expired"), n, req)
			w.Put(n.Endpoint("resolve"), req.Subject, a.resp)
			answers[n.ID] = a
		}
		if fed.Chance(r, 0.3) {
			r.Shuffle(len(req.TrustAnchor), func(i, j int) { req.TrustAnchor[i], req.TrustAnchor[j] = req.TrustAnchor[j], req.TrustAnchor[i] })
		}
		smartRound(k, cc, req, answers, dead)
	}
}

// smartRound resolves and compares with what the endpoints answer.
func smartRound(k *rt.Case, cc *chainCase, req apimodel.ResolveRequest, answers map[string]*remoteAnswer, dead map[string]bool) {
	w, f := cc.f.W, cc.f
	var order []string
	// reference
	m := &fed.Model{W: w, Types: req.EntityTypes}
	for _, t := range req.TrustAnchor {
		m.Anchors = append(m.Anchors, fed.Anchor{ID: t})
	}
	m.T0 = time.Now()
	resolver := oidfed.SmartRemoteMetadataResolver{}
	w.ResetRequests()
	p, err := resolver.ResolveResponsePayload(req)
	asked := askedEndpoints(k, w, req)
	md, err2 := resolver.Resolve(req)
	w.ResetRequests()
	yes, no := resolver.ResolvePossible(req)
	asked2 := askedEndpoints(k, w, req)
	m.T1 = time.Now()
	local := fed.No
	for _, c := range m.Chains(req.Subject) {
		if c.V > local {
			local = c.V
		}
	}
	var kinds []string
	var hit *remoteAnswer
	for _, t := range req.TrustAnchor {
		if a := answers[t]; a != nil && !dead[t] {
			order = append(order, f.By[t].Endpoint("resolve"))
			kinds = append(kinds, a.kind)
			if a.good == fed.Yes && !a.forged {
				hit = a
				break
			}
		}
	}
	det := map[string]any{"answers": kinds, "request": generic(req), "asked": asked, "expected": order}
	if !reflect.DeepEqual(asked, order) {
		k.Violation("the resolve endpoints are not asked one after another until one succeeds", det)
	}
	if (err == nil) != (err2 == nil) {
		k.Violation("smart Resolve and ResolveResponsePayload disagree", det)
	}
	switch {
	case hit != nil:
		if err != nil {
			det["err"] = err.Error()
			k.Violation("a correct resolve response is not used", det)
		} else if why := payloadIs(p, hit.claims); why != "" {
			det["diff"] = why
			k.Violation("the result is not that of the first endpoint that succeeded", det)
		} else if string(canon(md)) != string(canon(generic(hit.claims["metadata"]))) {
			k.Violation("the metadata is not that of the first endpoint that succeeded", det)
		}
	case local == fed.Yes && err != nil:
		det["err"] = err.Error()
		k.Violation("there is no local resolution although no endpoint succeeded", det)
	case local == fed.No && err == nil:
		k.Violation("resolution succeeds although no endpoint does and there is no chain", det)
	case err == nil:
		var raw []string
		_ = json.Unmarshal(fed.MustJSON(p.TrustChain), &raw)
		ok := false
		for _, c := range m.Chains(req.Subject) {
			ok = ok || c.Key() == strings.Join(raw, "\n")
		}
		if !ok {
			det["chain"] = idsOf(raw)
			k.Violation("local resolution returns another chain", det)
		}
	}
	// possible
	var wantYes, wantNo, decided bool
	var order2 []string
	for _, t := range req.TrustAnchor {
		a := answers[t]
		if a == nil || dead[t] {
			continue
		}
		order2 = append(order2, f.By[t].Endpoint("resolve"))
		if a.valid && !a.forged {
			wantYes, decided = true, true
		} else if a.invalid {
			wantNo, decided = true, true
		}
		if decided {
			break
		}
	}
	det["asked"], det["expected"], det["possible"] = asked2, order2, fmt.Sprint(yes, no)
	if !reflect.DeepEqual(asked2, order2) {
		k.Violation("ResolvePossible does not ask the endpoints until one gives a definite answer", det)
	}
	if !decided && local != fed.Maybe {
		wantYes, wantNo = local == fed.Yes, local == fed.No
		decided = true
	}
	if decided && (yes != wantYes || no != wantNo) {
		k.Violation("ResolvePossible gives a wrong answer", det)
	}
	k.Eval(fmt.Sprintf("smart/%s/%d/%v", strings.Join(kinds, "+"), local, len(dead)))
	k.Sample(det)
}

func askedEndpoints(k *rt.Case, w *fed.World, req apimodel.ResolveRequest) (r []string) {
	for _, q := range w.Requests() {
		if q.Path != "/resolve" {
			continue
		}
		checkResolveQuery(k, q, req)
		u, _ := q.Endpoint()
		if len(r) == 0 || r[len(r)-1] != u {
			r = append(r, u)
		}
	}
	return
}

// resolveServer issues resolve responses and reads them.
func resolveServer(k *rt.Case) {
	r := k.Rng
	key := fed.NewKey(fed.Pick(r, fed.Algs...), "")
	var s *oidfed.ResolveResponseSigner
	if fed.Chance(r, 0.5) {
		s = oidfed.NewResolveResponseSigner(key.Priv, alg(key.Alg))
	} else {
		s = oidfed.NewGeneralJWTSigner(key.Priv, alg(key.Alg)).ResolveResponseSigner()
	}
	ownKid(key, s.JWKS())
	t0 := time.Now()
	life := time.Duration(1+r.Intn(10000)) * time.Second
	res := oidfed.ResolveResponse{
		Issuer: "http://resolver.example", Subject: "http://sub.example", IssuedAt: unixtime.Unixtime{Time: t0},
		ExpiresAt: unixtime.Unixtime{Time: t0.Add(life)},
	}
	want := map[string]any{"iss": res.Issuer, "sub": res.Subject}
	if fed.Chance(r, 0.5) {
		res.Audience = "http://aud.example"
		want["aud"] = res.Audience
	}
	p := map[string]any{}
	if fed.Chance(r, 0.7) {
		p["metadata"] = map[string]any{"openid_relying_party": fed.RPMeta("http://x"), "custom": map[string]any{"a": 1.0}}
	}
	if fed.Chance(r, 0.5) {
		p["trust_marks"] = []any{map[string]any{"trust_mark_type": "http://t", "trust_mark": "x.y.z", "more": true}}
	}
	if fed.Chance(r, 0.5) {
		j := string(fed.Sign(key, map[string]any{"typ": fed.TypStatement}, map[string]any{"iss": "a", "sub": "b"}))
		p["trust_chain"] = []any{j, j}
	}
	for x, v := range extras(k) {
		p[x] = v
	}
	if err := json.Unmarshal(fed.MustJSON(p), &res.ResolveResponsePayload); err != nil {
		k.Violation("a resolve response payload is refused", map[string]any{"payload": p, "err": err.Error()})
		return
	}
	for n, v := range p {
		want[n] = v
	}
	var arg any = res
	if fed.Chance(r, 0.5) {
		arg = &res
	}
	raw, err := s.JWT(arg)
	if err != nil {
		k.Violation("a resolve response cannot be issued", map[string]any{"payload": p, "err": err.Error()})
		return
	}
	if !jwtIs(k, "a resolve response", raw, typResolve, key, s.JWKS(), want, t0, t0, life) {
		return
	}
	back, err := oidfed.ParseResolveResponse(raw)
	if err != nil {
		k.Violation("an issued resolve response cannot be read", map[string]any{"jwt": string(raw), "err": err.Error()})
		return
	}
	if string(canon(generic(*back))) != string(canon(generic(res))) {
		k.Violation("a resolve response does not survive encoding", map[string]any{"is": generic(*back), "was": generic(res)})
	}
	k.Eval(fmt.Sprintf("issued/%s/%d", key.Alg, len(want)))
}

func runC20(c *rt.Ctx) {
	c.Rule = "Resolve endpoints answer with correct, outdated, misdirected, forged, mistyped and damaged resolve responses, all error " +
		"codes and connection failures. SimpleRemote must give exactly what a correct response says and no definite verdict without " +
		"one; SmartRemote must walk the anchors' endpoints in order and end with the local resolution, which is compared with the " +
		"reference resolver. Issued responses are decoded by independent JOSE. Distinct by sequence of answers and local verdict."
	c.Assume = []string{"a response with a wrong signature is only judged where the keys are known (the anchor's own endpoint)"}
	c.RunParallel("simple", len(answerKinds)*c.N(12, 200), simpleRemote)
	c.RunParallel("smart", c.N(1500, 20000), smartRemote)
	c.RunParallel("issue", c.N(1500, 30000), resolveServer)
}
