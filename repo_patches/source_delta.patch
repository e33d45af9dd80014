From dc40158a1728ddbb0e137f6e79927d78b22c3556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 01/59] fix: reject a starting entity whose configuration is
 not about itself or not time-valid

---
 trustresolver.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 5523cde..d3df817 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -212,12 +212,19 @@ func (r *TrustResolver) Resolve() {
 	if err != nil {
 		return
 	}
-	if len(r.Types) > 0 {
-		utils.NilAllExceptByTag(starting.Metadata, r.Types)
+	if !utils.Equal(starting.Issuer, starting.Subject, r.StartingEntity) || !starting.TimeValid() {
+		return
+	}
+	includedEntityTypes := strset.New()
+	if starting.Metadata != nil {
+		if len(r.Types) > 0 {
+			utils.NilAllExceptByTag(starting.Metadata, r.Types)
+		}
+		includedEntityTypes.Add(starting.Metadata.GuessEntityTypes()...)
 	}
 	r.trustTree = trustTree{
 		Entity:              starting,
-		includedEntityTypes: strset.New(starting.Metadata.GuessEntityTypes()...),
+		includedEntityTypes: includedEntityTypes,
 		subordinateIDs:      strset.New(starting.Subject),
 	}
 	r.trustTree.resolve(r.TrustAnchors)
-- 
2.43.0


From 059dc66b06b820158f9713cdbad66700a56644f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 02/59] fix: only accept trust chains that end at a trust
 anchor with verified signatures

---
 trustresolver.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index d3df817..facf53e 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -235,7 +235,11 @@ func (r *TrustResolver) Resolve() {
 
 // VerifySignatures verifies the signatures of the internal trust tree
 func (r *TrustResolver) VerifySignatures() {
-	r.trustTree.verifySignatures(r.TrustAnchors)
+	if !r.trustTree.verifySignatures(r.TrustAnchors) {
+		// there is no path to any of the trust anchors
+		r.trustTree = trustTree{}
+		return
+	}
 	if err := r.cacheSetTrustTree(); err != nil {
 		internal.Log(err.Error())
 	}
@@ -443,18 +447,23 @@ func (t *trustTree) verifySignatures(anchors TrustAnchors) bool {
 	if t.signaturesVerified {
 		return true
 	}
-	if t.Subordinate != nil {
-		for _, ta := range anchors {
-			if utils.Equal(ta.EntityID, t.Entity.Issuer, t.Entity.Subject, t.Subordinate.Issuer) {
-				// t is about a TA
-				jwks := ta.JWKS
-				if jwks.Set == nil {
-					jwks = t.Entity.JWKS
-				}
-				t.signaturesVerified = t.Entity.Verify(jwks) && t.Subordinate.Verify(jwks)
-				return t.signaturesVerified
-			}
+	if t.Entity == nil {
+		return false
+	}
+	for _, ta := range anchors {
+		if !utils.Equal(ta.EntityID, t.Entity.Issuer, t.Entity.Subject) {
+			continue
+		}
+		if t.Subordinate != nil && t.Subordinate.Issuer != ta.EntityID {
+			continue
+		}
+		// t is about a TA
+		jwks := ta.JWKS
+		if jwks.Set == nil {
+			jwks = t.Entity.JWKS
 		}
+		t.signaturesVerified = t.Entity.Verify(jwks) && (t.Subordinate == nil || t.Subordinate.Verify(jwks))
+		return t.signaturesVerified
 	}
 	iValid := 0
 	for _, tt := range t.Authorities {
-- 
2.43.0


From 2292c469e21e7038065d2ea23a79791cdbe2fc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 03/59] fix: do not keep the trust tree of a previous run when
 resolving again

---
 trustresolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trustresolver.go b/trustresolver.go
index facf53e..567383b 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -199,6 +199,7 @@ func (r *TrustResolver) ResolveToValidChainsWithoutVerifyingMetadata() TrustChai
 
 // Resolve starts the trust chain resolution process, building an internal trust tree
 func (r *TrustResolver) Resolve() {
+	r.trustTree = trustTree{}
 	if found, err := r.cacheGetTrustTree(); err != nil {
 		internal.Log(err.Error())
 	} else if found {
-- 
2.43.0


From 2d5b43114e74b59904eaf6ced5bdd102fe210262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 04/59] fix: bound the cache lifetime of resolved trust trees
 by the expiry of their statements

---
 trustresolver.go | 58 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 11 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 567383b..3f66245 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -283,9 +283,12 @@ func (r TrustResolver) cacheSetTrustChains(chains TrustChains) error {
 	if err != nil {
 		return err
 	}
+	ttl, ok := r.trustTree.cacheLifetime()
+	if !ok {
+		return nil
+	}
 	return cache.Set(
-		cache.Key(cache.KeyTrustTreeChains, string(hash)), chains,
-		unixtime.Until(r.trustTree.expiresAt),
+		cache.Key(cache.KeyTrustTreeChains, string(hash)), chains, ttl,
 	)
 }
 
@@ -306,9 +309,12 @@ func (r TrustResolver) cacheSetTrustTree() error {
 	if err != nil {
 		return err
 	}
+	ttl, ok := r.trustTree.cacheLifetime()
+	if !ok {
+		return nil
+	}
 	return cache.Set(
-		cache.Key(cache.KeyTrustTree, string(hash)), r.trustTree,
-		unixtime.Until(r.trustTree.expiresAt),
+		cache.Key(cache.KeyTrustTree, string(hash)), r.trustTree, ttl,
 	)
 }
 
@@ -318,7 +324,7 @@ type trustTree struct {
 	Subordinate         *EntityStatement
 	Authorities         []trustTree
 	signaturesVerified  bool
-	expiresAt           unixtime.Unixtime
+	incomplete          bool
 	depth               int
 	includedEntityTypes *strset.Set
 	subordinateIDs      *strset.Set
@@ -328,9 +334,6 @@ func (t *trustTree) resolve(anchors TrustAnchors) {
 	if t.Entity == nil {
 		return
 	}
-	if t.Entity.ExpiresAt.Before(t.expiresAt.Time) {
-		t.expiresAt = t.Entity.ExpiresAt
-	}
 	if utils.SliceContains(t.Entity.Issuer, anchors.EntityIDs()) {
 		return
 	}
@@ -344,6 +347,7 @@ func (t *trustTree) resolve(anchors TrustAnchors) {
 		}
 		aStmt, err := GetEntityConfiguration(aID)
 		if err != nil {
+			t.incomplete = true
 			continue
 		}
 		if !utils.Equal(aStmt.Issuer, aStmt.Subject, aID) || !aStmt.TimeValid() {
@@ -357,6 +361,7 @@ func (t *trustTree) resolve(anchors TrustAnchors) {
 			aStmt.Metadata.FederationEntity.FederationFetchEndpoint, t.Entity.Issuer, aID,
 		)
 		if err != nil {
+			t.incomplete = true
 			continue
 		}
 		if subordinateStmt.Issuer != aID || subordinateStmt.Subject != t.Entity.Issuer || !subordinateStmt.TimeValid() {
@@ -365,9 +370,6 @@ func (t *trustTree) resolve(anchors TrustAnchors) {
 		if !t.checkConstraints(subordinateStmt.Constraints) {
 			continue
 		}
-		if subordinateStmt.ExpiresAt.Before(t.expiresAt.Time) {
-			t.expiresAt = subordinateStmt.ExpiresAt
-		}
 		entityTypes := t.includedEntityTypes.Copy()
 		entityTypes.Add(aStmt.Metadata.GuessEntityTypes()...)
 		subordinates := t.subordinateIDs.Copy()
@@ -380,10 +382,44 @@ func (t *trustTree) resolve(anchors TrustAnchors) {
 			subordinateIDs:      subordinates,
 		}
 		tt.resolve(anchors)
+		t.incomplete = t.incomplete || tt.incomplete
 		t.Authorities[i] = tt
 	}
 }
 
+// expiresAt returns the time when the first of the statements in the tree expires
+func (t *trustTree) expiresAt() (exp unixtime.Unixtime) {
+	update := func(e unixtime.Unixtime) {
+		if exp.IsZero() || e.Before(exp.Time) {
+			exp = e
+		}
+	}
+	for _, stmt := range []*EntityStatement{
+		t.Entity,
+		t.Subordinate,
+	} {
+		if stmt != nil {
+			update(stmt.ExpiresAt)
+		}
+	}
+	for i := range t.Authorities {
+		if t.Authorities[i].Entity != nil {
+			update(t.Authorities[i].expiresAt())
+		}
+	}
+	return
+}
+
+// cacheLifetime returns how long the tree (and what is derived from it) may be cached; ok is false if it must not be
+// cached at all
+func (t *trustTree) cacheLifetime() (lifetime time.Duration, ok bool) {
+	if t.Entity == nil || t.incomplete {
+		return 0, false
+	}
+	lifetime = unixtime.Until(t.expiresAt())
+	return lifetime, lifetime > 0
+}
+
 func (t *trustTree) checkConstraints(constraints *ConstraintSpecification) bool {
 	if constraints == nil {
 		return true
-- 
2.43.0


From c0336c2dc17094d08bece4fd239c2475e06caf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 05/59] fix: do not cache trust chains that have not been
 verified

---
 trustresolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trustresolver.go b/trustresolver.go
index 3f66245..9960f2b 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -259,6 +259,10 @@ func (r TrustResolver) Chains() (chains TrustChains) {
 	if chains == nil {
 		return nil
 	}
+	if !r.trustTree.signaturesVerified {
+		// must not be mistaken for verified chains later on
+		return
+	}
 	if err = r.cacheSetTrustChains(chains); err != nil {
 		internal.Log(err.Error())
 	}
-- 
2.43.0


From 35f8c48d9e5920de3e5a92a629e9c56781456744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 06/59] fix: do not share cached trust chains between different
 pinned trust anchor keys

---
 trustresolver.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 9960f2b..5c56873 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -147,13 +147,24 @@ type TrustResolver struct {
 }
 
 func (r TrustResolver) hash() ([]byte, error) {
-	tas := make([]string, len(r.TrustAnchors))
+	type anchor struct {
+		EntityID string
+		JWKS     []byte
+	}
+	tas := make([]anchor, len(r.TrustAnchors))
 	for i, ta := range r.TrustAnchors {
-		tas[i] = ta.EntityID
+		tas[i].EntityID = ta.EntityID
+		if ta.JWKS.Set != nil {
+			keys, err := json.Marshal(ta.JWKS)
+			if err != nil {
+				return nil, err
+			}
+			tas[i].JWKS = keys
+		}
 	}
 	var forSerialization = struct {
 		StartingEntity string
-		TAs            []string
+		TAs            []anchor
 		Types          []string
 	}{
 		StartingEntity: r.StartingEntity,
-- 
2.43.0


From c2f6defac32fb086e22020f11eabc86a0bb3c458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 07/59] fix: refresh cached statements late, not early, in
 their lifetime and never cache expired ones

---
 trustchain.go    | 8 ++++++--
 trustresolver.go | 9 +++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/trustchain.go b/trustchain.go
index 28d74eb..f8d666d 100644
--- a/trustchain.go
+++ b/trustchain.go
@@ -130,8 +130,12 @@ func (c TrustChain) cacheSetMetadata(metadata *Metadata) error {
 	if err != nil {
 		return err
 	}
+	lifetime := unixtime.Until(c.ExpiresAt())
+	if lifetime <= 0 {
+		// already expired; some caches treat this as no expiration
+		return nil
+	}
 	return cache.Set(
-		cache.Key(cache.KeyTrustChainResolvedMetadata, string(hash)), metadata,
-		unixtime.Until(c.ExpiresAt()),
+		cache.Key(cache.KeyTrustChainResolvedMetadata, string(hash)), metadata, lifetime,
 	)
 }
diff --git a/trustresolver.go b/trustresolver.go
index 5c56873..7d2b9d8 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -570,8 +570,13 @@ func (t trustTree) chains() (chains []TrustChain) {
 }
 
 func entityStmtCacheSet(subID, issID string, stmt *EntityStatement) {
+	lifetime := unixtime.Until(stmt.ExpiresAt)
+	if lifetime <= 0 {
+		// already expired; some caches treat this as no expiration
+		return
+	}
 	if err := cache.Set(
-		cache.EntityStmtCacheKey(subID, issID), stmt, time.Until(stmt.ExpiresAt.Time),
+		cache.EntityStmtCacheKey(subID, issID), stmt, lifetime,
 	); err != nil {
 		internal.Log(err)
 	}
@@ -608,7 +613,7 @@ func getEntityStatementOrConfiguration(
 		go func() {
 			remainingLifetime := time.Until(stmt.ExpiresAt.Time)
 			totalLifetime := stmt.ExpiresAt.Sub(stmt.IssuedAt.Time)
-			if remainingLifetime <= ResolverCacheGracePeriod && float64(remainingLifetime)/float64(totalLifetime) > ResolverCacheLifetimeElapsedGraceFactor {
+			if remainingLifetime <= ResolverCacheGracePeriod && float64(totalLifetime-remainingLifetime)/float64(totalLifetime) > ResolverCacheLifetimeElapsedGraceFactor {
 				internal.Log("Within grace period, refreshing entity statement")
 				_, err := obtainAndSetEntityStatementOrConfiguration(
 					subID,
-- 
2.43.0


From 49b61bc84354816ef810877152e390de776bfd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 08/59] fix: do not accept entity statements without an
 expiration time

---
 entitystatement.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/entitystatement.go b/entitystatement.go
index 816bbe3..99dda60 100644
--- a/entitystatement.go
+++ b/entitystatement.go
@@ -87,8 +87,9 @@ type EntityStatementPayload struct {
 }
 
 // TimeValid checks if the EntityStatementPayload is already valid and not yet expired.
+// An EntityStatementPayload without an expiration time is not valid.
 func (e EntityStatementPayload) TimeValid() bool {
-	return unixtime.VerifyTime(&e.IssuedAt, &e.ExpiresAt) == nil
+	return !e.ExpiresAt.IsZero() && unixtime.VerifyTime(&e.IssuedAt, &e.ExpiresAt) == nil
 }
 
 func extraMarshalHelper(explicitFields []byte, extra map[string]interface{}) ([]byte, error) {
-- 
2.43.0


From f7e4628d53785d80d16663cafcbcf99c7236f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 09/59] fix: consider entity types unknown to the library when
 guessing entity types

---
 metadata.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metadata.go b/metadata.go
index a9bf786..5fd8b0b 100644
--- a/metadata.go
+++ b/metadata.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
+	"sort"
 	"strings"
 	"unsafe"
 
@@ -40,7 +41,12 @@ func (m Metadata) GuessEntityTypes() (entityTypes []string) {
 			entityTypes = append(entityTypes, jsonTag)
 		}
 	}
-	return
+	extraTypes := make([]string, 0, len(m.Extra))
+	for entityType := range m.Extra {
+		extraTypes = append(extraTypes, entityType)
+	}
+	sort.Strings(extraTypes)
+	return append(entityTypes, extraTypes...)
 }
 
 // GuessDisplayName implements the DisplayNameGuesser interface
-- 
2.43.0


From 4f2b22a7ba3adaf287ae6d8a4c890de2f82b73dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 10/59] fix: only accept JWTs in compact serialization

---
 internal/jwx/jws.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/jwx/jws.go b/internal/jwx/jws.go
index 580bb27..e67a972 100644
--- a/internal/jwx/jws.go
+++ b/internal/jwx/jws.go
@@ -38,9 +38,9 @@ func (p *ParsedJWT) UnmarshalMsgpack(data []byte) error {
 	return nil
 }
 
-// Parse parses a jwt and returns a ParsedJWT
+// Parse parses a jwt and returns a ParsedJWT; only the compact serialization is a valid jwt
 func Parse(data []byte) (*ParsedJWT, error) {
-	m, err := jws.Parse(data)
+	m, err := jws.Parse(data, jws.WithCompact())
 	return &ParsedJWT{
 		RawJWT:  data,
 		Message: m,
-- 
2.43.0


From 58e4d36537adb12f1bc908b6fcfb1cbd45b44b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 11/59] fix: keep scores and trust chains together when sorting

---
 trustchainfilter.go | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/trustchainfilter.go b/trustchainfilter.go
index f253fce..df8666e 100644
--- a/trustchainfilter.go
+++ b/trustchainfilter.go
@@ -20,31 +20,34 @@ func (c TrustChains) Filter(filter ...TrustChainsFilter) TrustChains {
 
 // SortAsc sorts multiple TrustChains ascending by using the passed TrustChainScoringFnc
 func (c TrustChains) SortAsc(scorer TrustChainScoringFnc) TrustChains {
-	scores := make([]int, len(c))
-	for i, tc := range c {
-		scores[i] = scorer(tc)
-	}
-
-	sort.Slice(
-		c, func(i, j int) bool {
-			return scores[i] < scores[j] // skipcq: GO-W4009
-		},
-	)
-	return c
+	return c.sortByScore(scorer, func(a, b int) bool { return a < b })
 }
 
 // SortDesc sorts multiple TrustChains descending by using the passed TrustChainScoringFnc
 func (c TrustChains) SortDesc(scorer TrustChainScoringFnc) TrustChains {
-	scores := make([]int, len(c))
+	return c.sortByScore(scorer, func(a, b int) bool { return a > b })
+}
+
+func (c TrustChains) sortByScore(scorer TrustChainScoringFnc, less func(a, b int) bool) TrustChains {
+	type scored struct {
+		chain TrustChain
+		score int
+	}
+	scores := make([]scored, len(c))
 	for i, tc := range c {
-		scores[i] = scorer(tc)
+		scores[i] = scored{
+			chain: tc,
+			score: scorer(tc),
+		}
 	}
-
-	sort.Slice(
-		c, func(i, j int) bool {
-			return scores[i] > scores[j] // skipcq: GO-W4009
+	sort.SliceStable(
+		scores, func(i, j int) bool {
+			return less(scores[i].score, scores[j].score)
 		},
 	)
+	for i, s := range scores {
+		c[i] = s.chain
+	}
 	return c
 }
 
-- 
2.43.0


From ad4adf1389f8d2dac7f066dd922e22c2aa7fcaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 12/59] fix: preserve which metadata claims were set when
 caching metadata

---
 internal/generators/metadata.go | 12 +++++--
 metadata.go                     | 63 +++++++++++++++++++++++++++++++++
 metadata_generated.go           | 40 ++++++++++++++++++---
 3 files changed, 109 insertions(+), 6 deletions(-)

diff --git a/internal/generators/metadata.go b/internal/generators/metadata.go
index 12ba173..0bc508c 100644
--- a/internal/generators/metadata.go
+++ b/internal/generators/metadata.go
@@ -320,16 +320,24 @@ func (m *%s) UnmarshalMsgpack(data []byte) error {
 	sb.WriteString(
 		fmt.Sprintf(
 			`
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m %s) MarshalMsgpack() ([]byte, error) {
+	type Alias %s
+	return marshalMsgpackWithWasSet(Alias(m), m.wasSet)
+}
+
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *%s) UnmarshalMsgpack(data []byte) error {
 	var withPtrs %s
-	if err := msgpack.Unmarshal(data, &withPtrs); err != nil {
+	wasSet, err := unmarshalMsgpackWithWasSet(data, &withPtrs)
+	if err != nil {
 		return err
 	}
 	m.fromPointers(withPtrs)
+	m.wasSet = wasSet
 	return nil
 }
-`, name, withPtrsName,
+`, name, name, name, withPtrsName,
 		),
 	)
 
diff --git a/metadata.go b/metadata.go
index 5fd8b0b..fc6e7db 100644
--- a/metadata.go
+++ b/metadata.go
@@ -9,6 +9,7 @@ import (
 	"unsafe"
 
 	"github.com/pkg/errors"
+	"github.com/vmihailenco/msgpack/v5"
 )
 
 // Metadata is a type for holding the different metadata types
@@ -365,6 +366,38 @@ func (m *Metadata) FindEntityMetadata(entityType string, metadata any) error {
 	return json.Unmarshal(jsonMetadata, metadata)
 }
 
+// metadataMsgpack is the msgpack representation of the metadata types; it also holds which of the claims were set,
+// since this cannot be told from the values alone
+type metadataMsgpack struct {
+	Metadata msgpack.RawMessage
+	WasSet   map[string]bool
+}
+
+func marshalMsgpackWithWasSet(metadata any, wasSet map[string]bool) ([]byte, error) {
+	data, err := msgpack.Marshal(metadata)
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	data, err = msgpack.Marshal(
+		metadataMsgpack{
+			Metadata: data,
+			WasSet:   wasSet,
+		},
+	)
+	return data, errors.WithStack(err)
+}
+
+func unmarshalMsgpackWithWasSet(data []byte, metadata any) (map[string]bool, error) {
+	var m metadataMsgpack
+	if err := msgpack.Unmarshal(data, &m); err != nil {
+		return nil, errors.WithStack(err)
+	}
+	if err := msgpack.Unmarshal(m.Metadata, metadata); err != nil {
+		return nil, errors.WithStack(err)
+	}
+	return m.WasSet, nil
+}
+
 // OAuthClientMetadata is a type for holding the metadata about an oauth client
 type OAuthClientMetadata OpenIDRelyingPartyMetadata
 type oAuthClientMetadataWithPtrs openIDRelyingPartyMetadataWithPtrs
@@ -404,6 +437,21 @@ func (m *oAuthAuthorizationServerMetadataWithPtrs) UnmarshalJSON(data []byte) er
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OAuthAuthorizationServerMetadata) MarshalMsgpack() ([]byte, error) {
+	return OpenIDProviderMetadata(m).MarshalMsgpack()
+}
+
+// UnmarshalMsgpack implements the msgpack.Unmarshaler interface
+func (m *OAuthAuthorizationServerMetadata) UnmarshalMsgpack(data []byte) error {
+	base := OpenIDProviderMetadata(*m)
+	if err := base.UnmarshalMsgpack(data); err != nil {
+		return err
+	}
+	*m = OAuthAuthorizationServerMetadata(base)
+	return nil
+}
+
 // ApplyPolicy applies a MetadataPolicy to the OAuthAuthorizationServerMetadata
 func (m OAuthAuthorizationServerMetadata) ApplyPolicy(policy MetadataPolicy) (any, error) {
 	return applyPolicy(&m, policy, "oauth_authorization_server")
@@ -439,6 +487,21 @@ func (m *oAuthClientMetadataWithPtrs) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OAuthClientMetadata) MarshalMsgpack() ([]byte, error) {
+	return OpenIDRelyingPartyMetadata(m).MarshalMsgpack()
+}
+
+// UnmarshalMsgpack implements the msgpack.Unmarshaler interface
+func (m *OAuthClientMetadata) UnmarshalMsgpack(data []byte) error {
+	base := OpenIDRelyingPartyMetadata(*m)
+	if err := base.UnmarshalMsgpack(data); err != nil {
+		return err
+	}
+	*m = OAuthClientMetadata(base)
+	return nil
+}
+
 // ApplyPolicy applies a MetadataPolicy to the OAuthClientMetadata
 func (m OAuthClientMetadata) ApplyPolicy(policy MetadataPolicy) (any, error) {
 	return applyPolicy(&m, policy, "oauth_client")
diff --git a/metadata_generated.go b/metadata_generated.go
index 7103400..ef50163 100644
--- a/metadata_generated.go
+++ b/metadata_generated.go
@@ -141,13 +141,21 @@ func (m *federationEntityMetadataWithPtrs) UnmarshalMsgpack(data []byte) error {
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m FederationEntityMetadata) MarshalMsgpack() ([]byte, error) {
+	type Alias FederationEntityMetadata
+	return marshalMsgpackWithWasSet(Alias(m), m.wasSet)
+}
+
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *FederationEntityMetadata) UnmarshalMsgpack(data []byte) error {
 	var withPtrs federationEntityMetadataWithPtrs
-	if err := msgpack.Unmarshal(data, &withPtrs); err != nil {
+	wasSet, err := unmarshalMsgpackWithWasSet(data, &withPtrs)
+	if err != nil {
 		return err
 	}
 	m.fromPointers(withPtrs)
+	m.wasSet = wasSet
 	return nil
 }
 
@@ -390,13 +398,21 @@ func (m *openIDRelyingPartyMetadataWithPtrs) UnmarshalMsgpack(data []byte) error
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OpenIDRelyingPartyMetadata) MarshalMsgpack() ([]byte, error) {
+	type Alias OpenIDRelyingPartyMetadata
+	return marshalMsgpackWithWasSet(Alias(m), m.wasSet)
+}
+
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *OpenIDRelyingPartyMetadata) UnmarshalMsgpack(data []byte) error {
 	var withPtrs openIDRelyingPartyMetadataWithPtrs
-	if err := msgpack.Unmarshal(data, &withPtrs); err != nil {
+	wasSet, err := unmarshalMsgpackWithWasSet(data, &withPtrs)
+	if err != nil {
 		return err
 	}
 	m.fromPointers(withPtrs)
+	m.wasSet = wasSet
 	return nil
 }
 
@@ -663,13 +679,21 @@ func (m *openIDProviderMetadataWithPtrs) UnmarshalMsgpack(data []byte) error {
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OpenIDProviderMetadata) MarshalMsgpack() ([]byte, error) {
+	type Alias OpenIDProviderMetadata
+	return marshalMsgpackWithWasSet(Alias(m), m.wasSet)
+}
+
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *OpenIDProviderMetadata) UnmarshalMsgpack(data []byte) error {
 	var withPtrs openIDProviderMetadataWithPtrs
-	if err := msgpack.Unmarshal(data, &withPtrs); err != nil {
+	wasSet, err := unmarshalMsgpackWithWasSet(data, &withPtrs)
+	if err != nil {
 		return err
 	}
 	m.fromPointers(withPtrs)
+	m.wasSet = wasSet
 	return nil
 }
 
@@ -822,13 +846,21 @@ func (m *oAuthProtectedResourceMetadataWithPtrs) UnmarshalMsgpack(data []byte) e
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OAuthProtectedResourceMetadata) MarshalMsgpack() ([]byte, error) {
+	type Alias OAuthProtectedResourceMetadata
+	return marshalMsgpackWithWasSet(Alias(m), m.wasSet)
+}
+
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *OAuthProtectedResourceMetadata) UnmarshalMsgpack(data []byte) error {
 	var withPtrs oAuthProtectedResourceMetadataWithPtrs
-	if err := msgpack.Unmarshal(data, &withPtrs); err != nil {
+	wasSet, err := unmarshalMsgpackWithWasSet(data, &withPtrs)
+	if err != nil {
 		return err
 	}
 	m.fromPointers(withPtrs)
+	m.wasSet = wasSet
 	return nil
 }
 
-- 
2.43.0


From b02ea9a760534334df978c0131f06c0e22fe707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 13/59] fix: policy slice operations must neither modify their
 operands nor panic on mixed types

---
 internal/utils/slices.go | 109 ++++++++++++++++++---------------------
 1 file changed, 50 insertions(+), 59 deletions(-)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index f18a91d..aae7c92 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -21,55 +21,31 @@ func RemoveFromSlice[C comparable](slice []C, v C) []C {
 	return result
 }
 
-// ReflectSliceCast casts a slice to another type using reflection
+// ReflectSliceCast casts a slice to another type using reflection; if this is not possible the slice is returned
+// unchanged
 func ReflectSliceCast(slice, newType any) any {
-	if !IsSlice(slice) {
+	if !IsSlice(slice) || !IsSlice(newType) {
 		return slice
 	}
 	typeType := reflect.TypeOf(newType)
+	elemType := typeType.Elem()
 	sliceV := reflect.ValueOf(slice)
 	out := reflect.MakeSlice(typeType, sliceV.Len(), sliceV.Len())
 	for i := 0; i < sliceV.Len(); i++ {
-		vv := sliceV.Index(i)
-		var v reflect.Value
-		// This is stupid and has faults, but I did not find a better way
-		switch typeType.Elem().Kind() {
-		case reflect.Bool:
-			v = reflect.ValueOf(vv.Interface().(bool))
-		case reflect.Int:
-			v = reflect.ValueOf(vv.Interface().(int))
-		case reflect.Int8:
-			v = reflect.ValueOf(vv.Interface().(int8))
-		case reflect.Int16:
-			v = reflect.ValueOf(vv.Interface().(int16))
-		case reflect.Int32:
-			v = reflect.ValueOf(vv.Interface().(int32))
-		case reflect.Int64:
-			v = reflect.ValueOf(vv.Interface().(int64))
-		case reflect.Uint:
-			v = reflect.ValueOf(vv.Interface().(uint))
-		case reflect.Uint8:
-			v = reflect.ValueOf(vv.Interface().(uint8))
-		case reflect.Uint16:
-			v = reflect.ValueOf(vv.Interface().(uint16))
-		case reflect.Uint32:
-			v = reflect.ValueOf(vv.Interface().(uint32))
-		case reflect.Uint64:
-			v = reflect.ValueOf(vv.Interface().(uint64))
-		case reflect.Uintptr:
-			v = reflect.ValueOf(vv.Interface().(*uint))
-		case reflect.Float32:
-			v = reflect.ValueOf(vv.Interface().(float32))
-		case reflect.Float64:
-			v = reflect.ValueOf(vv.Interface().(float64))
-		case reflect.Interface:
-			v = vv
-		case reflect.String:
-			v = reflect.ValueOf(vv.Interface().(string))
+		v := sliceV.Index(i)
+		if v.Kind() == reflect.Interface && elemType.Kind() != reflect.Interface {
+			v = v.Elem()
+		}
+		switch {
+		case !v.IsValid():
+			return slice
+		case v.Type().AssignableTo(elemType):
+			out.Index(i).Set(v)
+		case v.Kind() == elemType.Kind() && v.CanConvert(elemType):
+			out.Index(i).Set(v.Convert(elemType))
 		default:
-			v = vv.Convert(typeType.Elem())
+			return slice
 		}
-		out.Index(i).Set(v)
 	}
 	return out.Interface()
 }
@@ -88,22 +64,39 @@ func ReflectSliceContains(v, slice any) bool {
 	return false
 }
 
-// ReflectUnion uses reflection to compute the union of two slices
-func ReflectUnion(a, b any) any {
+// sameSliceType assures that two slices have the same type by casting b to the type of a; if this is not possible both
+// are returned as []any
+func sameSliceType(a, b any) (any, any) {
 	as := Slicify(a)
 	bs := Slicify(b)
-	out := reflect.ValueOf(as)
-	bV := reflect.ValueOf(bs)
-	if bV.Len() == 0 {
-		return out.Interface()
+	if as == nil {
+		as = []any{}
+	}
+	if bs == nil {
+		bs = []any{}
 	}
-	if out.Len() == 0 || out.Index(0).Type() != bV.Index(0).Type() {
+	if reflect.TypeOf(as) != reflect.TypeOf(bs) {
 		bs = ReflectSliceCast(bs, as)
-		bV = reflect.ValueOf(bs)
 	}
-	if out.Len() == 0 {
-		return bV.Interface()
+	if reflect.TypeOf(as) != reflect.TypeOf(bs) {
+		as = ReflectSliceCast(as, []any{})
+		bs = ReflectSliceCast(bs, []any{})
+	}
+	return as, bs
+}
+
+// ReflectUnion uses reflection to compute the union of two slices; the passed slices are not modified
+func ReflectUnion(a, b any) any {
+	as, bs := sameSliceType(a, b)
+	aV := reflect.ValueOf(as)
+	bV := reflect.ValueOf(bs)
+	if aV.Len() == 0 {
+		aV, bV = bV, aV
+	}
+	if aV.Len() == 0 {
+		return aV.Interface()
 	}
+	out := reflect.AppendSlice(reflect.MakeSlice(aV.Type(), 0, aV.Len()+bV.Len()), aV)
 	for i := 0; i < bV.Len(); i++ {
 		v := bV.Index(i)
 		if !ReflectSliceContains(v.Interface(), out.Interface()) {
@@ -115,13 +108,9 @@ func ReflectUnion(a, b any) any {
 
 // ReflectIntersect uses reflection to compute the intersection of two slices
 func ReflectIntersect(a, b any) any {
-	as := Slicify(a)
-	bs := Slicify(b)
+	as, bs := sameSliceType(a, b)
 	aV := reflect.ValueOf(as)
-	if aV.Type() != reflect.ValueOf(bs).Type() {
-		bs = ReflectSliceCast(bs, as)
-	}
-	out := reflect.New(reflect.TypeOf(as)).Elem()
+	out := reflect.New(aV.Type()).Elem()
 	for i := 0; i < aV.Len(); i++ {
 		v := aV.Index(i)
 		if ReflectSliceContains(v.Interface(), bs) {
@@ -135,6 +124,9 @@ func ReflectIntersect(a, b any) any {
 func ReflectIsSubsetOf(is, of any) bool {
 	is = Slicify(is)
 	of = Slicify(of)
+	if is == nil {
+		return true
+	}
 	isV := reflect.ValueOf(is)
 	for i := 0; i < isV.Len(); i++ {
 		v := isV.Index(i)
@@ -158,8 +150,7 @@ func IsSlice(v interface{}) bool {
 	return reflect.TypeOf(v).Kind() == reflect.Slice
 }
 
-// SliceEqual uses reflection to check if two slices contain the same elements; order does not matter,
-// assumes no duplicate entries in a slice
+// SliceEqual uses reflection to check if two slices contain the same elements; order does not matter
 func SliceEqual(a, b interface{}) bool {
 	if a == nil || b == nil {
 		return a == b
@@ -176,7 +167,7 @@ func SliceEqual(a, b interface{}) bool {
 			return false
 		}
 	}
-	return true
+	return ReflectIsSubsetOf(bs, as)
 }
 
 // Slicify checks if an interface{} is a slice and if not returns a slice of the same type (as an interface{})
-- 
2.43.0


From e4323043e0e035cce8ecce1bf3e6fa2c217eda13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 14/59] fix: parse metadata policies for entity types unknown
 to the library

---
 metadataPolicy.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index e79c97b..dde9359 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -53,11 +53,14 @@ func (m *MetadataPolicies) UnmarshalJSON(data []byte) error {
 	if len(extra) > 0 {
 		policyMap := make(map[string]MetadataPolicy)
 		for k, v := range extra {
-			policy, ok := v.(MetadataPolicy)
-			if !ok {
-				return errors.Errorf("non MetadataPolicy in metadata policies")
+			policyData, err := json.Marshal(v)
+			if err != nil {
+				return errors.WithStack(err)
+			}
+			var policy MetadataPolicy
+			if err = json.Unmarshal(policyData, &policy); err != nil {
+				return errors.Wrap(err, "non MetadataPolicy in metadata policies")
 			}
-
 			policyMap[k] = policy
 		}
 
-- 
2.43.0


From d40ef2c273b2ac396ae195e347044a476655248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 15/59] fix: ignore unknown non-critical policy operators when
 merging and verify every merged policy

---
 metadataPolicy.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index dde9359..a9ac217 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -6,8 +6,6 @@ import (
 
 	"github.com/pkg/errors"
 	"tideland.dev/go/slices"
-
-	"github.com/go-oidfed/lib/internal/utils"
 )
 
 // MetadataPolicies is a type for holding the different MetadataPolicy
@@ -180,7 +178,7 @@ func combineMetadataPolicy(parent, sub MetadataPolicy, pathInfo string) (Metadat
 		return parent, nil
 	}
 	if len(parent) == 0 {
-		return sub, nil
+		return sub, sub.Verify(pathInfo)
 	}
 	out := make(MetadataPolicy)
 	for k, pv := range parent {
@@ -216,7 +214,7 @@ func mergeMetadataPolicyEntries(a, b MetadataPolicyEntry, pathInfo string) (Meta
 		if !ok {
 			// return nil, errors.Errorf("unknown policy operator '%s'; cannot combine these policies", op)
 			// We already checked that this is not a crit operator, so it is just ignored
-			return nil, nil
+			continue
 		}
 		combined, err := operator.Merge(av, bv, pathInfo)
 		if err != nil {
@@ -235,12 +233,15 @@ func mergeMetadataPolicyEntries(a, b MetadataPolicyEntry, pathInfo string) (Meta
 
 // Verify verifies that the MetadataPolicyEntry is valid
 func (p MetadataPolicyEntry) Verify(pathInfo string) error {
-	activeOperators := utils.MapKeys(p)
-	for _, opN := range activeOperators {
-		op, ok := operators[opN]
-		if !ok {
-			continue
+	activeOperators := make([]PolicyOperatorName, 0, len(p))
+	for opN := range p {
+		if _, known := operators[opN]; known {
+			// unknown operators are ignored
+			activeOperators = append(activeOperators, opN)
 		}
+	}
+	for _, opN := range activeOperators {
+		op := operators[opN]
 		mayCombine := op.MayCombineWith()
 		if mayCombine == nil {
 			continue
-- 
2.43.0


From b478e8e6e4f1120c4ccdb79b8603982d5f6133d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 16/59] fix: apply metadata policies to all claims without
 panicking, including claims and entity types unknown to the library

---
 metadata.go | 159 +++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 146 insertions(+), 13 deletions(-)

diff --git a/metadata.go b/metadata.go
index fc6e7db..9c6b95b 100644
--- a/metadata.go
+++ b/metadata.go
@@ -10,6 +10,8 @@ import (
 
 	"github.com/pkg/errors"
 	"github.com/vmihailenco/msgpack/v5"
+
+	"github.com/go-oidfed/lib/internal/utils"
 )
 
 // Metadata is a type for holding the different metadata types
@@ -261,7 +263,15 @@ func (m Metadata) ApplyPolicy(p *MetadataPolicies) (*Metadata, error) {
 			var metadataToReturn interface{}
 			if policy, ok := p.Extra[entityType]; ok {
 				// Found a policy for the entity type, so apply it
-				applied, err := applyPolicy(metadata, policy, entityType)
+				generic, err := toGenericJSON(metadata)
+				if err != nil {
+					return nil, err
+				}
+				claims, isObject := generic.(map[string]any)
+				if !isObject {
+					return nil, errors.Errorf("metadata for entity type '%s' is not an object", entityType)
+				}
+				applied, err := applyPolicyToMap(claims, policy, entityType)
 				if err != nil {
 					return nil, err
 				}
@@ -288,36 +298,159 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 
 	wasSetField := v.Elem().FieldByName("wasSet")
 	wasSet := *(*map[string]bool)(unsafe.Pointer(wasSetField.UnsafeAddr())) // skipcq:  GSC-G103
+	known := make(map[string]bool)
 	for i := 0; i < t.NumField(); i++ {
 		j, ok := t.Field(i).Tag.Lookup("json")
-		if !ok {
+		if !ok || j == "-" {
 			continue
 		}
 		j = strings.TrimSuffix(j, ",omitempty")
+		known[j] = true
 		p, ok := policy[j]
 		if !ok {
 			continue
 		}
 		f := reflect.Indirect(v).Field(i)
-		value, err := p.ApplyTo(f.Interface(), wasSet[t.Field(i).Name], fmt.Sprintf("%s.%s", ownTag, j))
+		valueSet := wasSet[t.Field(i).Name] || !f.IsZero()
+		if err := applyPolicyToField(f, valueSet, p, j, fmt.Sprintf("%s.%s", ownTag, j)); err != nil {
+			return nil, err
+		}
+	}
+
+	// claims without a struct field
+	extraField := v.Elem().FieldByName("Extra")
+	extraPolicy := make(MetadataPolicy)
+	for claim, p := range policy {
+		if !known[claim] {
+			extraPolicy[claim] = p
+		}
+	}
+	if len(extraPolicy) > 0 && extraField.IsValid() {
+		extra, err := applyPolicyToMap(extraField.Interface().(map[string]any), extraPolicy, ownTag)
 		if err != nil {
 			return nil, err
 		}
-		rV := reflect.ValueOf(value)
-		if t.Field(i).Name == "Scope" && rV.IsValid() && rV.Kind() == reflect.Slice {
-			strSlice, ok := value.([]string)
-			if ok {
-				rV = reflect.ValueOf(strings.Join(strSlice, " "))
+		if len(extra) == 0 {
+			extra = nil
+		}
+		extraField.Set(reflect.ValueOf(extra))
+	}
+	return metadata, nil
+}
+
+// applyPolicyToField applies a MetadataPolicyEntry to a single field of a metadata struct
+func applyPolicyToField(f reflect.Value, valueSet bool, p MetadataPolicyEntry, claim, pathInfo string) error {
+	value := f.Interface()
+	switch value.(type) {
+	case string, bool, []string:
+	default:
+		// Policy values are generic json values, so the claim must also be one
+		value = nil
+		if valueSet {
+			var err error
+			if value, err = toGenericJSON(f.Interface()); err != nil {
+				return errors.Wrapf(err, "cannot apply policy to '%s'", pathInfo)
+			}
+		}
+	}
+	applied, err := applyPolicyEntry(p, value, valueSet, claim, pathInfo)
+	if err != nil {
+		return err
+	}
+	if reflect.DeepEqual(applied, value) {
+		return nil
+	}
+	if applied == nil {
+		f.SetZero()
+		return nil
+	}
+	if rV := reflect.ValueOf(applied); rV.Type().AssignableTo(f.Type()) {
+		f.Set(rV)
+		return nil
+	}
+	data, err := json.Marshal(applied)
+	if err != nil {
+		return errors.Wrapf(err, "policy result for '%s' not usable", pathInfo)
+	}
+	target := reflect.New(f.Type())
+	if err = json.Unmarshal(data, target.Interface()); err != nil {
+		return errors.Wrapf(err, "policy result for '%s' does not have the type of this claim", pathInfo)
+	}
+	f.Set(target.Elem())
+	return nil
+}
+
+// applyPolicyToMap applies a MetadataPolicy to metadata given as a generic json object; the result is a new map
+func applyPolicyToMap(metadata map[string]any, policy MetadataPolicy, ownTag string) (map[string]any, error) {
+	out := make(map[string]any, len(metadata))
+	for k, v := range metadata {
+		out[k] = v
+	}
+	for claim, p := range policy {
+		path := fmt.Sprintf("%s.%s", ownTag, claim)
+		value, err := toGenericJSON(out[claim])
+		if err != nil {
+			return nil, errors.Wrapf(err, "cannot apply policy to '%s'", path)
+		}
+		applied, err := applyPolicyEntry(p, value, value != nil, claim, path)
+		if err != nil {
+			return nil, err
+		}
+		switch {
+		case applied == nil:
+			delete(out, claim)
+		case utils.IsSlice(applied) && reflect.ValueOf(applied).IsNil():
+			out[claim] = []any{}
+		default:
+			out[claim] = applied
+		}
+	}
+	return out, nil
+}
+
+// applyPolicyEntry applies a MetadataPolicyEntry to the value of a claim; claims that are space-delimited lists are
+// handled as such a list
+func applyPolicyEntry(p MetadataPolicyEntry, value any, valueSet bool, claim, pathInfo string) (any, error) {
+	if claim != "scope" {
+		return p.ApplyTo(value, valueSet, pathInfo)
+	}
+	if _, ok := p[PolicyOperatorOneOf]; !ok {
+		// one_of is about the string as a whole
+		asList := make(MetadataPolicyEntry, len(p))
+		for op, v := range p {
+			asList[op] = v
+			if str, isStr := v.(string); isStr {
+				asList[op] = strings.Fields(str)
 			}
 		}
-		if rV.IsValid() {
-			f.Set(rV)
-		} else {
-			f.SetZero()
+		p = asList
+		if str, isStr := value.(string); isStr {
+			value = strings.Fields(str)
+			if !valueSet {
+				value = nil
+			}
+		}
+	}
+	applied, err := p.ApplyTo(value, valueSet, pathInfo)
+	if err != nil {
+		return nil, err
+	}
+	if list, ok := utils.ReflectSliceCast(applied, []string{}).([]string); ok {
+		if len(list) == 0 && !valueSet {
+			return nil, nil
 		}
+		return strings.Join(list, " "), nil
 	}
+	return applied, nil
+}
 
-	return metadata, nil
+func toGenericJSON(v any) (generic any, err error) {
+	data, err := json.Marshal(v)
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	err = errors.WithStack(json.Unmarshal(data, &generic))
+	return
 }
 
 // FindEntityMetadata finds metadata for the specified entity type in the
-- 
2.43.0


From 0f45e2a8e112e8401f86671e4a11c934c0951734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 17/59] fix: enforce essential for absent list claims and
 accept explicitly set false or zero

---
 policyoperators.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/policyoperators.go b/policyoperators.go
index 882e81b..195ce9d 100644
--- a/policyoperators.go
+++ b/policyoperators.go
@@ -351,7 +351,7 @@ var policyOperatorEssential = NewPolicyOperator(
 			return value, valueSet, nil
 		}
 		if essential, eok := policyValue.(bool); eok && essential &&
-			(value == nil || (!utils.IsSlice(value) && reflect.ValueOf(value).IsZero())) {
+			isMissing(value, valueSet) {
 			return nil, valueSet, errors.Errorf("metadata value for '%s' not set but required", pathInfo)
 		}
 		return value, valueSet, nil
@@ -359,6 +359,22 @@ var policyOperatorEssential = NewPolicyOperator(
 	nil,
 )
 
+// isMissing checks if a value is missing; a bool, number, or list that was explicitly set is never missing
+func isMissing(value any, valueSet bool) bool {
+	if value == nil {
+		return true
+	}
+	v := reflect.ValueOf(value)
+	switch {
+	case v.Kind() == reflect.Slice:
+		return !valueSet && v.Len() == 0
+	case v.Kind() == reflect.Bool, v.CanInt(), v.CanUint(), v.CanFloat():
+		return !valueSet && v.IsZero()
+	default:
+		return v.IsZero()
+	}
+}
+
 func init() {
 	operators = make(map[PolicyOperatorName]PolicyOperator)
 	RegisterPolicyOperator(policyOperatorSubsetOf)
-- 
2.43.0


From 42ce32f4838d73f90430832b35a052d9e19862d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 18/59] fix: find list claims when iterating and decode known
 entity types in FindEntityMetadata

---
 metadata.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/metadata.go b/metadata.go
index 9c6b95b..82d37d2 100644
--- a/metadata.go
+++ b/metadata.go
@@ -145,9 +145,8 @@ func (m Metadata) IterateStringSliceClaim(tag string, iterator func(entityType s
 				jsonTag := subStructField.Tag.Get("json")
 				jsonTag = strings.TrimSuffix(jsonTag, ",omitempty")
 
-				if jsonTag == tag && subField.Kind() == reflect.String {
-					slice := subField.Interface().([]string)
-					if slice != nil {
+				if jsonTag == tag && subStructField.IsExported() {
+					if slice, ok := subField.Interface().([]string); ok && slice != nil {
 						iterator(entityTag, slice)
 					}
 					break
@@ -469,17 +468,17 @@ func (m *Metadata) FindEntityMetadata(entityType string, metadata any) error {
 		if j != entityType {
 			continue
 		}
-		if j == entityType {
-			fmt.Printf("found entity type %s\n", entityType)
-		}
 
 		value := v.Elem().FieldByName(t.Field(i).Name)
 		if value.IsZero() {
 			continue
 		}
 
-		metadata = value.Interface()
-		return nil
+		jsonMetadata, err := json.Marshal(value.Interface())
+		if err != nil {
+			return errors.Errorf("failed to marshal metadata: %s", err)
+		}
+		return json.Unmarshal(jsonMetadata, metadata)
 	}
 
 	// Requested entity type was not a struct field, so find it in the extra metadata.
-- 
2.43.0


From d85f4ccbcc6ce9fcaa3583f2344bcd2642174088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 19/59] fix: a null value policy conflicts with one_of and
 superset_of

---
 policyverifiers.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/policyverifiers.go b/policyverifiers.go
index c57f1dd..63cacf2 100644
--- a/policyverifiers.go
+++ b/policyverifiers.go
@@ -103,6 +103,25 @@ func policyVerifyDefaultAndValue(p MetadataPolicyEntry, pathInfo string) error {
 	return nil
 }
 
+func policyVerifyNullValue(p MetadataPolicyEntry, pathInfo string) error {
+	valueV, valueSet := p[PolicyOperatorValue]
+	if !valueSet || valueV != nil {
+		return nil
+	}
+	for _, op := range []PolicyOperatorName{
+		PolicyOperatorOneOf,
+		PolicyOperatorSupersetOf,
+	} {
+		if _, set := p[op]; set {
+			return errors.Errorf(
+				"after combining policies '%s': combining '%s' with a null '%s' policy is not allowed.", pathInfo,
+				op, PolicyOperatorValue,
+			)
+		}
+	}
+	return nil
+}
+
 func policyVerifySubsetOfAndValue(p MetadataPolicyEntry, pathInfo string) error {
 	valueV, valueSet := p[PolicyOperatorValue]
 	subsetV, subsetSet := p[PolicyOperatorSubsetOf]
@@ -247,4 +266,5 @@ func init() {
 	RegisterPolicyVerifier(policyVerifyOneOfStillHasValues)
 	RegisterPolicyVerifier(policyVerifySubsetOfAndValue)
 	RegisterPolicyVerifier(policyVerifyDefaultAndValue)
+	RegisterPolicyVerifier(policyVerifyNullValue)
 }
-- 
2.43.0


From 2aa1582c05bfa1d43a7063679244ecee20a2c5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 20/59] fix: do not verify a cached trust mark after the trust
 mark jwt was replaced

---
 trustmark.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/trustmark.go b/trustmark.go
index 5714f3d..197a7a4 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -108,7 +108,7 @@ func (tm *TrustMarkInfo) UnmarshalJSON(data []byte) error {
 
 // TrustMark returns the TrustMark for this TrustMarkInfo
 func (tm *TrustMarkInfo) TrustMark() (*TrustMark, error) {
-	if tm.trustmark == nil || tm.trustmark.jwtMsg == nil {
+	if tm.trustmark == nil || tm.trustmark.jwtMsg == nil || string(tm.trustmark.jwtMsg.RawJWT) != tm.TrustMarkJWT {
 		t, err := ParseTrustMark([]byte(tm.TrustMarkJWT))
 		if err != nil {
 			return nil, err
@@ -206,10 +206,10 @@ func parseDelegationJWT(delegationJWT []byte) (*DelegationJWT, error) {
 // Delegation returns the DelegationJWT (if any) for this TrustMark
 func (tm *TrustMark) Delegation() (*DelegationJWT, error) {
 	var err error
-	if tm.delegation == nil {
-		if tm.DelegationJWT == "" {
-			return nil, nil
-		}
+	if tm.DelegationJWT == "" {
+		return nil, nil
+	}
+	if tm.delegation == nil || string(tm.delegation.jwtMsg.RawJWT) != tm.DelegationJWT {
 		tm.delegation, err = parseDelegationJWT([]byte(tm.DelegationJWT))
 	}
 	return tm.delegation, err
-- 
2.43.0


From 01556f182f3d4a64cf65c1c4af6c8ee215c027e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:52 +0000
Subject: [PATCH 21/59] fix: do not panic if a trust mark issuer publishes no
 keys

---
 trustmark.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustmark.go b/trustmark.go
index 197a7a4..c1ec84b 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -249,7 +249,7 @@ func getTrustMarkIssuerJWKS(
 		err = errors.Wrap(err, "error while parsing trust mark issuer entity statement")
 		return
 	}
-	if tmi == nil || tmi.JWKS.Len() == 0 {
+	if tmi == nil || tmi.JWKS.Set == nil || tmi.JWKS.Len() == 0 {
 		err = errors.New("no jwks found for trust mark issuer")
 		return
 	}
-- 
2.43.0


From 3c1e819e21273dc5dd927b8c92847258bf833fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 22/59] fix: verify in the federation that a delegation is
 issued by the trust mark owner

---
 trustmark.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trustmark.go b/trustmark.go
index c1ec84b..5894230 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -357,6 +357,9 @@ func (djwt DelegationJWT) VerifyFederation(ta *EntityStatementPayload) error {
 	if !ok {
 		return errors.New("verify delegation jwt: unknown trust mark owner")
 	}
+	if djwt.Issuer != owner.ID {
+		return errors.New("verify delegation jwt: not issued by trust mark owner")
+	}
 	_, err := djwt.jwtMsg.VerifyWithSet(owner.JWKS)
 	return errors.Wrap(err, "verify delegation jwt")
 }
-- 
2.43.0


From 661991d11c53ef6112c0e8c9b0156b6e514fa208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 23/59] fix: apply a custom lifetime to delegations without a
 default lifetime

---
 trustmark.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustmark.go b/trustmark.go
index 5894230..78a8ed2 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -566,7 +566,7 @@ func (tmo TrustMarkOwner) DelegationJWT(trustMarkType, sub string, lifetime ...t
 	if len(lifetime) > 0 {
 		lf = lifetime[0]
 	}
-	if spec.DelegationLifetime != 0 {
+	if lf != 0 {
 		delegation.ExpiresAt = &unixtime.Unixtime{Time: now.Add(lf)}
 	}
 	return tmo.TrustMarkDelegationSigner.JWT(delegation)
-- 
2.43.0


From 6eaec1ecd1467cb74e0dc326aa5e9492da780a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 24/59] fix: only consider trust marks that are about the
 entity that publishes them

---
 discovery.go         | 12 ++++++++----
 metadata_resolver.go |  2 +-
 trustmark.go         | 10 ++++++++++
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/discovery.go b/discovery.go
index 4554f91..a9ecaf1 100644
--- a/discovery.go
+++ b/discovery.go
@@ -318,8 +318,12 @@ func (d *SimpleEntityCollector) collect(
 							}
 
 							for _, trustMarkType := range req.TrustMarkTypes {
-								trustMarkInfo := entityConfig.TrustMarks.FindByID(trustMarkType)
-								if trustMarkInfo == nil {
+								trustMarkInfos := slices.DeleteFunc(
+									entityConfig.TrustMarks.issuedTo(subordinateID), func(info TrustMarkInfo) bool {
+										return info.TrustMarkType != trustMarkType
+									},
+								)
+								if len(trustMarkInfos) == 0 {
 									includeEntity = false
 									break
 								}
@@ -328,7 +332,7 @@ func (d *SimpleEntityCollector) collect(
 										ta, taErr = GetEntityConfiguration(req.TrustAnchor)
 									},
 								)
-								if taErr != nil || trustMarkInfo.VerifyFederation(&ta.EntityStatementPayload) != nil {
+								if taErr != nil || len(trustMarkInfos.VerifiedFederation(&ta.EntityStatementPayload)) == 0 {
 									includeEntity = false
 									break
 								}
@@ -426,7 +430,7 @@ func (d *SimpleEntityCollector) collect(
 										},
 									)
 									if taErr == nil {
-										collectedEntity.TrustMarks = entityConfig.TrustMarks.VerifiedFederation(&ta.EntityStatementPayload)
+										collectedEntity.TrustMarks = entityConfig.TrustMarks.issuedTo(subordinateID).VerifiedFederation(&ta.EntityStatementPayload)
 									}
 								}
 
diff --git a/metadata_resolver.go b/metadata_resolver.go
index 6cac3b0..9a33696 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -76,7 +76,7 @@ func (r LocalMetadataResolver) ResolveResponsePayload(req apimodel.ResolveReques
 	if err != nil {
 		return
 	}
-	res.TrustMarks = chain[0].TrustMarks.VerifiedFederation(&chain[len(chain)-1].EntityStatementPayload)
+	res.TrustMarks = chain[0].TrustMarks.issuedTo(chain[0].Subject).VerifiedFederation(&chain[len(chain)-1].EntityStatementPayload)
 	return
 }
 
diff --git a/trustmark.go b/trustmark.go
index 78a8ed2..05542c0 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -42,6 +42,16 @@ func (tms TrustMarkInfos) VerifiedExternal(
 	return
 }
 
+// issuedTo returns the TrustMarkInfos whose trust mark is about the passed subject
+func (tms TrustMarkInfos) issuedTo(sub string) (own TrustMarkInfos) {
+	for _, tm := range tms {
+		if mark, err := tm.TrustMark(); err == nil && mark.Subject == sub {
+			own = append(own, tm)
+		}
+	}
+	return
+}
+
 // Find uses the passed function to find the first matching TrustMarkInfo
 func (tms TrustMarkInfos) Find(matcher func(info TrustMarkInfo) bool) *TrustMarkInfo {
 	for _, tm := range tms {
-- 
2.43.0


From c6ff3bfe293832beadd9337ae4a4acdd21a26ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 25/59] fix: read the claims of a configured trust mark jwt
 without a key

---
 internal/jwx/jws.go    | 2 +-
 trustmark_refresher.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/jwx/jws.go b/internal/jwx/jws.go
index e67a972..915593c 100644
--- a/internal/jwx/jws.go
+++ b/internal/jwx/jws.go
@@ -102,7 +102,7 @@ func SignPayload(payload []byte, signingAlg jwa.SignatureAlgorithm, key crypto.S
 
 // GetExp returns the expiration of a jwt
 func GetExp(bytes []byte) (exp unixtime.Unixtime, err error) {
-	parsed, err := jwt.Parse(bytes)
+	parsed, err := jwt.ParseInsecure(bytes)
 	if err != nil {
 		err = errors.WithStack(err)
 		return
diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index e33741e..22c80ef 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -45,7 +45,7 @@ func (c *EntityConfigurationTrustMarkConfig) Verify(
 	}
 
 	if c.JWT != "" {
-		parsed, err := jwt.Parse([]byte(c.JWT))
+		parsed, err := jwt.ParseInsecure([]byte(c.JWT))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 607d5e156ad225913621a7c7226e87e23231aaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 26/59] fix: keep trust marks that do not expire

---
 trustmark_refresher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index 22c80ef..b5ab7d9 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -84,6 +84,10 @@ func (c *EntityConfigurationTrustMarkConfig) TrustMarkJWT() (string, error) {
 	if !c.Refresh {
 		return c.JWT, nil
 	}
+	if c.JWT != "" && c.expiration.IsZero() {
+		// the trust mark does not expire
+		return c.JWT, nil
+	}
 	if c.JWT != "" && unixtime.Until(c.expiration) > c.MinLifetime.Duration {
 		if unixtime.Until(c.expiration) < c.RefreshGracePeriod.Duration {
 			go c.refresh()
-- 
2.43.0


From 1d970681d165794e2220455f53b14d635a478d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 27/59] fix: synchronize the refresh of trust marks

---
 trustmark_refresher.go | 67 +++++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 24 deletions(-)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index b5ab7d9..bf64b0f 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -2,6 +2,7 @@ package oidfed
 
 import (
 	"net/url"
+	"sync"
 	"time"
 
 	"github.com/lestrrat-go/jwx/v3/jwt"
@@ -28,6 +29,8 @@ type EntityConfigurationTrustMarkConfig struct {
 	sub                  string
 	ownTrustMarkEndpoint string
 	ownTrustMarkIssuer   *TrustMarkIssuer
+	mu                   sync.RWMutex // guards JWT and expiration
+	refreshMu            sync.Mutex   // held while refreshing; guards lastTried
 }
 
 // Verify verifies that the EntityConfigurationTrustMarkConfig is correct and also extracts trust mark id and issuer
@@ -78,27 +81,54 @@ func (c *EntityConfigurationTrustMarkConfig) Verify(
 	return nil
 }
 
+// current returns the current trust mark jwt and its remaining lifetime
+func (c *EntityConfigurationTrustMarkConfig) current() (jwt string, expires bool, left time.Duration) {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+	return c.JWT, !c.expiration.IsZero(), unixtime.Until(c.expiration)
+}
+
+// set sets the current trust mark jwt and its expiration
+func (c *EntityConfigurationTrustMarkConfig) set(jwt string, exp *unixtime.Unixtime) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.JWT = jwt
+	c.expiration = unixtime.Unixtime{}
+	if exp != nil {
+		c.expiration = *exp
+	}
+}
+
 // TrustMarkJWT returns a trust mark jwt for the linked trust mark,
 // if needed the trust mark is refreshed using the trust mark issuer's trust mark endpoint
 func (c *EntityConfigurationTrustMarkConfig) TrustMarkJWT() (string, error) {
+	current, expires, left := c.current()
 	if !c.Refresh {
-		return c.JWT, nil
+		return current, nil
 	}
-	if c.JWT != "" && c.expiration.IsZero() {
-		// the trust mark does not expire
-		return c.JWT, nil
-	}
-	if c.JWT != "" && unixtime.Until(c.expiration) > c.MinLifetime.Duration {
-		if unixtime.Until(c.expiration) < c.RefreshGracePeriod.Duration {
-			go c.refresh()
+	if current != "" && (!expires || left > c.MinLifetime.Duration) {
+		if expires && left < c.RefreshGracePeriod.Duration {
+			if c.refreshMu.TryLock() {
+				go func() {
+					defer c.refreshMu.Unlock()
+					c.refresh()
+				}()
+			}
 		}
-		return c.JWT, nil
+		return current, nil
+	}
+	c.refreshMu.Lock()
+	defer c.refreshMu.Unlock()
+	if now, _, _ := c.current(); now != current {
+		// refreshed in the meantime
+		return now, nil
 	}
 	err := c.refresh()
-	return c.JWT, err
+	current, _, _ = c.current()
+	return current, err
 }
 
-// refresh refreshes the trust mark at the trust mark issuer's trust mark endpoint
+// refresh refreshes the trust mark at the trust mark issuer's trust mark endpoint; the caller must hold refreshMu
 func (c *EntityConfigurationTrustMarkConfig) refresh() error {
 	if time.Since(c.lastTried.Time) < time.Minute {
 		// Only try once a minute to obtain a new trust mark
@@ -110,13 +140,7 @@ func (c *EntityConfigurationTrustMarkConfig) refresh() error {
 		if err != nil {
 			return err
 		}
-		c.JWT = tmi.TrustMarkJWT
-		exp := tmi.trustmark.ExpiresAt
-		if exp != nil {
-			c.expiration = *exp
-		} else {
-			c.expiration = unixtime.Unixtime{}
-		}
+		c.set(tmi.TrustMarkJWT, tmi.trustmark.ExpiresAt)
 		return nil
 	}
 
@@ -148,11 +172,6 @@ func (c *EntityConfigurationTrustMarkConfig) refresh() error {
 	if err != nil {
 		return err
 	}
-	c.JWT = string(tm.jwtMsg.RawJWT)
-	if tm.ExpiresAt != nil {
-		c.expiration = *tm.ExpiresAt
-	} else {
-		c.expiration = unixtime.Unixtime{}
-	}
+	c.set(string(tm.jwtMsg.RawJWT), tm.ExpiresAt)
 	return nil
 }
-- 
2.43.0


From 8de3102b4ae058647d4bf3ab6020450a97b02717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:07 +0000
Subject: [PATCH 28/59] fix: do not replace entries of the internal cache while
 they are read

---
 cache/cache.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 635d577..f314138 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -3,6 +3,7 @@ package cache
 import (
 	"encoding/base64"
 	"log"
+	"sync"
 	"time"
 
 	"github.com/TwiN/gocache/v2"
@@ -22,6 +23,8 @@ type Cache interface {
 // internal cache
 type cacheWrapper struct {
 	c *gocache.Cache
+	// mu assures that an entry is not replaced while it is read
+	mu *sync.RWMutex
 }
 
 func newCacheWrapper(defaultExpiration time.Duration) cacheWrapper {
@@ -30,13 +33,16 @@ func newCacheWrapper(defaultExpiration time.Duration) cacheWrapper {
 		log.Fatal(err) // skipcq: RVV-A0003
 	}
 	return cacheWrapper{
-		c,
+		c:  c,
+		mu: &sync.RWMutex{},
 	}
 }
 
 // Get implements the Cache interface
 func (c cacheWrapper) Get(key string, target any) (bool, error) {
+	c.mu.RLock()
 	entryV, ok := c.c.Get(key)
+	c.mu.RUnlock()
 	if !ok {
 		return false, nil
 	}
@@ -54,6 +60,8 @@ func (c cacheWrapper) Set(key string, value any, expiration time.Duration) error
 	if err != nil {
 		return err
 	}
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.c.SetWithTTL(key, data, expiration)
 	return nil
 }
-- 
2.43.0


From 7206b5e16bf5a47e4021633aea13d02097cc9856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 29/59] fix: collect entities without sharing the set of
 visited entities unsynchronized

---
 discovery.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/discovery.go b/discovery.go
index a9ecaf1..6603067 100644
--- a/discovery.go
+++ b/discovery.go
@@ -163,8 +163,24 @@ type EntityCollector interface {
 
 // SimpleEntityCollector is an EntityCollector that collects entities in a
 // federation
-type SimpleEntityCollector struct {
-	visitedEntities *strset.Set
+type SimpleEntityCollector struct{}
+
+// visitedEntities is the set of entities whose subordinates are (being)
+// collected; it can be used concurrently
+type visitedEntities struct {
+	mu  sync.Mutex
+	ids *strset.Set
+}
+
+// visit marks an entity as visited; it returns false if it already was
+func (v *visitedEntities) visit(entityID string) bool {
+	v.mu.Lock()
+	defer v.mu.Unlock()
+	if v.ids.Has(entityID) {
+		return false
+	}
+	v.ids.Add(entityID)
+	return true
 }
 
 // SimpleOPCollector is an EntityCollector that uses the
@@ -218,14 +234,14 @@ type FilterableVerifiedChainsEntityCollector struct {
 
 // CollectEntities implements the EntityCollector interface
 func (d *SimpleEntityCollector) CollectEntities(req apimodel.EntityCollectionRequest) (entities []*CollectedEntity) {
-	d.visitedEntities = strset.New()
-	return d.collect(req, NewTrustAnchorsFromEntityIDs(req.TrustAnchor)...)
+	visited := &visitedEntities{ids: strset.New()}
+	return d.collect(req, visited, NewTrustAnchorsFromEntityIDs(req.TrustAnchor)...)
 }
 
 const maxCollectWorkers = 128
 
 func (d *SimpleEntityCollector) collect(
-	req apimodel.EntityCollectionRequest, authorities ...TrustAnchor,
+	req apimodel.EntityCollectionRequest, visited *visitedEntities, authorities ...TrustAnchor,
 ) (entities []*CollectedEntity) {
 	internal.Logf("Discovering Entities for authorities: %+q", authorities)
 
@@ -269,11 +285,10 @@ func (d *SimpleEntityCollector) collect(
 	for _, authority := range authorities {
 		run(
 			func() {
-				if d.visitedEntities.Has(authority.EntityID) {
+				if !visited.visit(authority.EntityID) {
 					internal.Logf("Already visited: %s -> skipping", authority.EntityID)
 					return
 				}
-				d.visitedEntities.Add(authority.EntityID)
 
 				stmt, err := GetEntityConfiguration(authority.EntityID)
 				if err != nil {
@@ -439,7 +454,7 @@ func (d *SimpleEntityCollector) collect(
 
 							if entityConfig.Metadata.FederationEntity != nil &&
 								entityConfig.Metadata.FederationEntity.FederationListEndpoint != "" {
-								nested := d.collect(req, NewTrustAnchorsFromEntityIDs(subordinateID)...)
+								nested := d.collect(req, visited, NewTrustAnchorsFromEntityIDs(subordinateID)...)
 								for _, nestedEntity := range nested {
 									entityChan <- nestedEntity
 								}
-- 
2.43.0


From 8cfe742ae0ca16d75e721eb228fc84a1ff29189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:59 +0000
Subject: [PATCH 30/59] fix: set the fields of ui infos

---
 discovery.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discovery.go b/discovery.go
index 6603067..c303263 100644
--- a/discovery.go
+++ b/discovery.go
@@ -76,7 +76,7 @@ func (e *CollectedEntity) setUIInfoField(
 		structField := uiInfoType.Field(i)
 		tag := structField.Tag.Get("json")
 		tagName := tag
-		if commaIdx := len(tag); commaIdx != -1 {
+		if commaIdx := strings.IndexByte(tag, ','); commaIdx != -1 {
 			tagName = tag[:commaIdx]
 		}
 
-- 
2.43.0


From 088b066a7832815a8e2d2f60bdd34855753a71e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 31/59] fix: send the name query to remote entity collectors
 with its parameter name

---
 apimodel/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apimodel/collection.go b/apimodel/collection.go
index 40614c6..73b6d93 100644
--- a/apimodel/collection.go
+++ b/apimodel/collection.go
@@ -7,6 +7,6 @@ type EntityCollectionRequest struct {
 	TrustMarkTypes []string `json:"trust_mark_type" form:"trust_mark_type" query:"trust_mark_type" url:"trust_mark_type"`
 	TrustAnchor    string   `json:"trust_anchor" form:"trust_anchor" query:"trust_anchor" url:"trust_anchor"`
 	EntityTypes    []string `json:"entity_type" form:"entity_type" query:"entity_type" url:"entity_type"`
-	NameQuery      string   `json:"name_query" form:"name_query" query:"name_query"`
+	NameQuery      string   `json:"name_query" form:"name_query" query:"name_query" url:"name_query"`
 	Claims         []string `json:"claims" form:"claims" query:"claims" url:"claims"`
 }
-- 
2.43.0


From 01aff719ce44cc989995ba0e7e4427315b67c4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 32/59] fix: treat every http error response as an error

---
 internal/http/http.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/internal/http/http.go b/internal/http/http.go
index 8d3c404..932894e 100644
--- a/internal/http/http.go
+++ b/internal/http/http.go
@@ -2,6 +2,7 @@ package http
 
 import (
 	"fmt"
+	"net/http"
 	"net/url"
 	"time"
 
@@ -37,6 +38,22 @@ func (e *HttpError) Err() error {
 
 }
 
+// errorResponse returns an HttpError if the response is an error response, also if the server does not describe the error
+func errorResponse(resp *resty.Response) *HttpError {
+	if !resp.IsError() {
+		return nil
+	}
+	errRes, ok := resp.Error().(*HttpError)
+	if !ok || errRes == nil {
+		errRes = &HttpError{}
+	}
+	if errRes.Error == "" {
+		errRes.Error = http.StatusText(resp.StatusCode())
+	}
+	errRes.Status = resp.StatusCode()
+	return errRes
+}
+
 // Do returns the client, so it can be used to do requests
 func Do() *resty.Client {
 	return client
@@ -48,8 +65,7 @@ func Get(url string, params url.Values, res interface{}) (*resty.Response, *Http
 	if err != nil {
 		return nil, nil, errors.WithStack(err)
 	}
-	if errRes, ok := resp.Error().(*HttpError); ok && errRes != nil && errRes.Error != "" {
-		errRes.Status = resp.RawResponse.StatusCode
+	if errRes := errorResponse(resp); errRes != nil {
 		return nil, errRes, nil
 	}
 	return resp, nil, nil
@@ -61,8 +77,7 @@ func Post(url string, req interface{}, res interface{}) (*resty.Response, *HttpE
 	if err != nil {
 		return nil, nil, errors.WithStack(err)
 	}
-	if errRes, ok := resp.Error().(*HttpError); ok && errRes != nil && errRes.Error != "" {
-		errRes.Status = resp.RawResponse.StatusCode
+	if errRes := errorResponse(resp); errRes != nil {
 		return nil, errRes, nil
 	}
 	return resp, nil, nil
-- 
2.43.0


From d2d6a9373a4302109316ab3f83eff0d6edc2588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:46 +0000
Subject: [PATCH 33/59] fix: keep the iss, sub, iat, exp and aud claims of
 resolve responses

---
 trustresolver.go | 65 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 54 insertions(+), 11 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 7d2b9d8..8f667bc 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -2,11 +2,14 @@ package oidfed
 
 import (
 	"encoding/json"
+	"maps"
 	"net/url"
 	"slices"
 	"strings"
 	"time"
 
+	"github.com/fatih/structs"
+	"github.com/pkg/errors"
 	"github.com/scylladb/go-set/strset"
 	"github.com/vmihailenco/msgpack/v5"
 	"golang.org/x/crypto/sha3"
@@ -47,6 +50,16 @@ type ResolveResponse struct {
 	ResolveResponsePayload `json:",inline"`
 }
 
+// resolveResponseClaims are the claims of a ResolveResponse that are not part of
+// the ResolveResponsePayload
+type resolveResponseClaims struct {
+	Issuer    string            `json:"iss"`
+	Subject   string            `json:"sub"`
+	IssuedAt  unixtime.Unixtime `json:"iat"`
+	ExpiresAt unixtime.Unixtime `json:"exp"`
+	Audience  string            `json:"aud,omitempty"`
+}
+
 // MarshalJSON implements the json.Marshaler interface.
 // It also marshals extra fields.
 func (r ResolveResponse) MarshalJSON() ([]byte, error) {
@@ -54,15 +67,12 @@ func (r ResolveResponse) MarshalJSON() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	type additionalData struct {
-		Issuer    string            `json:"iss"`
-		Subject   string            `json:"sub"`
-		IssuedAt  unixtime.Unixtime `json:"iat"`
-		ExpiresAt unixtime.Unixtime `json:"exp"`
-		Audience  string            `json:"aud,omitempty"`
+	var payloadClaims map[string]json.RawMessage
+	if err = json.Unmarshal(payload, &payloadClaims); err != nil {
+		return nil, errors.WithStack(err)
 	}
-	additional, err := json.Marshal(
-		additionalData{
+	claims, err := json.Marshal(
+		resolveResponseClaims{
 			Issuer:    r.Issuer,
 			Subject:   r.Subject,
 			IssuedAt:  r.IssuedAt,
@@ -71,10 +81,43 @@ func (r ResolveResponse) MarshalJSON() ([]byte, error) {
 		},
 	)
 	if err != nil {
-		return nil, err
+		return nil, errors.WithStack(err)
+	}
+	var all map[string]json.RawMessage
+	if err = json.Unmarshal(claims, &all); err != nil {
+		return nil, errors.WithStack(err)
 	}
-	additional[0] = ','
-	return extraMarshalHelper(append(payload[:len(payload)-1], additional...), r.Extra)
+	maps.Copy(all, payloadClaims)
+	data, err := json.Marshal(all)
+	return data, errors.WithStack(err)
+}
+
+// UnmarshalJSON implements the json.Unmarshaler interface.
+// It also unmarshalls additional fields into the Extra claim.
+func (r *ResolveResponse) UnmarshalJSON(data []byte) error {
+	var payload ResolveResponsePayload
+	if err := json.Unmarshal(data, &payload); err != nil {
+		return err
+	}
+	var claims resolveResponseClaims
+	if err := json.Unmarshal(data, &claims); err != nil {
+		return errors.WithStack(err)
+	}
+	for _, tag := range utils.FieldTagNames(structs.New(claims).Fields(), "json") {
+		delete(payload.Extra, tag)
+	}
+	if len(payload.Extra) == 0 {
+		payload.Extra = nil
+	}
+	*r = ResolveResponse{
+		Issuer:                 claims.Issuer,
+		Subject:                claims.Subject,
+		IssuedAt:               claims.IssuedAt,
+		ExpiresAt:              claims.ExpiresAt,
+		Audience:               claims.Audience,
+		ResolveResponsePayload: payload,
+	}
+	return nil
 }
 
 // ResolveResponsePayload holds the actual payload of a resolve response
-- 
2.43.0


From 92f099bcd50d6083de243cb09941c1beebe1b3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 34/59] fix: only accept resolve responses that are valid and
 about the requested subject

---
 metadata_resolver.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/metadata_resolver.go b/metadata_resolver.go
index 9a33696..045e445 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -11,6 +11,7 @@ import (
 	"github.com/go-oidfed/lib/internal/http"
 	"github.com/go-oidfed/lib/internal/jwx"
 	"github.com/go-oidfed/lib/oidfedconst"
+	"github.com/go-oidfed/lib/unixtime"
 )
 
 // MetadataResolver is type for resolving the metadata from a StartingEntity to
@@ -132,9 +133,26 @@ func (r SimpleRemoteMetadataResolver) ResolveResponse(req apimodel.ResolveReques
 		}
 		return nil, resolveStatus, nil
 	}
-	resolveStatus = resolveStatusValid
-	rres, err := ParseResolveResponse(res.Body())
-	return rres, resolveStatus, err
+	rres, err := r.parseResponse(res.Body(), req.Subject)
+	if err != nil {
+		return nil, resolveStatusUnknown, err
+	}
+	return rres, resolveStatusValid, nil
+}
+
+// parseResponse parses a response and verifies that it is an acceptable response for the passed subject
+func (r SimpleRemoteMetadataResolver) parseResponse(body []byte, subject string) (*ResolveResponse, error) {
+	res, err := ParseResolveResponse(body)
+	if err != nil {
+		return nil, err
+	}
+	if res.Subject != subject {
+		return nil, errors.Errorf("resolve response is about '%s' instead of '%s'", res.Subject, subject)
+	}
+	if err = unixtime.VerifyTime(&res.IssuedAt, &res.ExpiresAt); err != nil {
+		return nil, err
+	}
+	return res, nil
 }
 
 // Resolve implements the MetadataResolver interface
@@ -168,7 +186,7 @@ func (r SimpleRemoteMetadataResolver) ResolvePossible(req apimodel.ResolveReques
 	_, resStatus, err := r.ResolveResponse(req)
 	if err != nil {
 		internal.Log(err.Error())
-		return false, true
+		return false, false
 	}
 	switch resStatus {
 	case resolveStatusValid, resolveStatusOnlyValidTrustChain:
-- 
2.43.0


From 122ebdffb4d5b8adcbea65da66886d9684a5a54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 35/59] fix: verify the signature of a trust anchor's resolve
 responses

---
 metadata_resolver.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/metadata_resolver.go b/metadata_resolver.go
index 045e445..4dedc34 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -10,6 +10,7 @@ import (
 	"github.com/go-oidfed/lib/internal"
 	"github.com/go-oidfed/lib/internal/http"
 	"github.com/go-oidfed/lib/internal/jwx"
+	"github.com/go-oidfed/lib/jwks"
 	"github.com/go-oidfed/lib/oidfedconst"
 	"github.com/go-oidfed/lib/unixtime"
 )
@@ -97,6 +98,8 @@ func (LocalMetadataResolver) ResolvePossible(req apimodel.ResolveRequest) (bool,
 // ResolveEndpoint
 type SimpleRemoteMetadataResolver struct {
 	ResolveEndpoint string
+	// JWKS are the keys of the resolver; if set, responses must be signed by one of them
+	JWKS jwks.JWKS
 }
 
 const (
@@ -146,6 +149,15 @@ func (r SimpleRemoteMetadataResolver) parseResponse(body []byte, subject string)
 	if err != nil {
 		return nil, err
 	}
+	if r.JWKS.Set != nil {
+		parsed, err := jwx.Parse(body)
+		if err != nil {
+			return nil, err
+		}
+		if _, err = parsed.VerifyWithSet(r.JWKS); err != nil {
+			return nil, errors.Wrap(err, "could not verify the signature of the resolve response")
+		}
+	}
 	if res.Subject != subject {
 		return nil, errors.Errorf("resolve response is about '%s' instead of '%s'", res.Subject, subject)
 	}
@@ -248,6 +260,7 @@ func (SmartRemoteMetadataResolver) ResolveResponsePayload(req apimodel.ResolveRe
 		}
 		remoteResolver := SimpleRemoteMetadataResolver{
 			ResolveEndpoint: resolveEndpoint,
+			JWKS:            entityConfig.JWKS,
 		}
 		res, err := remoteResolver.ResolveResponsePayload(req)
 		if err != nil {
@@ -276,6 +289,7 @@ func (SmartRemoteMetadataResolver) ResolvePossible(req apimodel.ResolveRequest)
 		}
 		remoteResolver := SimpleRemoteMetadataResolver{
 			ResolveEndpoint: resolveEndpoint,
+			JWKS:            entityConfig.JWKS,
 		}
 		validConfirmed, invalidConfirmed := remoteResolver.ResolvePossible(req)
 		if validConfirmed {
-- 
2.43.0


From de10147f2240b12d083b57704b7ccdf95f750de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:06 +0000
Subject: [PATCH 36/59] fix: yaml encoding of trust mark specs

---
 entitystatement.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/entitystatement.go b/entitystatement.go
index 99dda60..7df04cb 100644
--- a/entitystatement.go
+++ b/entitystatement.go
@@ -109,12 +109,12 @@ func extraMarshalHelper(explicitFields []byte, extra map[string]interface{}) ([]
 }
 
 func yamlExtraMarshalHelper(explicitFields []byte, extra map[string]interface{}) (any, error) {
-	var m map[string]*yaml.Node
+	var m map[string]yaml.Node
 	if err := yaml.Unmarshal(explicitFields, &m); err != nil {
 		return nil, err
 	}
 	for k, v := range extra {
-		node := &yaml.Node{}
+		var node yaml.Node
 		if err := node.Encode(v); err != nil {
 			return nil, errors.WithStack(err)
 		}
-- 
2.43.0


From a5743fbfb692f4412ff4f686b80ed32dfe97b573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 37/59] fix: keep extra claims of entity collection responses

---
 discovery.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/discovery.go b/discovery.go
index c303263..aec36e2 100644
--- a/discovery.go
+++ b/discovery.go
@@ -107,6 +107,30 @@ func (e *CollectedEntity) setUIInfoField(
 	return nil
 }
 
+// MarshalJSON implements the json.Marshaler interface
+func (r EntityCollectionResponse) MarshalJSON() ([]byte, error) {
+	type Alias EntityCollectionResponse
+	explicitFields, err := json.Marshal(Alias(r))
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	return extraMarshalHelper(explicitFields, r.Extra)
+}
+
+// UnmarshalJSON implements the json.Unmarshaler interface
+func (r *EntityCollectionResponse) UnmarshalJSON(data []byte) error {
+	type Alias EntityCollectionResponse
+	rr := Alias(*r)
+
+	extra, err := unmarshalWithExtra(data, &rr)
+	if err != nil {
+		return errors.WithStack(err)
+	}
+	rr.Extra = extra
+	*r = EntityCollectionResponse(rr)
+	return nil
+}
+
 // MarshalJSON implements the json.Marshaler interface
 func (e CollectedEntity) MarshalJSON() ([]byte, error) {
 	type Alias CollectedEntity
-- 
2.43.0


From 9725d96e1dbd70af2d63e2364b135159262784d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:46 +0000
Subject: [PATCH 38/59] fix: a json null is not a single value

---
 sliceorsinglevalue.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sliceorsinglevalue.go b/sliceorsinglevalue.go
index 92501fa..04fc8ca 100644
--- a/sliceorsinglevalue.go
+++ b/sliceorsinglevalue.go
@@ -1,6 +1,7 @@
 package oidfed
 
 import (
+	"bytes"
 	"encoding/json"
 
 	"gopkg.in/yaml.v3"
@@ -12,6 +13,10 @@ type SliceOrSingleValue[T any] []T
 
 // UnmarshalJSON implements the json.Unmarshaler interface
 func (v *SliceOrSingleValue[T]) UnmarshalJSON(data []byte) error {
+	if bytes.Equal(data, []byte("null")) {
+		*v = nil
+		return nil
+	}
 	var t T
 	if json.Unmarshal(data, &t) == nil {
 		*v = []T{t}
-- 
2.43.0


From d98558290be1f4ae101188661522d20cf4b3e4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:50 +0000
Subject: [PATCH 39/59] fix: keep constraints that are empty lists

---
 entitystatement.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/entitystatement.go b/entitystatement.go
index 7df04cb..fe6c393 100644
--- a/entitystatement.go
+++ b/entitystatement.go
@@ -208,6 +208,36 @@ type NamingConstraints struct {
 	Excluded  []string `json:"excluded,omitempty"`
 }
 
+// MarshalJSON implements the json.Marshaler interface.
+// An empty list of allowed entity types is a constraint and not the same as a missing one.
+func (c ConstraintSpecification) MarshalJSON() ([]byte, error) {
+	type Alias ConstraintSpecification
+	a := struct {
+		Alias
+		AllowedEntityTypes *[]string `json:"allowed_entity_types,omitempty"`
+	}{Alias: Alias(c)}
+	if c.AllowedEntityTypes != nil {
+		a.AllowedEntityTypes = &c.AllowedEntityTypes
+	}
+	data, err := json.Marshal(a)
+	return data, errors.WithStack(err)
+}
+
+// MarshalJSON implements the json.Marshaler interface.
+// An empty list of permitted names is a constraint and not the same as a missing one.
+func (c NamingConstraints) MarshalJSON() ([]byte, error) {
+	type Alias NamingConstraints
+	a := struct {
+		Alias
+		Permitted *[]string `json:"permitted,omitempty"`
+	}{Alias: Alias(c)}
+	if c.Permitted != nil {
+		a.Permitted = &c.Permitted
+	}
+	data, err := json.Marshal(a)
+	return data, errors.WithStack(err)
+}
+
 // AllowedTrustMarkIssuers is type for defining which TrustMark can be issued by which entities
 type AllowedTrustMarkIssuers map[string][]string
 
-- 
2.43.0


From fcdeb6d1e5339b277946d587d0fab4b9232182d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:26 +0000
Subject: [PATCH 40/59] fix: times that do not fit into an int64

---
 unixtime/unixtime.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/unixtime/unixtime.go b/unixtime/unixtime.go
index 8011d4a..79c61cc 100644
--- a/unixtime/unixtime.go
+++ b/unixtime/unixtime.go
@@ -14,6 +14,10 @@ type Unixtime struct {
 	time.Time
 }
 
+// maxSeconds is a number of seconds since the epoch that can be represented by a time.Time; later (and accordingly
+// earlier) times are treated as this one
+const maxSeconds = math.MaxInt64 - 1<<36
+
 // UnmarshalJSON implements the json.Unmarshaler interface.
 func (u *Unixtime) UnmarshalJSON(src []byte) error {
 	var f float64
@@ -21,7 +25,14 @@ func (u *Unixtime) UnmarshalJSON(src []byte) error {
 		return err
 	}
 	sec, dec := math.Modf(f)
-	u.Time = time.Unix(int64(sec), int64(dec*(1e9)))
+	switch {
+	case sec >= maxSeconds:
+		u.Time = time.Unix(maxSeconds, 0)
+	case sec <= -maxSeconds:
+		u.Time = time.Unix(-maxSeconds, 0)
+	default:
+		u.Time = time.Unix(int64(sec), int64(dec*(1e9)))
+	}
 	return nil
 }
 
@@ -30,7 +41,7 @@ func (u Unixtime) MarshalJSON() ([]byte, error) {
 	if u.IsZero() {
 		return json.Marshal(0)
 	}
-	return json.Marshal(float64(u.UnixNano()) / 1e9)
+	return json.Marshal(float64(u.Unix()) + float64(u.Nanosecond())/1e9)
 }
 
 // Until returns the time.Duration from now until an Unixtime
-- 
2.43.0


From cec4f8df0c22a0ed1b123bcd23743a8d7d99c199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 41/59] fix: keep fractions of durations and do not overflow

---
 unixtime/unixtime.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/unixtime/unixtime.go b/unixtime/unixtime.go
index 79c61cc..c2334ce 100644
--- a/unixtime/unixtime.go
+++ b/unixtime/unixtime.go
@@ -61,9 +61,18 @@ func VerifyTime(iat, exp *Unixtime) error {
 	return nil
 }
 
-// NewDurationInSeconds returns a DurationInSeconds from a number of seconds
+// NewDurationInSeconds returns a DurationInSeconds from a number of seconds; it is limited to what a time.Duration can
+// represent
 func NewDurationInSeconds(seconds float64) DurationInSeconds {
-	return DurationInSeconds{time.Duration(seconds * float64(time.Second))}
+	nanoseconds := math.Round(seconds * float64(time.Second))
+	switch {
+	case nanoseconds >= math.MaxInt64:
+		return DurationInSeconds{math.MaxInt64}
+	case nanoseconds <= math.MinInt64:
+		return DurationInSeconds{math.MinInt64}
+	default:
+		return DurationInSeconds{time.Duration(nanoseconds)}
+	}
 }
 
 // DurationInSeconds is a type for handling time.Duration expressed in seconds
@@ -77,7 +86,7 @@ func (d *DurationInSeconds) UnmarshalJSON(src []byte) error {
 	if err := json.Unmarshal(src, &f); err != nil {
 		return err
 	}
-	*d = DurationInSeconds{time.Duration(f) * time.Second}
+	*d = NewDurationInSeconds(f)
 	return nil
 }
 
@@ -87,7 +96,7 @@ func (d *DurationInSeconds) UnmarshalYAML(value *yaml.Node) error {
 	if err := value.Decode(&f); err != nil {
 		return err
 	}
-	*d = DurationInSeconds{time.Duration(f) * time.Second}
+	*d = NewDurationInSeconds(f)
 	return nil
 }
 
-- 
2.43.0


From 0632e72a1a22fa111c16eb04931b1a53fddef8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:20 +0000
Subject: [PATCH 42/59] fix: do not modify the passed request values and
 parameters

Reusing the request values for a second request object gave it the jti of the first one.
---
 authcode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/authcode.go b/authcode.go
index 85eb3db..3a4cc3e 100644
--- a/authcode.go
+++ b/authcode.go
@@ -4,6 +4,7 @@ import (
 	"crypto"
 	"encoding/json"
 	"io"
+	"maps"
 	"net/http"
 	"net/url"
 	"time"
@@ -74,6 +75,8 @@ func (rop RequestObjectProducer) RequestObject(requestValues map[string]any) ([]
 	if _, audFound := requestValues["aud"]; !audFound {
 		return nil, errors.New("request must contain 'aud' claim with OPs issuer identifier url")
 	}
+	// do not modify the passed map, i.e. so it can be used again with another jti
+	requestValues = maps.Clone(requestValues)
 	requestValues["iss"] = rop.EntityID
 	requestValues["client_id"] = rop.EntityID
 	delete(requestValues, "sub")
@@ -170,7 +173,7 @@ func (f FederationLeaf) CodeExchange(
 	if err != nil {
 		return nil, nil, err
 	}
-	params := additionalParameter
+	params := maps.Clone(additionalParameter)
 	if params == nil {
 		params = url.Values{}
 	}
-- 
2.43.0


From 9d717f5968c998ec55e9d22fb307b8d4f2ef01e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 43/59] fix: retain the query of an authorization endpoint

---
 authcode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/authcode.go b/authcode.go
index 3a4cc3e..4cd7ae5 100644
--- a/authcode.go
+++ b/authcode.go
@@ -154,7 +154,8 @@ func (f FederationLeaf) GetAuthorizationURL(
 	if err != nil {
 		return "", errors.WithStack(err)
 	}
-	q := url.Values{}
+	// RFC 6749 section 3.1: a query component of the endpoint must be retained
+	q := u.Query()
 	q.Set("request", string(requestObject))
 	q.Set("client_id", f.EntityID)
 	q.Set("response_type", "code")
-- 
2.43.0


From 20c4e95d96c0ab3e3cae217340b6c9263939afb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 44/59] fix: do not panic if there is no openid provider
 metadata

---
 federation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/federation.go b/federation.go
index bddd1d7..d8b0e54 100644
--- a/federation.go
+++ b/federation.go
@@ -146,5 +146,8 @@ func (f FederationLeaf) ResolveOPMetadata(issuer string) (*OpenIDProviderMetadat
 	if err != nil {
 		return nil, errors.Wrap(err, "no trust chain with valid metadata found")
 	}
+	if metadata == nil || metadata.OpenIDProvider == nil {
+		return nil, errors.Errorf("no openid provider metadata found for '%s'", issuer)
+	}
 	return metadata.OpenIDProvider, nil
 }
-- 
2.43.0


From 5dd31d19b2c54195bb2c0af2735175ddf6735aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 45/59] fix: a failed token request is not a success

---
 authcode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/authcode.go b/authcode.go
index 4cd7ae5..a26b14e 100644
--- a/authcode.go
+++ b/authcode.go
@@ -195,6 +195,8 @@ func (f FederationLeaf) CodeExchange(
 		return nil, nil, err
 	}
 
+	defer func() { _ = res.Body.Close() }()
+
 	body, err := io.ReadAll(res.Body)
 	if err != nil {
 		return nil, nil, err
@@ -207,6 +209,9 @@ func (f FederationLeaf) CodeExchange(
 	if errRes.Error != "" {
 		return nil, &errRes, nil
 	}
+	if res.StatusCode < 200 || res.StatusCode > 299 {
+		return nil, nil, errors.Errorf("token endpoint returned status '%s'", res.Status)
+	}
 	if err = json.Unmarshal(body, &tokenRes); err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 31114503ebb527ece29bb2e927ccec4c3f9b4ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 46/59] fix: no chain is as short as a negative maximum path
 length

---
 trustchainfilter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trustchainfilter.go b/trustchainfilter.go
index df8666e..376ebc9 100644
--- a/trustchainfilter.go
+++ b/trustchainfilter.go
@@ -129,6 +129,7 @@ func TrustChainsFilterTrustAnchor(anchor string) TrustChainsFilter {
 
 type trustChainsFilterPathLength struct {
 	maxPathLen int
+	minimal    bool
 }
 
 // Filter implements the TrustChainsFilter interface
@@ -136,7 +137,7 @@ func (f trustChainsFilterPathLength) Filter(chains TrustChains) (final TrustChai
 	if len(chains) == 0 {
 		return nil
 	}
-	if f.maxPathLen < 0 {
+	if f.minimal {
 		minimum := chains[0].PathLen()
 		for i := 1; i < len(chains); i++ {
 			if l := chains[i].PathLen(); l < minimum {
@@ -155,7 +156,7 @@ func (f trustChainsFilterPathLength) Filter(chains TrustChains) (final TrustChai
 
 // TrustChainsFilterMinPathLength is a TrustChainsFilter that filters TrustChains to the chains with the minimal path
 // length
-var TrustChainsFilterMinPathLength TrustChainsFilter = trustChainsFilterPathLength{maxPathLen: -1}
+var TrustChainsFilterMinPathLength TrustChainsFilter = trustChainsFilterPathLength{minimal: true}
 
 // TrustChainsFilterValidMetadata returns a TrustChainsFilter that filters the TrustChains to the ones with valid
 // Metadata
-- 
2.43.0


From 0b223b9e52f154075b92f28cd82420ff1ee2d541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 47/59] fix: verify the bytes that were parsed

---
 internal/jwx/jws.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/jwx/jws.go b/internal/jwx/jws.go
index 915593c..5dd1da8 100644
--- a/internal/jwx/jws.go
+++ b/internal/jwx/jws.go
@@ -1,6 +1,7 @@
 package jwx
 
 import (
+	"bytes"
 	"crypto"
 
 	"github.com/lestrrat-go/jwx/v3/jwa"
@@ -40,6 +41,8 @@ func (p *ParsedJWT) UnmarshalMsgpack(data []byte) error {
 
 // Parse parses a jwt and returns a ParsedJWT; only the compact serialization is a valid jwt
 func Parse(data []byte) (*ParsedJWT, error) {
+	// what is verified later must be what is parsed now, even if the caller reuses data
+	data = bytes.Clone(data)
 	m, err := jws.Parse(data, jws.WithCompact())
 	return &ParsedJWT{
 		RawJWT:  data,
-- 
2.43.0


From 4cd21275176a9b37266f5927c953f58e01eaf172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 48/59] fix: verify the algorithm that the header of a JWT
 promises

---
 internal/jwx/jws.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/internal/jwx/jws.go b/internal/jwx/jws.go
index 5dd1da8..67827ac 100644
--- a/internal/jwx/jws.go
+++ b/internal/jwx/jws.go
@@ -58,7 +58,33 @@ func (p *ParsedJWT) VerifyWithSet(keys myjwk.JWKS) ([]byte, error) {
 	if keys.Set == nil || keys.Len() == 0 {
 		return nil, errors.New("jwt verify: no keys passed")
 	}
-	return jws.Verify(p.RawJWT, jws.WithKeySet(keys.Set, jws.WithInferAlgorithmFromKey(true)))
+	var used any
+	payload, err := jws.Verify(
+		p.RawJWT, jws.WithKeySet(keys.Set, jws.WithInferAlgorithmFromKey(true)), jws.WithKeyUsed(&used),
+	)
+	if err != nil {
+		return nil, err
+	}
+	// the algorithm was inferred from the key, but the signature must be the one that the header promises
+	alg, algSet := p.Signatures()[0].ProtectedHeaders().Algorithm()
+	if !algSet {
+		return nil, errors.New("jwt verify: no algorithm in header")
+	}
+	return payload, verifyAlgorithm(p.RawJWT, alg, used)
+}
+
+// verifyAlgorithm verifies that the signature of a jwt was made with the passed algorithm
+func verifyAlgorithm(data []byte, alg jwa.SignatureAlgorithm, used any) error {
+	if key, ok := used.(jwk.Key); ok {
+		if keyAlg, set := key.Algorithm(); set {
+			if keyAlg.String() != alg.String() {
+				return errors.Errorf("jwt verify: signed with '%s' but header says '%s'", keyAlg, alg)
+			}
+			return nil
+		}
+	}
+	_, err := jws.Verify(data, jws.WithKey(alg, used))
+	return errors.WithStack(err)
 }
 
 // VerifyType verifies that the header typ has a certain value
-- 
2.43.0


From 37f379157d5078124dfc202213571974bcb07dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 49/59] fix: do not verify a JWT with critical header
 parameters

---
 internal/jwx/jws.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/jwx/jws.go b/internal/jwx/jws.go
index 67827ac..317fe69 100644
--- a/internal/jwx/jws.go
+++ b/internal/jwx/jws.go
@@ -58,6 +58,11 @@ func (p *ParsedJWT) VerifyWithSet(keys myjwk.JWKS) ([]byte, error) {
 	if keys.Set == nil || keys.Len() == 0 {
 		return nil, errors.New("jwt verify: no keys passed")
 	}
+	header := p.Signatures()[0].ProtectedHeaders()
+	if header.Has(jws.CriticalKey) {
+		// a jwt with extensions that are not understood is invalid
+		return nil, errors.New("jwt verify: critical header parameters are not supported")
+	}
 	var used any
 	payload, err := jws.Verify(
 		p.RawJWT, jws.WithKeySet(keys.Set, jws.WithInferAlgorithmFromKey(true)), jws.WithKeyUsed(&used),
@@ -66,7 +71,7 @@ func (p *ParsedJWT) VerifyWithSet(keys myjwk.JWKS) ([]byte, error) {
 		return nil, err
 	}
 	// the algorithm was inferred from the key, but the signature must be the one that the header promises
-	alg, algSet := p.Signatures()[0].ProtectedHeaders().Algorithm()
+	alg, algSet := header.Algorithm()
 	if !algSet {
 		return nil, errors.New("jwt verify: no algorithm in header")
 	}
-- 
2.43.0


From dfbc92bfc28f66d456148b991160ebb7a456b8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 50/59] fix: the refresh of a cached statement does not use the
 caller's statement

---
 trustresolver.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 8f667bc..7f49c42 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -653,9 +653,10 @@ func getEntityStatementOrConfiguration(
 
 	if stmt := entityStmtCacheGet(subID, issID); stmt != nil {
 		internal.Log("Obtained entity statement from cache")
+		// stmt belongs to the caller as soon as it is returned
+		remainingLifetime := time.Until(stmt.ExpiresAt.Time)
+		totalLifetime := stmt.ExpiresAt.Sub(stmt.IssuedAt.Time)
 		go func() {
-			remainingLifetime := time.Until(stmt.ExpiresAt.Time)
-			totalLifetime := stmt.ExpiresAt.Sub(stmt.IssuedAt.Time)
 			if remainingLifetime <= ResolverCacheGracePeriod && float64(totalLifetime-remainingLifetime)/float64(totalLifetime) > ResolverCacheLifetimeElapsedGraceFactor {
 				internal.Log("Within grace period, refreshing entity statement")
 				_, err := obtainAndSetEntityStatementOrConfiguration(
-- 
2.43.0


From e5e94f6b01912d436a1c1d6b1621b4fd38a0b5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 51/59] fix: ignore null entities in a remote entity collection

---
 discovery.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/discovery.go b/discovery.go
index aec36e2..801d06d 100644
--- a/discovery.go
+++ b/discovery.go
@@ -793,7 +793,11 @@ func (c SimpleRemoteEntityCollector) CollectEntities(req apimodel.EntityCollecti
 		internal.Logf("error while fetching entity collection endpoint: %s", errRes.Err().Error())
 		return nil
 	}
-	return res.FederationEntities
+	return slices.DeleteFunc(
+		res.FederationEntities, func(e *CollectedEntity) bool {
+			return e == nil
+		},
+	)
 }
 
 // SmartRemoteEntityCollector is a EntityCollector that utilizes remote
-- 
2.43.0


From ba2059910110bb067e1dd986fad719890d3080ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 52/59] fix: do not use a partly decoded trust tree or trust
 chains from the cache

---
 trustresolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trustresolver.go b/trustresolver.go
index 7f49c42..816a14e 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -256,6 +256,8 @@ func (r *TrustResolver) Resolve() {
 	r.trustTree = trustTree{}
 	if found, err := r.cacheGetTrustTree(); err != nil {
 		internal.Log(err.Error())
+		// might be partly set
+		r.trustTree = trustTree{}
 	} else if found {
 		internal.Log("Obtained trust tree from cache")
 		return
@@ -304,6 +306,7 @@ func (r *TrustResolver) VerifySignatures() {
 func (r TrustResolver) Chains() (chains TrustChains) {
 	chains, set, err := r.cacheGetTrustChains()
 	if err != nil {
+		set = false
 		internal.Log(err.Error())
 	}
 	if set {
-- 
2.43.0


From 4964c3d7330e46c3b6bdbae4e75c534b2a9a53d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 53/59] fix: a failing cache does not prevent resolving OP
 metadata

---
 federation.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/federation.go b/federation.go
index d8b0e54..c650cf8 100644
--- a/federation.go
+++ b/federation.go
@@ -131,9 +131,8 @@ func (f FederationLeaf) ResolveOPMetadata(issuer string) (*OpenIDProviderMetadat
 	var opm OpenIDProviderMetadata
 	set, err := cache.Get(cache.Key(cache.KeyOPMetadata, issuer), &opm)
 	if err != nil {
-		return nil, err
-	}
-	if set {
+		internal.Log(err)
+	} else if set {
 		return &opm, nil
 	}
 	metadata, err := DefaultMetadataResolver.Resolve(
-- 
2.43.0


From 1875bdc946c80c5675ce4ff0b7b1d72c45618e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:52 +0000
Subject: [PATCH 54/59] fix: a statement about another entity is not cached, a
 tree that lacks it neither

---
 trustresolver.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trustresolver.go b/trustresolver.go
index 816a14e..5cee49f 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -412,6 +412,7 @@ func (t *trustTree) resolve(anchors TrustAnchors) {
 			continue
 		}
 		if !utils.Equal(aStmt.Issuer, aStmt.Subject, aID) || !aStmt.TimeValid() {
+			t.incomplete = true
 			continue
 		}
 		if aStmt.Metadata == nil || aStmt.Metadata.FederationEntity == nil || aStmt.Metadata.FederationEntity.
@@ -426,6 +427,7 @@ func (t *trustTree) resolve(anchors TrustAnchors) {
 			continue
 		}
 		if subordinateStmt.Issuer != aID || subordinateStmt.Subject != t.Entity.Issuer || !subordinateStmt.TimeValid() {
+			t.incomplete = true
 			continue
 		}
 		if !t.checkConstraints(subordinateStmt.Constraints) {
@@ -685,7 +687,10 @@ func obtainAndSetEntityStatementOrConfiguration(
 		return nil, err
 	}
 	internal.Log("Obtained entity statement from http")
-	entityStmtCacheSet(subID, issID, stmt)
+	if stmt.Issuer == issID && stmt.Subject == subID {
+		// a statement about or from somebody else must not be in the way of the right one
+		entityStmtCacheSet(subID, issID, stmt)
+	}
 	return stmt, nil
 }
 
-- 
2.43.0


From 75524b3acf33d4c6f9d6fd1167dd83d595413156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 55/59] fix: what is not a listing response is not taken for an
 empty one

---
 discovery.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/discovery.go b/discovery.go
index 801d06d..5603181 100644
--- a/discovery.go
+++ b/discovery.go
@@ -621,18 +621,19 @@ func fetchList(listEndpoint string) ([]string, error) {
 }
 
 func httpFetchList(listEndpoint string) ([]string, error) {
-	resp, errRes, err := http.Get(listEndpoint, nil, &[]string{})
+	resp, errRes, err := http.Get(listEndpoint, nil, nil)
 	if err != nil {
 		return nil, err
 	}
 	if errRes != nil {
 		return nil, errRes.Err()
 	}
-	entities, ok := resp.Result().(*[]string)
-	if !ok || entities == nil {
-		return nil, errors.New("unexpected response type")
+	var entities []string
+	if err = json.Unmarshal(resp.Body(), &entities); err != nil {
+		// something that is not a listing response must not be taken for an empty one
+		return nil, errors.Wrap(err, "unexpected listing response")
 	}
-	return *entities, nil
+	return entities, nil
 }
 
 func getMetadataForCollectedEntity(e *CollectedEntity, trustAnchors []string) *Metadata {
-- 
2.43.0


From 4a1fb6cb8133fb165a2d4ca178d043d9529c1b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:10 +0000
Subject: [PATCH 56/59] fix: do not verify trust marks of trust mark issuers
 endlessly

If DefaultMetadataResolver is a SmartRemoteMetadataResolver (or a pointer to a
LocalMetadataResolver), verifying a trust mark whose issuer has a trust mark
issued by itself did not terminate, because resolving the issuer verified the
issuer's trust marks in turn.
---
 discovery.go         |  2 +-
 metadata_resolver.go | 33 +++++++++++++++++++++++++++++----
 trustmark.go         |  2 +-
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/discovery.go b/discovery.go
index 5603181..c16e08c 100644
--- a/discovery.go
+++ b/discovery.go
@@ -440,7 +440,7 @@ func (d *SimpleEntityCollector) collect(
 									}
 									var res ResolveResponsePayload
 									switch resolver := DefaultMetadataResolver.(type) {
-									case LocalMetadataResolver:
+									case trustMarklessResolver:
 										res, _, err = resolver.resolveResponsePayloadWithoutTrustMarks(resolveRequest)
 									default:
 										res, err = DefaultMetadataResolver.ResolveResponsePayload(resolveRequest)
diff --git a/metadata_resolver.go b/metadata_resolver.go
index 4dedc34..9b940f9 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -69,6 +69,12 @@ func (LocalMetadataResolver) resolveResponsePayloadWithoutTrustMarks(
 	return
 }
 
+// trustMarklessResolver is a MetadataResolver that can resolve without verifying the subject's trust marks; verifying
+// trust marks needs resolving their issuers, so this must not verify the trust marks of the issuers in turn
+type trustMarklessResolver interface {
+	resolveResponsePayloadWithoutTrustMarks(req apimodel.ResolveRequest) (ResolveResponsePayload, TrustChain, error)
+}
+
 // ResolveResponsePayload implements the MetadataResolver interface
 func (r LocalMetadataResolver) ResolveResponsePayload(req apimodel.ResolveRequest) (
 	res ResolveResponsePayload, err error,
@@ -242,8 +248,27 @@ func (r SmartRemoteMetadataResolver) Resolve(req apimodel.ResolveRequest) (*Meta
 }
 
 // ResolveResponsePayload implements the MetadataResolver interface
-func (SmartRemoteMetadataResolver) ResolveResponsePayload(req apimodel.ResolveRequest) (
+func (r SmartRemoteMetadataResolver) ResolveResponsePayload(req apimodel.ResolveRequest) (
 	ResolveResponsePayload, error,
+) {
+	if res, ok := r.resolveRemotely(req); ok {
+		return res, nil
+	}
+	return LocalMetadataResolver{}.ResolveResponsePayload(req)
+}
+
+func (r SmartRemoteMetadataResolver) resolveResponsePayloadWithoutTrustMarks(req apimodel.ResolveRequest) (
+	ResolveResponsePayload, TrustChain, error,
+) {
+	if res, ok := r.resolveRemotely(req); ok {
+		return res, nil, nil
+	}
+	return LocalMetadataResolver{}.resolveResponsePayloadWithoutTrustMarks(req)
+}
+
+// resolveRemotely returns the response of the first resolve endpoint that is successful
+func (SmartRemoteMetadataResolver) resolveRemotely(req apimodel.ResolveRequest) (
+	res ResolveResponsePayload, ok bool,
 ) {
 	for _, tr := range req.TrustAnchor {
 		entityConfig, err := GetEntityConfiguration(tr)
@@ -262,14 +287,14 @@ func (SmartRemoteMetadataResolver) ResolveResponsePayload(req apimodel.ResolveRe
 			ResolveEndpoint: resolveEndpoint,
 			JWKS:            entityConfig.JWKS,
 		}
-		res, err := remoteResolver.ResolveResponsePayload(req)
+		res, err = remoteResolver.ResolveResponsePayload(req)
 		if err != nil {
 			internal.Logf("error while obtaining resolve response: %v", err)
 			continue
 		}
-		return res, nil
+		return res, true
 	}
-	return LocalMetadataResolver{}.ResolveResponsePayload(req)
+	return ResolveResponsePayload{}, false
 }
 
 // ResolvePossible implements the MetadataResolver interface
diff --git a/trustmark.go b/trustmark.go
index 05542c0..9687331 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -240,7 +240,7 @@ func getTrustMarkIssuerJWKS(
 	}
 	var res ResolveResponsePayload
 	switch resolver := DefaultMetadataResolver.(type) {
-	case LocalMetadataResolver:
+	case trustMarklessResolver:
 		res, _, err = resolver.resolveResponsePayloadWithoutTrustMarks(resolveRequest)
 	default:
 		res, err = DefaultMetadataResolver.ResolveResponsePayload(resolveRequest)
-- 
2.43.0


From db54ec572fed08193a11adf3a8bf1b9c95e21ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:26 +0000
Subject: [PATCH 57/59] fix: do not write into the operator lists of policy
 operators

---
 metadataPolicy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index a9ac217..70f7adf 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -246,7 +246,8 @@ func (p MetadataPolicyEntry) Verify(pathInfo string) error {
 		if mayCombine == nil {
 			continue
 		}
-		notAllowed := slices.Subtract(activeOperators, append(mayCombine, op.Name()))
+		allowed := append([]PolicyOperatorName{op.Name()}, mayCombine...)
+		notAllowed := slices.Subtract(activeOperators, allowed)
 		if len(notAllowed) > 0 {
 			return errors.Errorf(
 				"policy operator '%s' in '%s' cannot be combined with these operators: %v", opN,
-- 
2.43.0


From 7143e29bd71688ba89f757983b16cba224e1b6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:11 +0000
Subject: [PATCH 58/59] fix: never publish expired trust marks

---
 trustmark_refresher.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index bf64b0f..6ee34a1 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -104,6 +104,9 @@ func (c *EntityConfigurationTrustMarkConfig) set(jwt string, exp *unixtime.Unixt
 func (c *EntityConfigurationTrustMarkConfig) TrustMarkJWT() (string, error) {
 	current, expires, left := c.current()
 	if !c.Refresh {
+		if current != "" && expires && left <= 0 {
+			return "", errors.New("trust mark is expired")
+		}
 		return current, nil
 	}
 	if current != "" && (!expires || left > c.MinLifetime.Duration) {
@@ -172,6 +175,9 @@ func (c *EntityConfigurationTrustMarkConfig) refresh() error {
 	if err != nil {
 		return err
 	}
+	if err = unixtime.VerifyTime(nil, tm.ExpiresAt); err != nil {
+		return err
+	}
 	c.set(string(tm.jwtMsg.RawJWT), tm.ExpiresAt)
 	return nil
 }
-- 
2.43.0


From 135db3da6e091a451b08c04fcb42c83be5aa95a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:19 +0000
Subject: [PATCH 59/59] fix: do not wait forever for a token endpoint

---
 authcode.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/authcode.go b/authcode.go
index a26b14e..c4a48cc 100644
--- a/authcode.go
+++ b/authcode.go
@@ -16,6 +16,9 @@ import (
 	"github.com/go-oidfed/lib/internal/jwx"
 )
 
+// tokenRequestTimeout limits how long a token endpoint may take
+const tokenRequestTimeout = 20 * time.Second
+
 // OIDCErrorResponse is the error response of an oidc provider
 type OIDCErrorResponse struct {
 	Error            string `json:"error"`
@@ -190,7 +193,12 @@ func (f FederationLeaf) CodeExchange(
 	params.Set("client_assertion_type", "urn:ietf:params:oauth:client-assertion-type:jwt-bearer")
 	params.Set("client_assertion", string(clientAssertion))
 
-	res, err := http.PostForm(opMetadata.TokenEndpoint, params)
+	// the default client waits forever
+	client := *http.DefaultClient
+	if client.Timeout == 0 {
+		client.Timeout = tokenRequestTimeout
+	}
+	res, err := client.PostForm(opMetadata.TokenEndpoint, params)
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0

