From 88c2c4200635e8fcdf05b0ec06eca4b3e6b5c042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:45 +0000
Subject: [PATCH 01/20] fix: a deny assertion is not lost to an allow assertion
 simplified concurrently

---
 policy/daemon.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index a64979e..ef2deb2 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -334,9 +334,7 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 					return ctx.Err()
 				default:
 					km := fmt.Sprintf("%s,%s,%s", ass.Role, ass.Action, ass.Resource)
-					if _, ok := assm.Load(km); !ok {
-						assm.Store(km, ass)
-					} else {
+					if _, ok := assm.LoadOrStore(km, ass); ok {
 						// deny policy will override allow policy, and also remove duplication
 						if strings.EqualFold("deny", ass.Effect) {
 							assm.Store(km, ass)
-- 
2.43.0


From defcbc8917c44f7ef3469a7e6ac4869aa42cbe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:45 +0000
Subject: [PATCH 02/20] fix: assertions whose texts contain commas are not
 taken for duplicates of others

---
 policy/daemon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index ef2deb2..d6150cb 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -333,7 +333,7 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 				case <-ctx.Done():
 					return ctx.Err()
 				default:
-					km := fmt.Sprintf("%s,%s,%s", ass.Role, ass.Action, ass.Resource)
+					km := fmt.Sprintf("%q,%q,%q", ass.Role, ass.Action, ass.Resource)
 					if _, ok := assm.LoadOrStore(km, ass); ok {
 						// deny policy will override allow policy, and also remove duplication
 						if strings.EqualFold("deny", ass.Effect) {
-- 
2.43.0


From c53348627ad414232a81458643dc43a664491566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:45 +0000
Subject: [PATCH 03/20] fix: re-fetching expired policies replaces the policies
 in force atomically, updates are serialised

---
 policy/daemon.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index d6150cb..c7e7ed4 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -70,6 +70,8 @@ type policyd struct {
 	client   *http.Client
 	pkp      pubkey.Provider
 	fetchers map[string]Fetcher // used for concurrent read, should never be updated
+
+	updateMu unsafe.Pointer // *sync.Mutex created by the first update, use lockUpdate()
 }
 
 // New represent the constructor of Policyd
@@ -154,6 +156,16 @@ func (p *policyd) Start(ctx context.Context) <-chan error {
 
 // Update updates and cache policy data
 func (p *policyd) Update(ctx context.Context) error {
+	return p.update(ctx, nil)
+}
+
+// update updates and cache policy data. If expired is not nil, it does nothing unless expired is still the cache in use.
+func (p *policyd) update(ctx context.Context, expired *gache.Gache) error {
+	defer p.lockUpdate().Unlock()
+	if expired != nil && (*gache.Gache)(atomic.LoadPointer((*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies)))) != expired {
+		return nil
+	}
+
 	glg.Get().DisableColor()
 	jobID := fastime.Now().Unix()
 	glg.Infof("[%d] will update policy", jobID)
@@ -186,9 +198,12 @@ func (p *policyd) Update(ctx context.Context) error {
 
 	rp.StartExpired(ctx, p.purgePeriod).
 		EnableExpiredHook().
-		SetExpiredHook(func(ctx context.Context, key string) {
+		SetExpiredHook(func(_ context.Context, key string) {
 			// key = <domain>:role.<role>
-			fetchAndCachePolicy(ctx, *(p.rolePolicies), p.fetchers[strings.Split(key, ":role.")[0]])
+			// replace the cache as a whole, policy checks must never see a part of the new policies
+			if err := p.update(ctx, &rp); err != nil {
+				glg.Errorf("update expired policy fail, key: %s, error: %v", key, err)
+			}
 		})
 
 	// swap pointer
@@ -210,6 +225,14 @@ func (p *policyd) Update(ctx context.Context) error {
 	return nil
 }
 
+// lockUpdate locks the mutex serialising the updates, so that the policies fetched last are the ones in use.
+func (p *policyd) lockUpdate() *sync.Mutex {
+	atomic.CompareAndSwapPointer(&p.updateMu, nil, unsafe.Pointer(new(sync.Mutex)))
+	mu := (*sync.Mutex)(atomic.LoadPointer(&p.updateMu))
+	mu.Lock()
+	return mu
+}
+
 // CheckPolicy checks the specified request has privilege to access the resources or not.
 // If return is nil then the request is allowed, otherwise the request is rejected.
 // Only action and resource is supporting wildcard, domain and role is not supporting wildcard.
-- 
2.43.0


From 5a7c3d52d7927e8c1e2719c4cb979ca905037779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:16 +0000
Subject: [PATCH 04/20] fix: an expired policy document is not cached as never
 expiring

---
 policy/daemon.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index c7e7ed4..80614d9 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -377,6 +377,11 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 	// cache
 	var retErr error
 	now := fastime.Now()
+	expires := sp.DomainSignedPolicyData.SignedPolicyData.Expires
+	if expires != nil && expires.Sub(now) <= 0 {
+		// a non-positive duration means never expire in the cache
+		return errors.Errorf("policy already expired at %s", expires.Time.String())
+	}
 	assm.Range(func(k interface{}, val interface{}) bool {
 		ass := val.(*util.Assertion)
 		a, err := NewAssertion(ass.Action, ass.Resource, ass.Effect)
@@ -397,7 +402,7 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 		} else {
 			asss = []*Assertion{a}
 		}
-		rp.SetWithExpire(ass.Role, asss, sp.DomainSignedPolicyData.SignedPolicyData.Expires.Sub(now))
+		rp.SetWithExpire(ass.Role, asss, expires.Sub(now))
 
 		glg.Debugf("added assertion to the tmp cache: %+v", ass)
 		return true
-- 
2.43.0


From 1150c73ae41adad0211acde903f1c6ee604c0447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 05/20] fix: policy answers of unexpected shape are rejected
 instead of crashing

---
 policy/daemon.go        | 10 ++++++++++
 policy/fetcher.go       |  7 ++++++-
 policy/signed_policy.go |  3 +++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 80614d9..1d7165d 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -344,14 +344,24 @@ func fetchAndCachePolicy(ctx context.Context, g gache.Gache, f Fetcher) error {
 }
 
 func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolicy) error {
+	if sp.DomainSignedPolicyData.SignedPolicyData == nil || sp.DomainSignedPolicyData.SignedPolicyData.PolicyData == nil {
+		return errors.Wrap(ErrFetchPolicy, "no policy data")
+	}
+
 	eg := errgroup.Group{}
 	assm := new(sync.Map) // assertion map
 
 	// simplify signed policy cache
 	for _, policy := range sp.DomainSignedPolicyData.SignedPolicyData.PolicyData.Policies {
 		pol := policy
+		if pol == nil {
+			continue
+		}
 		eg.Go(func() error {
 			for _, ass := range pol.Assertions {
+				if ass == nil {
+					continue
+				}
 				select {
 				case <-ctx.Done():
 					return ctx.Err()
diff --git a/policy/fetcher.go b/policy/fetcher.go
index 49c363d..3d432c1 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -110,6 +110,11 @@ func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 
 	// if server responses NotModified, return policy from cache
 	if res.StatusCode == http.StatusNotModified {
+		if tp == nil {
+			errMsg := "fetch policy HTTP response 304 Not Modified without policy cache"
+			glg.Errorf("%s, domain: %s", errMsg, f.domain)
+			return nil, errors.Wrap(ErrFetchPolicy, errMsg)
+		}
 		glg.Debugf("policy = 304 not modified, use cache for domain: %s, ETag: %v", f.domain, tp.eTag)
 		return tp.sp, nil
 	}
@@ -122,7 +127,7 @@ func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 
 	// read and decode
 	sp := new(SignedPolicy)
-	if err = json.NewDecoder(res.Body).Decode(&sp); err != nil {
+	if err = json.NewDecoder(res.Body).Decode(sp); err != nil {
 		errMsg := "policy decode fail"
 		glg.Errorf("%s, domain: %s, error: %v", errMsg, f.domain, err)
 		return nil, errors.Wrap(err, errMsg)
diff --git a/policy/signed_policy.go b/policy/signed_policy.go
index 73b9690..771f1ce 100644
--- a/policy/signed_policy.go
+++ b/policy/signed_policy.go
@@ -38,6 +38,9 @@ func (s *SignedPolicy) Verify(pkp pubkey.Provider) error {
 	if s.SignedPolicyData == nil {
 		return errors.New("no policy data")
 	}
+	if pkp == nil {
+		return errors.New("no public key provider")
+	}
 
 	// verify expires
 	if s.SignedPolicyData.Expires == nil {
-- 
2.43.0


From cb5f83e6d8259b2b853d1444dee9962735b7b128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:35 +0000
Subject: [PATCH 06/20] fix: public key answers of unexpected shape are
 rejected instead of crashing, bodies are closed

---
 pubkey/daemon.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index 7be03ca..c736180 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -169,6 +169,10 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 		}
 
 		for _, key := range pubKeys.PublicKeys {
+			if key == nil {
+				glg.Errorf("Error updating athenz pubkey, env: %v, error: empty key entry", env)
+				return errors.Wrap(ErrFetchAthenzPubkey, "empty public key entry")
+			}
 			glg.Debugf("Decoding key, env: %v, keyID: %v", env, key.ID)
 			decKey, err := dec.DecodeString(key.Key)
 			if err != nil {
@@ -254,9 +258,19 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 		return nil, false, errors.Wrap(err, "error make http request")
 	}
 
+	defer func() {
+		if err := r.Body.Close(); err != nil {
+			glg.Warn(errors.Wrap(err, "error body.close"))
+		}
+	}()
+
 	// if server return NotModified, return policy from cache
 	if r.StatusCode == http.StatusNotModified {
-		cache := t.(*confCache)
+		cache, ok := t.(*confCache)
+		if !ok {
+			glg.Error("Server return not modified without eTag cache")
+			return nil, false, errors.Wrap(ErrFetchAthenzPubkey, "http return status not modified without eTag cache")
+		}
 		glg.Debugf("Server return not modified, ETag: %s", cache.eTag)
 		return cache.sac, false, nil
 	}
@@ -268,7 +282,7 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 	}
 
 	sac := new(SysAuthConfig)
-	if err = json.NewDecoder(r.Body).Decode(&sac); err != nil {
+	if err = json.NewDecoder(r.Body).Decode(sac); err != nil {
 		glg.Errorf("Error decoding public key entries, err: %v", err)
 		return nil, false, errors.Wrap(err, "json format not correct")
 	}
@@ -276,9 +290,6 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 	if _, err = io.Copy(ioutil.Discard, r.Body); err != nil {
 		glg.Warn(errors.Wrap(err, "error io.copy"))
 	}
-	if err = r.Body.Close(); err != nil {
-		glg.Warn(errors.Wrap(err, "error body.close"))
-	}
 
 	// set eTag cache
 	eTag := r.Header.Get("ETag")
-- 
2.43.0


From 2b659844f99edd046d0eea543a2e330f08a64fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 07/20] fix: tokens are rejected instead of crashing when their
 kind or its key source is disabled

---
 access/processor.go | 3 +++
 authorizerd.go      | 6 ++++++
 role/processor.go   | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/access/processor.go b/access/processor.go
index 3008aa4..4f9f8a3 100644
--- a/access/processor.go
+++ b/access/processor.go
@@ -203,6 +203,9 @@ func (a *atp) keyFunc(token *jwt.Token) (interface{}, error) {
 		return nil, errors.New(err.Error() + ":" + jws.JWKSetURLKey)
 	}
 
+	if a.jwkp == nil {
+		return nil, errors.New("no jwk provider")
+	}
 	key := a.jwkp(keyID, jwkSetURL)
 
 	if key == nil {
diff --git a/authorizerd.go b/authorizerd.go
index 954c4ac..a38f566 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -406,6 +406,9 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 
 	switch m {
 	case roleToken:
+		if a.roleProcessor == nil {
+			return nil, errors.Wrap(ErrInvalidCredentials, "role token disabled")
+		}
 		rt, err := a.roleProcessor.ParseAndValidateRoleToken(tok)
 		if err != nil {
 			glg.Infof("error parse and validate role token, err: %v", err)
@@ -421,6 +424,9 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 			expiryTime: rt.ExpiryTime.Unix(),
 		}
 	case accessToken:
+		if a.accessProcessor == nil {
+			return nil, errors.Wrap(ErrInvalidCredentials, "access token disabled")
+		}
 		ac, err := a.accessProcessor.ParseAndValidateOAuth2AccessToken(tok, cert)
 		if err != nil {
 			glg.Infof("error parse and validate access token, err: %v", err)
diff --git a/role/processor.go b/role/processor.go
index 6aeb539..a67dda7 100644
--- a/role/processor.go
+++ b/role/processor.go
@@ -84,6 +84,9 @@ func (r *rtp) validate(rt *Token) error {
 	if rt.Expired() {
 		return errors.Wrapf(ErrRoleTokenExpired, "token expired. principal %s", rt.Principal)
 	}
+	if r.pkp == nil {
+		return errors.Wrapf(ErrRoleTokenInvalid, "no public key provider. principal %s", rt.Principal)
+	}
 	ver := r.pkp(pubkey.EnvZTS, rt.KeyID)
 	if ver == nil {
 		return errors.Wrapf(ErrRoleTokenInvalid, "invalid role token key ID %s. principal %s", rt.KeyID, rt.Principal)
-- 
2.43.0


From ba37b649a522a4749ca3b9b5e847500eb5298fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:45 +0000
Subject: [PATCH 08/20] fix: the eTag of public keys which are not in use does
 not prevent fetching them again

---
 pubkey/daemon.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index c736180..204e89d 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -155,7 +155,7 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 	eg := errgroup.Group{}
 
 	// this function decode and create verifier obj and store to corresponding cache map
-	updConf := func(env AthenzEnv, cache *sync.Map) error {
+	updConf := func(env AthenzEnv, cache *sync.Map) (err error) {
 		cm := new(sync.Map)
 		dec := new(authcore.YBase64)
 		pubKeys, upded, err := p.fetchPubKeyEntries(ctx, env)
@@ -167,6 +167,12 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 			glg.Infof("%v athenz pubkey not updated", env)
 			return nil
 		}
+		defer func() {
+			if err != nil {
+				// the public keys are not in use, fetch them again in the next update
+				p.eTagCache.Delete(string(env))
+			}
+		}()
 
 		for _, key := range pubKeys.PublicKeys {
 			if key == nil {
@@ -296,6 +302,9 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 	if eTag != "" {
 		glg.Debugf("Setting ETag %v", eTag)
 		p.eTagCache.SetWithExpire(string(env), &confCache{eTag, sac}, p.eTagExpiry)
+	} else {
+		// the cached eTag does not represent the fetched public keys
+		p.eTagCache.Delete(string(env))
 	}
 
 	glg.Info("Fetch public key entries success")
-- 
2.43.0


From 0c77691075dbf0a8e9bb408b090fa495d8e8dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:45 +0000
Subject: [PATCH 09/20] fix: public keys fetched earlier do not replace those
 fetched later

---
 pubkey/daemon.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index 204e89d..fa0701b 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -54,6 +54,9 @@ type pubkeyd struct {
 
 	// cache
 	confCache *AthenzConfig
+
+	// updateMu serializes updates, so that public keys fetched earlier never replace those fetched later
+	updateMu sync.Mutex
 }
 
 // AthenzConfig represent the cache of Athenz config.
@@ -152,6 +155,9 @@ func (p *pubkeyd) Start(ctx context.Context) <-chan error {
 // Update updates and cache athenz public key data
 func (p *pubkeyd) Update(ctx context.Context) error {
 	glg.Info("Updating athenz pubkey")
+	p.updateMu.Lock()
+	defer p.updateMu.Unlock()
+
 	eg := errgroup.Group{}
 
 	// this function decode and create verifier obj and store to corresponding cache map
-- 
2.43.0


From 5342efec18e6a7fbcb9b499a0555ffae26bcfb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:57 +0000
Subject: [PATCH 10/20] fix: key sets fetched earlier do not replace those
 fetched later

---
 jwk/daemon.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jwk/daemon.go b/jwk/daemon.go
index 8436e82..87d2f62 100644
--- a/jwk/daemon.go
+++ b/jwk/daemon.go
@@ -44,6 +44,9 @@ type jwkd struct {
 	client *http.Client
 
 	keys *sync.Map
+
+	// updateMu serializes updates, so that key sets fetched earlier never replace those fetched later
+	updateMu sync.Mutex
 }
 
 // Provider represent the jwk provider to retrieve the json web key.
@@ -119,6 +122,8 @@ func (j *jwkd) Start(ctx context.Context) <-chan error {
 
 func (j *jwkd) Update(ctx context.Context) (err error) {
 	glg.Info("Fetching JWK Set")
+	j.updateMu.Lock()
+	defer j.updateMu.Unlock()
 
 	var targets []string
 	if !isContain(j.urls, j.athenzJwksURL) {
-- 
2.43.0


From a242e8642c023d146b870e7cfeb00a3a3d37c065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:47 +0000
Subject: [PATCH 11/20] fix: remembered acceptances of different requests are
 not confused

---
 authorizerd.go | 45 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index a38f566..4666b99 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -18,6 +18,7 @@ package authorizerd
 
 import (
 	"context"
+	"crypto/sha256"
 	"crypto/x509"
 	"fmt"
 	"net/http"
@@ -119,11 +120,14 @@ type mode uint8
 
 const (
 	cacheKeyDelimiter      = ':'
+	cacheKeyCertPrefix     = `\#` // never occurs in the escaped parts of the key
 	roleInCNDelimiter      = ":role."
 	roleToken         mode = iota
 	accessToken
 )
 
+var cacheKeyEscaper = strings.NewReplacer(`\`, `\\`, `:`, `\:`)
+
 // New creates the Authorizerd object with the options
 func New(opts ...Option) (Authorizerd, error) {
 	var (
@@ -366,13 +370,18 @@ func (a *authority) AuthorizeAccessToken(ctx context.Context, tok, act, res stri
 
 func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query string, cert *x509.Certificate) (Principal, error) {
 	var key strings.Builder
-	key.WriteString(tok)
+	keyTok := escapeCacheKey(tok)
+	key.WriteString(keyTok)
 
 	if cert != nil {
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(cert.Issuer.CommonName)
+		key.WriteString(escapeCacheKey(cert.Issuer.CommonName))
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(cert.Subject.CommonName)
+		key.WriteString(escapeCacheKey(cert.Subject.CommonName))
+		if len(cert.Raw) > 0 {
+			// different certificates can have the same common names
+			fmt.Fprintf(&key, "%c%s%x", cacheKeyDelimiter, cacheKeyCertPrefix, sha256.Sum256(cert.Raw))
+		}
 	}
 
 	if !a.disablePolicyd {
@@ -380,22 +389,25 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 			return nil, errors.Wrap(ErrInvalidParameters, "empty action / resource")
 		}
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(act)
+		key.WriteString(escapeCacheKey(act))
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(res)
+		key.WriteString(escapeCacheKey(res))
 		if query != "" && a.translator != nil {
 			key.WriteRune(cacheKeyDelimiter)
-			key.WriteString(query)
+			key.WriteString(escapeCacheKey(query))
 		}
 	}
 
 	// check if exists in verification success cache
 	cached, ok := a.cache.Get(key.String())
 	if ok {
-		glg.DebugFunc(func() string {
-			return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), tok))
-		})
-		return cached.(Principal), nil
+		// the result of a token verified as another kind of token must not be used
+		if cp, ok := cached.(Principal); ok && isPrincipalOf(m, cp) {
+			glg.DebugFunc(func() string {
+				return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok))
+			})
+			return cp, nil
+		}
 	}
 
 	var (
@@ -472,12 +484,23 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 	}
 
 	glg.DebugFunc(func() string {
-		return fmt.Sprintf("set token result. masked tok: %s, masked key: %s, act: %s, res: %s", maskToken(m, tok), maskCacheKey(key.String(), tok), act, res)
+		return fmt.Sprintf("set token result. masked tok: %s, masked key: %s, act: %s, res: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok), act, res)
 	})
 	a.cache.SetWithExpire(key.String(), p, a.cacheExp)
 	return p, nil
 }
 
+// escapeCacheKey escapes a part of the cache key, the key of different requests should be different.
+func escapeCacheKey(s string) string {
+	return cacheKeyEscaper.Replace(s)
+}
+
+// isPrincipalOf returns whether p is the result of verifying the kind of token.
+func isPrincipalOf(m mode, p Principal) bool {
+	_, isAccessToken := p.(*oAuthAccessToken)
+	return isAccessToken == (m == accessToken)
+}
+
 // Verify returns error of verification. Returns nil if ANY authorizer succeeds (OR logic).
 func (a *authority) Verify(r *http.Request, act, res string) error {
 	for _, verifier := range a.authorizers {
-- 
2.43.0


From 7ea358b95bfc8e66e23de6facb6ec5512e10034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:59 +0000
Subject: [PATCH 12/20] fix: roles of different domains in role certificates
 are not taken for duplicates

---
 authorizerd.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index 4666b99..6b2f0eb 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -533,7 +533,7 @@ func (a *authority) VerifyRoleCert(ctx context.Context, peerCerts []*x509.Certif
 		return nil
 	}
 
-	drcheck := make(map[string]struct{})
+	drcheck := make(map[[2]string]struct{})
 	domainRoles := make(map[string][]string)
 	addDomainRoles := func(dr []string) {
 		if len(dr) != 2 {
@@ -541,9 +541,10 @@ func (a *authority) VerifyRoleCert(ctx context.Context, peerCerts []*x509.Certif
 		}
 		domain, roleName := dr[0], dr[1]
 		// duplicated role check
-		if _, ok := drcheck[domain+roleName]; !ok {
+		key := [2]string{domain, roleName}
+		if _, ok := drcheck[key]; !ok {
 			domainRoles[domain] = append(domainRoles[domain], roleName)
-			drcheck[domain+roleName] = struct{}{}
+			drcheck[key] = struct{}{}
 		}
 	}
 
-- 
2.43.0


From 2fffd8ebf55e33732c656460db983fe04f3fef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 13/20] fix: periods which are not positive are refused instead
 of crashing the refreshers

---
 jwk/option.go    | 3 +++
 policy/option.go | 6 ++++++
 pubkey/option.go | 6 ++++++
 3 files changed, 15 insertions(+)

diff --git a/jwk/option.go b/jwk/option.go
index b272e0c..0d5267c 100644
--- a/jwk/option.go
+++ b/jwk/option.go
@@ -62,6 +62,9 @@ func WithRefreshPeriod(t string) Option {
 		if err != nil {
 			return errors.Wrap(err, "invalid refresh period")
 		}
+		if rd <= 0 {
+			return errors.New("invalid refresh period: not positive")
+		}
 		j.refreshPeriod = rd
 		return nil
 	}
diff --git a/policy/option.go b/policy/option.go
index 683e094..1841796 100644
--- a/policy/option.go
+++ b/policy/option.go
@@ -97,6 +97,9 @@ func WithRefreshPeriod(d string) Option {
 		if err != nil {
 			return errors.Wrap(err, "invalid refresh period")
 		}
+		if rp <= 0 {
+			return errors.New("invalid refresh period: not positive")
+		}
 		pol.refreshPeriod = rp
 		return nil
 	}
@@ -112,6 +115,9 @@ func WithPurgePeriod(d string) Option {
 		if err != nil {
 			return errors.Wrap(err, "invalid purge period")
 		}
+		if pp <= 0 {
+			return errors.New("invalid purge period: not positive")
+		}
 		pol.purgePeriod = pp
 		return nil
 	}
diff --git a/pubkey/option.go b/pubkey/option.go
index 21fcba7..7acb43e 100644
--- a/pubkey/option.go
+++ b/pubkey/option.go
@@ -72,6 +72,9 @@ func WithRefreshPeriod(t string) Option {
 		if err != nil {
 			return errors.Wrap(err, "invalid refresh period")
 		}
+		if rd <= 0 {
+			return errors.New("invalid refresh period: not positive")
+		}
 		p.refreshPeriod = rd
 		return nil
 	}
@@ -120,6 +123,9 @@ func WithETagPurgePeriod(d string) Option {
 		if err != nil {
 			return errors.Wrap(err, "invalid ETag purge period")
 		}
+		if epp <= 0 {
+			return errors.New("invalid ETag purge period: not positive")
+		}
 		p.eTagPurgePeriod = epp
 		return nil
 	}
-- 
2.43.0


From 9abccf91dc54a5e44281687cdd942a16caedb24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:49 +0000
Subject: [PATCH 14/20] fix: a lifetime which is not positive disables
 remembering instead of making it endless

---
 authorizerd.go | 14 ++++++++++----
 option.go      |  2 ++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index 6b2f0eb..9b5ba09 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -72,8 +72,9 @@ type authority struct {
 	client    *http.Client
 
 	// successful result cache
-	cache    gache.Gache
-	cacheExp time.Duration
+	cache        gache.Gache
+	cacheExp     time.Duration
+	disableCache bool
 
 	// roleCertURIPrefix
 	roleCertURIPrefix string
@@ -304,10 +305,13 @@ func (a *authority) Init(ctx context.Context) error {
 func (a *authority) Start(ctx context.Context) <-chan error {
 	var (
 		ech              = make(chan error, 200)
-		g                = a.cache.StartExpired(ctx, a.cacheExp/2)
+		g                = a.cache
 		cech, pech, jech <-chan error
 	)
 
+	if purgePeriod := a.cacheExp / 2; purgePeriod > 0 {
+		g.StartExpired(ctx, purgePeriod)
+	}
 	if !a.disablePubkeyd {
 		cech = a.pubkeyd.Start(ctx)
 	}
@@ -486,7 +490,9 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 	glg.DebugFunc(func() string {
 		return fmt.Sprintf("set token result. masked tok: %s, masked key: %s, act: %s, res: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok), act, res)
 	})
-	a.cache.SetWithExpire(key.String(), p, a.cacheExp)
+	if !a.disableCache {
+		a.cache.SetWithExpire(key.String(), p, a.cacheExp)
+	}
 	return p, nil
 }
 
diff --git a/option.go b/option.go
index 6cbb141..4217f6b 100644
--- a/option.go
+++ b/option.go
@@ -94,6 +94,8 @@ func WithCacheExp(exp time.Duration) Option {
 	return func(authz *authority) error {
 		authz.cache.SetDefaultExpire(exp)
 		authz.cacheExp = exp
+		// an entry whose expiration is not positive would never expire
+		authz.disableCache = exp <= 0
 		return nil
 	}
 }
-- 
2.43.0


From d95ab8c96ba28dda79f3a8a3aa3ec187ac95db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:05 +0000
Subject: [PATCH 15/20] fix: values replaced for placeholders are not taken for
 placeholders

---
 translator.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/translator.go b/translator.go
index 65813d8..1fbd550 100644
--- a/translator.go
+++ b/translator.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"net/url"
+	"sort"
 	"strings"
 )
 
@@ -177,11 +178,17 @@ OUTER:
 				}
 			}
 
-			replacedRes := rule.Resource
-			for placeholder, v := range placeholderMap {
-				replacedRes = strings.ReplaceAll(replacedRes, placeholder, v)
+			// the values are replaced at once, they can contain texts like placeholders
+			placeholders := make([]string, 0, len(placeholderMap))
+			for placeholder := range placeholderMap {
+				placeholders = append(placeholders, placeholder)
 			}
-			return rule.Action, replacedRes, nil
+			sort.Strings(placeholders)
+			oldnew := make([]string, 0, len(placeholderMap)*2)
+			for _, placeholder := range placeholders {
+				oldnew = append(oldnew, placeholder, placeholderMap[placeholder])
+			}
+			return rule.Action, strings.NewReplacer(oldnew...).Replace(rule.Resource), nil
 		}
 	}
 	return method, path, nil
-- 
2.43.0


From e9aa574761937ea7493babbcbc40c86a02d54c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:20 +0000
Subject: [PATCH 16/20] fix: the retrying transport returns responses with
 their bodies readable and closes those it discards

---
 client/exp_rt.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/client/exp_rt.go b/client/exp_rt.go
index 0eba7db..9cdc1d7 100644
--- a/client/exp_rt.go
+++ b/client/exp_rt.go
@@ -77,13 +77,14 @@ func (p *ExponentialRoundTripper) RoundTrip(req *http.Request) (*http.Response,
 			continue
 		}
 
-		if responseRetriable(resp) {
+		if responseRetriable(resp) && cnt+1 < p.maxRetryCount {
+			// the response is not returned to the caller
+			io.Copy(ioutil.Discard, resp.Body)
+			resp.Body.Close()
 			continue
 		}
 
-		// response success
-		io.Copy(ioutil.Discard, resp.Body)
-		resp.Body.Close()
+		// the response body is read and closed by the caller
 		return resp, nil
 	}
 
-- 
2.43.0


From dbfe172ee8e249491df4fb4f0d85c0f210c75613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:07 +0000
Subject: [PATCH 17/20] fix: end the updaters on cancellation also when their
 errors have not been read

---
 authorizerd.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/authorizerd.go b/authorizerd.go
index 9b5ba09..7fb6da7 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -329,6 +329,12 @@ func (a *authority) Start(ctx context.Context) <-chan error {
 			case <-ctx.Done():
 				g.Stop()
 				g.Clear()
+				for _, c := range []<-chan error{cech, pech, jech} {
+					if c != nil {
+						// the updaters cannot stop while they are reporting errors which nobody reads
+						go discardErrors(c)
+					}
+				}
 				ech <- ctx.Err()
 				return
 			case err := <-cech:
@@ -350,6 +356,12 @@ func (a *authority) Start(ctx context.Context) <-chan error {
 	return ech
 }
 
+// discardErrors reads ech until it is closed.
+func discardErrors(ech <-chan error) {
+	for range ech {
+	}
+}
+
 // VerifyRoleToken verifies the role token for specific resource and return and verification error.
 func (a *authority) VerifyRoleToken(ctx context.Context, tok, act, res string) error {
 	_, err := a.authorize(ctx, roleToken, tok, act, res, "", nil)
-- 
2.43.0


From 04ce24f5d505084c6d53b5177fc4852095f60566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:16 +0000
Subject: [PATCH 18/20] fix: close the response body of a policy request even
 if it cannot be read to its end

---
 policy/fetcher.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/policy/fetcher.go b/policy/fetcher.go
index 3d432c1..7d08bf1 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -193,11 +193,11 @@ func flushAndClose(rc io.ReadCloser) error {
 	if rc != nil {
 		// flush
 		_, err := io.Copy(ioutil.Discard, rc)
-		if err != nil {
-			return err
+		// close, even if the rest cannot be read
+		if closeErr := rc.Close(); err == nil {
+			err = closeErr
 		}
-		// close
-		return rc.Close()
+		return err
 	}
 	return nil
 }
-- 
2.43.0


From bccc7c93ce2bfc9af41dbdc2bf40ee0fea643c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:19 +0000
Subject: [PATCH 19/20] fix: close the response bodies of JWK requests answered
 with an error status

---
 jwk/daemon.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/jwk/daemon.go b/jwk/daemon.go
index 87d2f62..cf11442 100644
--- a/jwk/daemon.go
+++ b/jwk/daemon.go
@@ -135,7 +135,7 @@ func (j *jwkd) Update(ctx context.Context) (err error) {
 	var failedTargets []string
 	for _, target := range targets {
 		glg.Debugf("Fetching JWK Set from %s", target)
-		keys, err := jwk.Fetch(ctx, target, jwk.WithHTTPClient(j.client))
+		keys, err := jwk.Fetch(ctx, target, jwk.WithHTTPClient(httpClient{j.client}))
 		if err != nil {
 			glg.Errorf("Fetch JWK Set error: %v", err)
 			failedTargets = append(failedTargets, target)
@@ -189,6 +189,22 @@ func (j *jwkd) getKey(keyID string, jwkSetURL string) interface{} {
 	return nil
 }
 
+// httpClient closes the bodies of the responses which jwk.Fetch refuses, jwk.Fetch leaves them open.
+type httpClient struct {
+	*http.Client
+}
+
+// Do sends the request and returns the response.
+func (c httpClient) Do(req *http.Request) (*http.Response, error) {
+	res, err := c.Client.Do(req)
+	if err == nil && res.StatusCode != http.StatusOK {
+		if err := res.Body.Close(); err != nil {
+			glg.Warn(errors.Wrap(err, "error body.close"))
+		}
+	}
+	return res, err
+}
+
 func isContain(targets []string, key string) bool {
 	for _, target := range targets {
 		if target == key {
-- 
2.43.0


From 1434332ebde0db5eeae07d2c76f975adbc60c1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:58 +0000
Subject: [PATCH 20/20] fix: leave no goroutine behind when a JWK refresh ends
 with its context

---
 jwk/daemon.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jwk/daemon.go b/jwk/daemon.go
index cf11442..d0d5aca 100644
--- a/jwk/daemon.go
+++ b/jwk/daemon.go
@@ -135,7 +135,7 @@ func (j *jwkd) Update(ctx context.Context) (err error) {
 	var failedTargets []string
 	for _, target := range targets {
 		glg.Debugf("Fetching JWK Set from %s", target)
-		keys, err := jwk.Fetch(ctx, target, jwk.WithHTTPClient(httpClient{j.client}))
+		keys, err := jwk.Fetch(context.Background(), target, jwk.WithHTTPClient(httpClient{j.client, ctx}))
 		if err != nil {
 			glg.Errorf("Fetch JWK Set error: %v", err)
 			failedTargets = append(failedTargets, target)
@@ -190,13 +190,15 @@ func (j *jwkd) getKey(keyID string, jwkSetURL string) interface{} {
 }
 
 // httpClient closes the bodies of the responses which jwk.Fetch refuses, jwk.Fetch leaves them open.
+// It sends the requests with ctx, as jwk.Fetch leaves a goroutine behind when its own context is done.
 type httpClient struct {
 	*http.Client
+	ctx context.Context
 }
 
 // Do sends the request and returns the response.
 func (c httpClient) Do(req *http.Request) (*http.Response, error) {
-	res, err := c.Client.Do(req)
+	res, err := c.Client.Do(req.WithContext(c.ctx))
 	if err == nil && res.StatusCode != http.StatusOK {
 		if err := res.Body.Close(); err != nil {
 			glg.Warn(errors.Wrap(err, "error body.close"))
-- 
2.43.0

