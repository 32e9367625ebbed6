package main

import (
	"crypto/x509"
	"fmt"
	"net/http"
	"time"

	authz "github.com/yahoojapan/athenz-authorizer/v5"

	"vs"
)

func init() {
	register(&Check{
		ID:        "C23",
		Rule:      "every combination of enabled sources x outcome of each request of the first loading (success, failures of every kind, documents signed with unpublished keys, cancellation while it is answered) followed by a loading with a healthy server; every interleaving (bounded preemptions) of the parallel loading; reference: conjunction of the outcomes, order of the requests, decisions right after success",
		Scenarios: c23,
	})
}

// initWorld is an authorizer whose first loading meets chosen outcomes.
type initWorld struct {
	*authWorld
	pk, pol, jw bool                     // enabled
	keysDone    map[string]time.Duration // when the answer arrives
	polFirst    string                   // a policy request before the keys were there
	seen        map[string]int
}

const jkuURL = jku1

func newInitWorld(x *vs.Exec, pk, pol, jw bool, opts ...authz.Option) *initWorld {
	w := &initWorld{pk: pk, pol: pol, jw: jw, keysDone: map[string]time.Duration{}, seen: map[string]int{}}
	if !pk {
		opts = append(opts, authz.WithDisablePubkeyd())
	}
	if !pol {
		opts = append(opts, authz.WithDisablePolicyd())
	}
	if !jw {
		opts = append(opts, authz.WithDisableJwkd())
	}
	docs := []Doc{{Domain: "d", Expires: day, Pols: []P{{{"r", "a", "d:x", "ALLOW"}}}}, {Domain: "e", Expires: day, Pols: []P{{{"r", "a", "e:x", "ALLOW"}}}}}
	opts = append(opts, authz.WithJwkURLs([]string{jku1}), authz.WithPolicyRetryAttempts(1), authz.WithPolicyRetryDelay("1s"), authz.WithPolicyPurgePeriod("1000h"))
	w.authWorld = newAuthWorld(x, docs, opts...)
	w.jwks[jku1] = cachedBody("c23jku", func() []byte { return jwksDoc("j1=oct:other") })
	return w
}

// effective fails unless every check works on the loaded data.
func (w *initWorld) effective() {
	x := w.x
	now := x.Elapsed()
	rt := func(dom string) string {
		t := RT{Domain: dom, Principal: "u", Roles: []string{"r"}, Issued: 0, Expires: 3 * time.Hour, Key: "ec1"}
		return t.unsigned() + ";s=" + c14sign("ec1", t.unsigned())
	}
	at := func(dom, kid, secret, jku string) string {
		h := map[string]any{"typ": "JWT", "alg": "HS256", "kid": kid}
		if jku != "" {
			h["jku"] = jku
		}
		return signJWT(h, map[string]any{"aud": dom, "sub": "u", "scp": []string{"r"}, "exp": vs.Base.Add(now + time.Hour).Unix(), "iat": vs.Base.Unix()}, "HS256", "hmac:"+secret)
	}
	for _, c := range []struct {
		dom, res string
		want     bool
	}{{"d", "x", true}, {"e", "x", true}, {"d", "y", false}, {"f", "x", false}} {
		want := c.want || !w.pol
		if w.pk {
			if _, err := w.a.AuthorizeRoleToken(background(), rt(c.dom), "a", c.res); (err == nil) != want {
				x.Failf("role token for %s:%s after Init: %v", c.dom, c.res, err)
			}
		}
		if w.jw {
			if _, err := w.a.AuthorizeAccessToken(background(), at(c.dom, "oct", octSecret, ""), "a", c.res, nil); (err == nil) != want {
				x.Failf("access token for %s:%s after Init: %v", c.dom, c.res, err)
			}
			if _, err := w.a.AuthorizeAccessToken(background(), at(c.dom, "j1", "other", jku1), "a", c.res, nil); (err == nil) != want {
				x.Failf("access token with key set URL for %s:%s after Init: %v", c.dom, c.res, err)
			}
		}
		if w.pol {
			if err := w.a.VerifyRoleCert(background(), []*x509.Certificate{Crt{CN: c.dom + ":role.r"}.cert()}, "a", c.res); (err == nil) != c.want {
				x.Failf("role certificate for %s:%s after Init: %v", c.dom, c.res, err)
			}
		}
	}
}

var (
	c23key = []string{"ok", "500", "transport error", "garbage", "undecodable key", "other key", "cancel"}
	c23pol = []string{"ok", "500", "garbage", "unpublished key", "expired", "other content", "cancel"}
	c23jwk = []string{"ok", "500", "transport error", "garbage", "cancel"}
)

// c23answer is the outcome mode of a request; nil: the healthy answer.
func (w *initWorld) c23answer(kind, name, mode string, cancel func()) *Ans {
	switch mode {
	case "500":
		return status(500)
	case "transport error":
		return netErr()
	case "garbage":
		return ok200("garbage", []byte(`{"`), "")
	case "undecodable key":
		return ok200("badkey", []byte(`{"name":"x","publicKeys":[{"id":"ec1","key":"LS0tLS1CRUdJTi--"}]}`), "")
	case "other key":
		return ok200("other", cachedBody("c23other"+name, func() []byte { return pubkeyDoc(name, "ec1=ec4", "ec2=ec4") }), "")
	case "unpublished key":
		return ok200("unpublished", Doc{Domain: name, Expires: day, ZTSKey: "ec3", Pols: []P{{{"r", "a", name + ":x", "ALLOW"}}}}.cached(), "")
	case "expired":
		return ok200("expired", Doc{Domain: name, Expires: -time.Hour, Pols: []P{{{"r", "a", name + ":x", "ALLOW"}}}}.cached(), "")
	case "other content":
		b := Doc{Domain: name, Expires: day, Pols: []P{{{"r", "a", name + ":x", "ALLOW"}}}}.cached()
		c := append([]byte(nil), b...)
		for i := range c {
			if c[i] == 'A' && string(c[i:i+5]) == "ALLOW" {
				c[i] = 'B'
				break
			}
		}
		return ok200("other content", c, "")
	case "cancel":
		cancel()
		return w.serve(kind, name, &http.Request{})
	}
	return nil
}

func (w *initWorld) watch(kind, name string) {
	w.seen[kind+" "+name]++
	for _, svc := range []string{"zts", "zms"} {
		if t, ok := w.keysDone[svc]; kind == rqPolicy && w.pk && (!ok || w.x.Elapsed() < t) {
			w.polFirst = name
		}
	}
	if kind == rqPolicy && !w.pol || kind == rqPubkey && !w.pk || kind == rqJWK && !w.jw {
		w.x.Failf("a disabled source is contacted: %s %s", kind, name)
	}
}

func c23(thorough bool) []*Scenario {
	var out []*Scenario
	out = append(out, &Scenario{Name: "outcomes", Cfg: seqCfg, Body: func(x *vs.Exec) {
		en := x.Choose(8)
		pk, pol, jw := en&1 == 0, en&2 == 0, en&4 == 0
		pick := func(on bool, l []string) string {
			if !on {
				return "ok"
			}
			return l[x.Choose(len(l))]
		}
		few := []string{"ok", "500", "cancel"}
		pfew := []string{"ok", "500", "unpublished key"}
		if thorough {
			few, pfew = c23jwk, c23pol
		}
		m := map[string]string{"zts": pick(pk, c23key), "zms": pick(pk, c23key), "d": pick(pol, c23pol), "e": pick(pol, pfew), athenzJWK: pick(jw, c23jwk), jku1: pick(jw, few)}
		pre := x.Choose(3) // 2: already cancelled
		desc := fmt.Sprintf("keys %v policies %v jwk %v: %v", pk, pol, jw, m)
		if pre == 2 {
			desc += ", cancelled before"
		}
		if pre == 1 {
			desc += ", slow keys"
		}
		x.Label("case", desc)
		w := newInitWorld(x, pk, pol, jw)
		w.net.quiet = true
		ctx, cancel := withCancel()
		healthy := false
		w.answer = func(kind, name string, r *http.Request) *Ans {
			w.watch(kind, name)
			mode := m[name]
			if healthy {
				mode = "ok"
			}
			a := w.c23answer(kind, name, mode, func() { cancel() })
			if a == nil {
				a = w.serve(kind, name, r)
			}
			if kind == rqPubkey {
				if pre == 1 {
					b := *a
					b.Delay = 5 * time.Second
					a = &b
				}
				if mode == "ok" || mode == "other key" {
					w.keysDone[name] = x.Elapsed() + a.Delay
				}
			}
			return a
		}
		if pre == 2 {
			cancel()
		}
		want := pre != 2
		for _, n := range []string{"zts", "zms"} {
			want = want && (!pk || m[n] == "ok" || m[n] == "other key" && !pol)
		}
		for _, n := range []string{"d", "e"} {
			want = want && (!pol || m[n] == "ok" && pk)
		}
		for _, n := range []string{athenzJWK, jku1} {
			want = want && (!jw || m[n] == "ok")
		}
		any := pk || pol || jw
		if !any {
			want = true
		}
		err := w.a.Init(ctx)
		x.Settle()
		// with nothing to load, a cancelled context may or may not be an error
		if (err == nil) != want && (any || pre != 2) {
			x.Failf("Init: %v, should succeed: %v", err, want)
		}
		if w.polFirst != "" {
			x.Failf("policies of %s requested before the public keys were loaded", w.polFirst)
		}
		if pre == 2 && len(w.net.Reqs) > 0 && err == nil {
			x.Failf("Init succeeds with a cancelled context")
		}
		if err == nil {
			for n, k := range map[string]string{"zts": rqPubkey, "zms": rqPubkey, "d": rqPolicy, "e": rqPolicy, athenzJWK: rqJWK, jku1: rqJWK} {
				on := k == rqPubkey && pk || k == rqPolicy && pol || k == rqJWK && jw
				if on && w.seen[k+" "+n] == 0 {
					x.Failf("Init succeeds without requesting %s", n)
				}
			}
			if m["zts"] == "ok" && m["zms"] == "ok" {
				w.effective()
			}
		}
		// the next attempt, with a healthy server, loads everything
		healthy = true
		w.polFirst = ""
		w.keysDone = map[string]time.Duration{}
		if err := w.a.Init(background()); (err == nil) != (pk || !pol) {
			x.Failf("Init with a healthy server: %v", err)
		} else if err == nil {
			w.effective()
		}
		if w.polFirst != "" {
			x.Failf("policies of %s requested before the public keys were loaded again", w.polFirst)
		}
		// and the one after that reports its failures like the first, but for policies held and unexpired
		if pre == 0 && (pk || !pol) {
			healthy = false
			w.polFirst = ""
			w.keysDone = map[string]time.Duration{}
			ctx, c := withCancel()
			cancel = c
			want := true
			for _, n := range []string{"zts", "zms"} {
				want = want && (!pk || m[n] == "ok" || m[n] == "other key")
			}
			for _, n := range []string{"d", "e"} {
				want = want && (!pol || m[n] != "cancel")
			}
			for _, n := range []string{athenzJWK, jku1} {
				want = want && (!jw || m[n] == "ok")
			}
			err := w.a.Init(ctx)
			x.Settle()
			if (err == nil) != want {
				x.Failf("Init once more: %v, should succeed: %v", err, want)
			}
		}
		x.Eval(desc)
	}})

	out = append(out, &Scenario{Name: "race", Cfg: concCfg, P: 1, PT: 2, D: 1, DT: 1, S: 1, ST: 2, Body: func(x *vs.Exec) {
		cases := []map[string]string{
			{}, {"zts": "500"}, {"zms": "500"}, {"d": "unpublished key"}, {"e": "500"}, {athenzJWK: "500"}, {jku1: "garbage"}, {"zms": "cancel"}, {"d": "cancel"}, {jku1: "cancel"},
		}
		m := cases[x.Choose(len(cases))]
		x.Label("case", fmt.Sprint(m))
		w := newInitWorld(x, true, true, true)
		ctx, cancel := withCancel()
		w.answer = func(kind, name string, r *http.Request) *Ans {
			w.watch(kind, name)
			a := w.c23answer(kind, name, m[name], cancel)
			if a == nil {
				a = w.serve(kind, name, r)
			}
			if kind == rqPubkey && m[name] == "" {
				w.keysDone[name] = x.Elapsed()
			}
			return a
		}
		err := w.a.Init(ctx)
		if (err == nil) != (len(m) == 0) {
			x.Failf("Init: %v", err)
		}
		if w.polFirst != "" {
			x.Failf("policies of %s requested before the public keys were loaded", w.polFirst)
		}
		if err == nil {
			x.Quiet(w.effective)
		}
		x.Eval(fmt.Sprint(m, len(w.net.Reqs)))
	}})
	return append(out, c23kinds())
}
