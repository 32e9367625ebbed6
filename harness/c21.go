package main

import (
	"crypto/x509"
	"errors"
	"fmt"
	"net/http"
	"time"

	authz "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/jwk"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"

	"vs"
)

func init() {
	register(&Check{
		ID:        "C21",
		Rule:      "every script of refresh results (success, server error, transport error, garbage, part of the sources failing, slow success, slow failure) up to the length bound for each refresher, run on the virtual clock; bounds on every gap between requests, one report per failed refresh, data in force after each recovery; the other refreshers keep their period",
		Scenarios: c21,
	})
}

// c21src is one refresher.
type c21src struct {
	kind    string
	names   []string // sources requested by each refresh
	period  time.Duration
	delay   time.Duration
	retries int // further requests in one refresh
}

const (
	mOK = iota
	m500
	mNet
	mGarbage
	mPart
	mSlow
	mSlowFail
	nModes
)

var c21modes = []string{"ok", "500", "transport error", "garbage", "part fails", "slow ok", "slow failure"}

func c21srcs() []c21src {
	return []c21src{
		{rqPubkey, []string{"zts", "zms"}, time.Hour, 7 * time.Second, 0},
		{rqPolicy, []string{"d", "e"}, 40 * time.Minute, 11 * time.Second, 1},
		{rqJWK, []string{athenzJWK, jku1}, 50 * time.Minute, 13 * time.Second, 0},
	}
}

// c21att is one refresh of one source as the server saw it.
type c21att struct {
	mode       int
	start, end time.Duration
	names      map[string]bool // ended for these names
	bad        map[string]bool // failed for these names
	done       bool
	fail       bool // the refresh failed
	data       bool // the data it was answered are in force afterwards
}

type c21rec struct {
	src   c21src
	atts  []*c21att
	idx   map[string]int // refresh number of the next request, by name
	tries map[string]int
	have  map[string]bool // policies of the domain were fetched before
}

func (r *c21rec) att(i int, mode int, now time.Duration) *c21att {
	for len(r.atts) <= i {
		r.atts = append(r.atts, &c21att{mode: mode, start: now, names: map[string]bool{}, bad: map[string]bool{}})
	}
	return r.atts[i]
}

func c21(thorough bool) []*Scenario {
	length := 4
	if thorough {
		length = 6
	}
	var out []*Scenario
	for si := range c21srcs() {
		si := si
		out = append(out, &Scenario{Name: "scripts-" + c21srcs()[si].kind, Cfg: seqCfg, Body: func(x *vs.Exec) {
			srcs := c21srcs()
			script := make([]int, length)
			text := srcs[si].kind + ":"
			for i := range script {
				script[i] = x.Choose(nModes)
				text += " " + c21modes[script[i]]
			}
			x.Label("script", text)
			recs := map[string]*c21rec{}
			for _, s := range srcs {
				recs[s.kind] = &c21rec{src: s, idx: map[string]int{}, tries: map[string]int{}, have: map[string]bool{}}
			}
			allow := func(a string) []P { return []P{{{"r", a, "d:x", "ALLOW"}}} }
			w := newAuthWorld(x, []Doc{{Domain: "d", Expires: 1000 * day, Pols: allow("init")}, {Domain: "e", Expires: 1000 * day}},
				authz.WithCacheExp(time.Hour*24*365),
				authz.WithPubkeyRefreshPeriod(srcs[0].period.String()), authz.WithPubkeyRetryDelay(srcs[0].delay.String()),
				authz.WithPolicyRefreshPeriod(srcs[1].period.String()), authz.WithPolicyRetryDelay(srcs[1].delay.String()), authz.WithPolicyRetryAttempts(srcs[1].retries),
				authz.WithJwkRefreshPeriod(srcs[2].period.String()), authz.WithJwkRetryDelay(srcs[2].delay.String()),
				authz.WithJwkURLs([]string{jku1}))
			w.net.quiet = true
			w.jwks[jku1] = w.jwks[athenzJWK]
			inited := x.Choose(2) == 0
			if inited {
				w.init()
				for _, n := range srcs[1].names {
					recs[rqPolicy].have[n] = true
				}
			} else { // the policies were not available
				w.answer = func(kind, name string, r *http.Request) *Ans {
					if kind == rqPolicy {
						return status(503)
					}
					return nil
				}
				if w.a.Init(background()) == nil {
					x.Failf("Init succeeds without policies")
				}
			}
			text += fmt.Sprint(", initialised ", inited)
			x.Label("script", text)
			started := x.Elapsed()
			w.answer = func(kind, name string, r *http.Request) *Ans {
				rec := recs[kind]
				if rec == nil {
					return nil
				}
				i := rec.idx[name]
				mode := mOK
				if kind == srcs[si].kind && i < len(script) {
					mode = script[i]
				}
				now := x.Elapsed()
				at := rec.att(i, mode, now)
				slow := time.Duration(0)
				if mode == mSlow || mode == mSlowFail {
					slow = rec.src.period + rec.src.period/2
				}
				fail := mode != mOK && mode != mSlow && (mode != mPart || name == rec.src.names[1])
				at.end = max(at.end, now+slow)
				rec.tries[name]++
				if !fail || rec.tries[name] > rec.src.retries {
					rec.idx[name]++
					rec.tries[name] = 0
					at.names[name] = true
					at.bad[name] = fail
					if at.done = len(at.names) == len(rec.src.names); at.done {
						at.data = true
						for _, n := range rec.src.names {
							// policies fetched before are used again
							at.fail = at.fail || at.bad[n] && !(kind == rqPolicy && rec.have[n])
							at.data = at.data && !at.bad[n]
							rec.have[n] = rec.have[n] || !at.bad[n]
						}
					}
				}
				var a *Ans
				switch {
				case mode == m500 || fail && (mode == mPart || mode == mSlowFail):
					a = status(500)
				case mode == mNet:
					a = netErr()
				case mode == mGarbage:
					a = ok200("garbage", []byte("{\"x\""), "")
				default:
					a = w.c21data(kind, name, i)
				}
				a.Delay = slow
				return a
			}
			ctx, cancel := withCancel()
			var reports []time.Duration
			ech := w.a.Start(ctx)
			reader := x.Spawn("reader", func() {
				for {
					if _, ok := vs.Recv2(ech); !ok {
						return
					}
					reports = append(reports, x.Elapsed())
				}
			})
			main := recs[srcs[si].kind]
			limit := started + time.Duration(length)*4*time.Hour + 8*time.Hour
			for len(main.atts) < length+3 && x.Elapsed() < limit {
				vs.Sleep(srcs[si].period/7 + time.Second)
				x.Settle()
				// data in force: that of the last refresh, if it succeeded and is over
				for _, s := range srcs {
					rec := recs[s.kind]
					n := len(rec.atts)
					if n == 0 {
						continue
					}
					at := rec.atts[n-1]
					if at.done && at.data && x.Elapsed() > at.end+time.Second {
						w.c21effective(s.kind, n-1)
					}
				}
			}
			end := x.Elapsed()
			// gaps
			failed := 0
			for _, s := range srcs {
				rec := recs[s.kind]
				last, lastFailed, lastStart := started, false, started
				for i, at := range rec.atts {
					bound := last + s.period
					if lastFailed {
						bound = last + 2*s.delay
					}
					if at.start > bound {
						x.Failf("%s: refresh %d starts %v after the end of the one before (failed %v)", s.kind, i, at.start-last, lastFailed)
					}
					_ = lastStart
					last, lastFailed, lastStart = at.end, at.fail, at.start
					if lastFailed && at.done && at.end+3*s.delay < end {
						failed++
						// a report, and the next request at most the delay after it
						found := time.Duration(-1)
						for _, t := range reports {
							if t >= at.end && t <= at.end+2*s.delay {
								found = t
								break
							}
						}
						if found < 0 {
							x.Failf("%s: failure of refresh %d at %v is not reported", s.kind, i, at.end)
						}
						if i+1 >= len(rec.atts) || rec.atts[i+1].start > found+s.delay {
							x.Failf("%s: no refresh within the delay after the report of failure %d", s.kind, i)
						}
					}
				}
				if last+s.period+time.Second < end {
					x.Failf("%s: no refresh during %v until the end, last at %v", s.kind, end-last, last)
				}
				if s.kind != srcs[si].kind {
					if n, exp := len(rec.atts), int((end-started)/s.period); n < exp-1 || n > exp+1 {
						x.Failf("%s: %d refreshes in %v", s.kind, n, end-started)
					}
				}
			}
			if len(reports) < failed {
				x.Failf("%d refreshes failed, %d reports", failed, len(reports))
			}
			all := false
			for _, at := range main.atts {
				all = all || at.fail
			}
			if !all && len(reports) > 0 {
				x.Failf("%d failures are reported, none happened", len(reports))
			}
			if len(main.atts) < length+3 {
				x.Failf("only %d refreshes in %v", len(main.atts), end-started)
			}
			cancel()
			reader.Join()
			x.Eval(text)
		}})
	}
	// many failures in a row, with the reports read at once or only afterwards
	out = append(out, &Scenario{Name: "long-failures", Cfg: seqCfg, Body: func(x *vs.Exec) {
		srcs := c21srcs()
		src := srcs[x.Choose(len(srcs))]
		n := []int{1, 99, 101, 150, 350, 1050}[x.Choose(6)]
		late := x.Choose(2) == 1
		mode := x.Choose(3)
		x.Label("failures", fmt.Sprintf("%s: %d failed refreshes, reports read late %v", src.kind, n, late))
		w := newAuthWorld(x, []Doc{{Domain: "d", Expires: 1000 * day}, {Domain: "e", Expires: 1000 * day}},
			authz.WithPubkeyRefreshPeriod(srcs[0].period.String()), authz.WithPubkeyRetryDelay(srcs[0].delay.String()),
			authz.WithPolicyRefreshPeriod(srcs[1].period.String()), authz.WithPolicyRetryDelay(srcs[1].delay.String()), authz.WithPolicyRetryAttempts(srcs[1].retries),
			authz.WithJwkRefreshPeriod(srcs[2].period.String()), authz.WithJwkRetryDelay(srcs[2].delay.String()),
			authz.WithJwkURLs([]string{jku1}))
		w.net.quiet = true
		w.jwks[jku1] = w.jwks[athenzJWK]
		count, ok, bad := 0, 0, true
		last, most := time.Duration(-1), time.Duration(0)
		w.answer = func(kind, name string, r *http.Request) *Ans {
			if kind != src.kind {
				return nil
			}
			if name == src.names[0] {
				count++
				if last >= 0 {
					most = max(most, x.Elapsed()-last)
				}
				if last = -1; bad {
					last = x.Elapsed()
				}
			}
			if bad {
				return []*Ans{status(500), netErr(), ok200("garbage", []byte("<"), "")}[mode]
			}
			if name == src.names[0] {
				ok++
			}
			return w.c21data(kind, name, 1)
		}
		w.a.Init(background())
		last = -1
		ctx, cancel := withCancel()
		ech := w.a.Start(ctx)
		read := 0
		reader := func() *vs.Handle {
			return x.Spawn("reader", func() {
				for {
					if _, ok := vs.Recv2(ech); !ok {
						return
					}
					read++
				}
			})
		}
		var rd *vs.Handle
		if !late {
			rd = reader()
		}
		for end := x.Elapsed() + src.period + time.Duration(n)*src.delay*3; x.Elapsed() < end; {
			vs.Sleep(src.period)
		}
		if !late && count < n {
			x.Failf("%d requests only", count)
		}
		bad = false
		if late {
			rd = reader()
		}
		vs.Sleep(4 * src.delay)
		x.Settle()
		if ok == 0 {
			x.Failf("no refresh succeeds within the delay after the server recovered")
		}
		if !late && most > 2*src.delay {
			x.Failf("%v between a failed refresh and the next request, retry delay %v", most, src.delay)
		}
		if read == 0 {
			x.Failf("no failure was reported")
		}
		w.c21effective(src.kind, 1)
		ok = 0
		vs.Sleep(10*src.period + time.Second)
		if ok < 9 || ok > 11 {
			x.Failf("%d refreshes in ten periods after the recovery", ok)
		}
		cancel()
		rd.Join()
		x.Eval(fmt.Sprint(src.kind, n, late, mode))
	}})
	out = append(out, c21kinds())
	// nobody reads the reports: the retries go on and the recovery takes effect (for the JSON web keys
	// whatever the number of reports; the other refreshers wait for a reader after a hundred reports)
	out = append(out, &Scenario{Name: "unread-failures", Cfg: seqCfg, Body: func(x *vs.Exec) {
		srcs := c21srcs()
		k := x.Choose(len(srcs))
		src := srcs[k]
		ns := []int{1, 2, 5, 50, 99}
		if k == 2 {
			ns = append(ns, 100, 101, 150, 301, 302, 450)
		}
		n := ns[x.Choose(len(ns))]
		alone := x.Choose(2) == 1
		mode := x.Choose(3)
		text := fmt.Sprintf("%s: %d failed refreshes, nobody reads the reports, refresher alone %v, failure %d", src.kind, n, alone, mode)
		x.Label("failures", text)
		w := newAuthWorld(x, []Doc{{Domain: "d", Expires: 1000 * day}, {Domain: "e", Expires: 1000 * day}},
			authz.WithPubkeyRefreshPeriod(srcs[0].period.String()), authz.WithPubkeyRetryDelay(srcs[0].delay.String()),
			authz.WithPolicyRefreshPeriod(srcs[1].period.String()), authz.WithPolicyRetryDelay(srcs[1].delay.String()), authz.WithPolicyRetryAttempts(srcs[1].retries),
			authz.WithJwkRefreshPeriod(srcs[2].period.String()), authz.WithJwkRetryDelay(srcs[2].delay.String()),
			authz.WithJwkURLs([]string{jku1}))
		w.net.quiet = true
		w.jwks[jku1] = w.jwks[athenzJWK]
		var at []time.Duration // requests for the first source
		ok := 0
		// the policies must not have been fetched before: they would be used again
		failing := k == 1
		w.answer = func(kind, name string, r *http.Request) *Ans {
			if kind != src.kind {
				return nil
			}
			if name == src.names[0] {
				at = append(at, x.Elapsed())
			}
			if failing {
				return []*Ans{status(500), netErr(), ok200("garbage", []byte("<"), "")}[mode]
			}
			if name == src.names[0] {
				ok++
			}
			return w.c21data(kind, name, ok%2)
		}
		if err := w.a.Init(background()); (err == nil) == failing {
			x.Failf("Init: %v", err)
		}
		failing = true
		start := w.a.Start
		effective := func() { w.c21effective(src.kind, ok%2) }
		if alone {
			switch k {
			case 0:
				d, err := pubkey.New(pubkey.WithAthenzURL(athenzURL), pubkey.WithHTTPClient(w.net.client()), pubkey.WithRefreshPeriod(src.period.String()), pubkey.WithRetryDelay(src.delay.String()))
				if err != nil {
					x.Failf("New: %v", err)
				}
				start = d.Start
				effective = func() {
					for i, id := range []string{"ec4", "rsa1"} {
						if got := d.GetProvider()(pubkey.EnvZTS, id) != nil; got != (ok%2 == i) {
							x.Failf("%s: key %s present %v after %d successful refreshes", text, id, got, ok)
						}
					}
				}
			case 1:
				d, err := policy.New(policy.WithAthenzURL(athenzURL), policy.WithAthenzDomains("d", "e"), policy.WithPubKeyProvider(realProvider), policy.WithHTTPClient(w.net.client()), policy.WithRefreshPeriod(src.period.String()), policy.WithRetryDelay(src.delay.String()), policy.WithRetryAttempts(src.retries))
				if err != nil {
					x.Failf("New: %v", err)
				}
				start = d.Start
				effective = func() {
					for i := 0; i < 2; i++ {
						if _, err := d.CheckPolicyRoles(background(), "d", []string{"r"}, fmt.Sprint("a", i), "x"); (err == nil) != (ok%2 == i) {
							x.Failf("%s: action a%d: %v after %d successful refreshes", text, i, err, ok)
						}
					}
				}
			case 2:
				d, err := jwk.New(jwk.WithAthenzJwksURL(athenzURL), jwk.WithURLs([]string{jku1}), jwk.WithHTTPClient(w.net.client()), jwk.WithRefreshPeriod(src.period.String()), jwk.WithRetryDelay(src.delay.String()))
				if err != nil {
					x.Failf("New: %v", err)
				}
				start = d.Start
				effective = func() {
					for i, id := range []string{"x1", "x2"} {
						if got := d.GetProvider()(id, "") != nil; got != (ok%2 == i) {
							x.Failf("%s: key %s present %v after %d successful refreshes", text, id, got, ok)
						}
					}
				}
			}
		}
		at, ok = nil, 0
		ctx, cancel := withCancel()
		ech := start(ctx)
		per := 1 + src.retries // requests of a refresh
		for end := x.Elapsed() + src.period + time.Duration(2*n*per+10)*src.delay; len(at) < n*per; {
			if x.Elapsed() > end {
				x.Failf("%s: only %d requests until %v: %v", text, len(at), x.Elapsed(), at[max(0, len(at)-3):])
			}
			vs.Sleep(src.delay)
		}
		for i := 1; i < len(at); i++ {
			if g := at[i] - at[i-1]; g > 2*src.delay {
				x.Failf("%s: %v between requests %d and %d, delay %v", text, g, i-1, i, src.delay)
			}
		}
		failing = false
		vs.Sleep(2*src.delay + time.Second)
		x.Settle()
		if ok == 0 {
			x.Failf("%s: no refresh within the delay after the server recovered", text)
		}
		effective()
		vs.Sleep(10*src.period + time.Second)
		x.Settle()
		if ok < 9 || ok > 12 {
			x.Failf("%s: %d refreshes in ten periods after the recovery", text, ok)
		}
		effective()
		read := 0
		rd := x.Spawn("reader", func() {
			for {
				if _, ok := vs.Recv2(ech); !ok {
					return
				}
				read++
			}
		})
		cancel()
		rd.Join()
		if read == 0 {
			x.Failf("%s: no report", text)
		}
		x.Eval(text)
	}})
	return out
}

// c21data is what refresh i of a source is answered.
func (w *authWorld) c21data(kind, name string, i int) *Ans {
	odd := i % 2
	switch kind {
	case rqPolicy:
		return ok200("doc", Doc{Domain: name, Expires: 1000 * day, Pols: []P{{{"r", fmt.Sprint("a", odd), name + ":x", "ALLOW"}}}}.cached(), "")
	case rqPubkey:
		id := []string{"ec4", "rsa1"}[odd]
		return ok200("keys", cachedBody("c21"+name+id, func() []byte {
			if name == "zts" {
				return pubkeyDoc("zts", "ec1", id)
			}
			return pubkeyDoc("zms", "ec2")
		}), "")
	}
	return ok200("jwks", cachedBody(fmt.Sprint("c21j", odd), func() []byte {
		return jwksDoc([]string{"x1=oct:first", "x2=oct:second"}[odd], "oct=oct:"+octSecret)
	}), "")
}

func (d Doc) cached() []byte { return cachedBody(fmt.Sprintf("real %+v", d), d.Real) }

// c21effective fails unless the data of refresh i is in force.
func (w *authWorld) c21effective(kind string, i int) {
	odd := i % 2
	now := w.x.Elapsed()
	try := func(sel int) error {
		switch kind {
		case rqPolicy: // checked without tokens or memory
			return w.a.VerifyRoleCert(background(), []*x509.Certificate{Crt{CN: "d:role.r"}.cert()}, fmt.Sprint("a", sel), "x")
		case rqPubkey:
			t := RT{Domain: "nodomain", Principal: "u", Roles: []string{"r"}, Issued: now, Expires: now + time.Hour, Key: []string{"ec4", "rsa1"}[sel]}
			_, err := w.a.AuthorizeRoleToken(background(), t.unsigned()+";s="+c14sign(t.Key, t.unsigned()), "a", "x")
			return err
		}
		kid := []string{"x1", "x2"}[sel]
		tok := signJWT(map[string]any{"typ": "JWT", "alg": "HS256", "kid": kid}, map[string]any{"aud": "nodomain", "sub": "u", "scp": []string{"r"}, "iss": "i", "exp": vs.Base.Add(now + time.Hour).Unix(), "iat": vs.Base.Unix()}, "HS256", []string{"hmac:first", "hmac:second"}[sel])
		_, err := w.a.AuthorizeAccessToken(background(), tok, "a", "x", nil)
		return err
	}
	for sel := 0; sel < 2; sel++ {
		err := try(sel)
		if kind != rqPolicy {
			// the token is genuine exactly if it is refused only by the policies
			if err != nil && errors.Is(err, policy.ErrNoMatch) {
				err = nil
			}
		}
		if (err == nil) != (sel == odd) {
			w.x.Failf("%s: after refresh %d: data %d: %v", kind, i, sel, err)
		}
	}
}
