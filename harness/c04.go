package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"strings"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"

	"vs"
)

func init() {
	register(&Check{
		ID:        "C04",
		Rule:      "every interleaving (bounded preemptions) of one or two refreshes, successful or failing, with checks; and every sequence of refreshes over a per-domain answer alphabet; distinct by decisions observed",
		Scenarios: c04,
	})
	register(&Check{
		ID:        "C05",
		Rule:      "every combination of expiry x signing key x named key x signed content x tampering for both signatures, with and without a document held before, and every single-byte mutation of a valid document; real signatures; reference: independent validity predicate",
		Scenarios: c05,
	})
	register(&Check{
		ID:        "C06",
		Rule:      "every sequence of server behaviours, refreshes and clock advances (to just before, at and just after the expiry of documents, over purge ticks) up to the depth bound, every version's decision checked after every step",
		Scenarios: c06,
	})
	register(&Check{
		ID:        "C07",
		Rule:      "every sequence of answers to the single attempts of up to 3 refreshes x clock advances between them x configurations; reference: explicit fetcher state machine (requests, ETags, held document, result)",
		Scenarios: c07,
	})
}

// ---- C04 ---------------------------------------------------------------------

// verDoc is a document whose decisions identify it: version v of a domain lets role r do "v<v>",
// every version denies "x" to r and allows it to s.
func verDoc(dom string, v int, exp time.Duration) Doc {
	return Doc{Domain: dom, Expires: exp, Pols: []P{
		{{"r", "a", fmt.Sprintf("%s:v%d", dom, v), "ALLOW"}, {"r", "x", dom + ":*", "ALLOW"}},
		{{"r", "*", fmt.Sprintf("%s:deny%d", dom, v), "DENY"}, {"s", "a", fmt.Sprintf("%s:v%d", dom, v), "ALLOW"}},
	}}
}

func c04(thorough bool) []*Scenario {
	var out []*Scenario
	old := Doc{Domain: "d", Expires: day, Pols: []P{{{"r", "a", "d:x", "ALLOW"}, {"s", "a", "d:y", "ALLOW"}}}}
	neu := Doc{Domain: "d", Expires: day, Pols: []P{{{"s", "a", "d:x", "ALLOW"}, {"r", "b", "d:z", "ALLOW"}}}}
	neu2 := Doc{Domain: "d", Expires: day, Pols: []P{{{"s", "a", "d:x", "DENY"}, {"r", "a", "d:x", "ALLOW"}, {"s", "a", "d:y", "ALLOW"}}}}
	other := Doc{Domain: "e", Expires: day, Pols: []P{{{"r", "a", "e:x", "ALLOW"}}}}
	// documents without, and with, a role which is allowed and one which is denied
	others := Doc{Domain: "d", Expires: day, Pols: []P{{{"t", "a", "d:x", "ALLOW"}}}}
	pair := Doc{Domain: "d", Expires: day, Pols: []P{{{"r", "a", "d:x", "ALLOW"}, {"s", "a", "d:*", "DENY"}}}}
	qs := []query{{"d", []string{"r", "s"}, "a", "x"}, {"d", []string{"r", "s"}, "a", "y"}}
	world := func(x *vs.Exec, docs ...Doc) *polWorld {
		w := newPolWorld(x, polCfg{attempts: 1, purge: "1000h"}, docs...)
		w.mustUpdate()
		return w
	}
	dec := func(d Doc, q query) Verdict { return refDecide(d.Asserts(), q.dom, q.roles, q.act, q.res) }

	// one successful refresh against checks
	refresh := func(name string, p, pt, sw int, from, to Doc, qs ...query) *Scenario {
		return &Scenario{Name: name, Cfg: concCfg, P: p, PT: pt, D: 1, DT: 1, S: sw, ST: sw + 1, Body: func(x *vs.Exec) {
			w := world(x, from)
			w.net.quiet = len(qs) == 1
			w.publish(to, "")
			finished := false
			u := x.Spawn("refresh", func() {
				if err := w.d.Update(background()); err != nil {
					x.Failf("refresh failed: %v", err)
				}
				finished = true
			})
			c := x.Spawn("check", func() {
				seen := ""
				for _, q := range qs {
					after := finished
					got := w.check(background(), q.dom, q.roles, q.act, q.res)
					o, n := dec(from, q), dec(to, q)
					switch {
					case after && got != n:
						x.Failf("check %s after the refresh returned: got %v, want %v", q, got, n)
					case got != o && got != n:
						x.Failf("check %s during the refresh: got %v, old %v, new %v", q, got, o, n)
					case seen == "new" && got != n:
						x.Failf("check %s: the older policies came back: got %v, want %v", q, got, n)
					}
					if got == n && got != o {
						seen = "new"
					}
					x.Outcome(fmt.Sprint(got))
				}
			})
			u.Join()
			c.Join()
			x.Quiet(func() {
				for _, q := range qs {
					if got := w.check(background(), q.dom, q.roles, q.act, q.res); got != dec(to, q) {
						x.Failf("check %s at the end: got %v, want %v", q, got, dec(to, q))
					}
				}
			})
		}}
	}
	out = append(out, refresh("refresh-check", 2, 3, 0, old, neu, qs[0]), refresh("refresh-check-deny", 2, 3, 0, neu, neu2, qs[0]),
		refresh("refresh-check-appear", 2, 3, 0, others, pair, query{"d", []string{"r", "s"}, "a", "x"}), refresh("refresh-check-vanish", 2, 3, 0, pair, others, query{"d", []string{"s", "r"}, "a", "x"}),
		refresh("refresh-two-checks", 1, 2, 1, old, neu, qs...), refresh("refresh-two-checks-deny", 1, 2, 1, neu, neu2, qs...))

	// a failing refresh against checks: nothing changes
	bad := Doc{Domain: "e", Expires: day, Pols: []P{{{"r", "a", "nodomain", "ALLOW"}}}}
	forged := rawOf(Doc{Domain: "e", Expires: day, ZTSKey: "ec9", Pols: other.Pols})
	fails := map[string]func(w *polWorld){
		"bad-assertion": func(w *polWorld) { w.publish(bad, "") },
	}
	for name, f := range fails {
		f := f
		out = append(out, &Scenario{Name: "failing-" + name, Cfg: concCfg, P: 1, PT: 2, D: 1, S: 1, ST: 2, Body: func(x *vs.Exec) {
			w := world(x, old, other)
			w.publish(neu, "")
			f(w)
			u := x.Spawn("refresh", func() {
				if err := w.d.Update(background()); err == nil {
					x.Failf("refresh reports success")
				}
			})
			q := qs[0]
			c := x.Spawn("check", func() {
				if got := w.check(background(), q.dom, q.roles, q.act, q.res); got != dec(old, q) {
					x.Failf("check %s during a failing refresh: got %v, want %v", q, got, dec(old, q))
				}
			})
			u.Join()
			c.Join()
			x.Quiet(func() {
				for _, q := range qs {
					if got := w.check(background(), q.dom, q.roles, q.act, q.res); got != dec(old, q) {
						x.Failf("check %s after a failing refresh: got %v, want %v", q, got, dec(old, q))
					}
				}
			})
		}})
	}

	// two refreshes: the data fetched last stays in force
	out = append(out, &Scenario{Name: "two-refreshes", Cfg: concCfg, P: 1, PT: 2, D: 1, DT: 1, S: 1, ST: 2, Body: func(x *vs.Exec) {
		w := world(x, old)
		served := 0
		w.answer = func(dom string, r *http.Request) *Ans {
			served++
			if served == 1 {
				return ok200("v1", rawOf(neu), "")
			}
			return ok200("v2", rawOf(neu2), "")
		}
		vers := []Doc{old, neu, neu2}
		q := qs[0]
		done := 0 // highest version which a completed refresh must have put in force
		one := func() {
			if err := w.d.Update(background()); err != nil {
				x.Failf("refresh failed: %v", err)
			}
			done++
		}
		a, b := x.Spawn("refresh1", one), x.Spawn("refresh2", one)
		c := x.Spawn("check", func() {
			from := done
			got := w.check(background(), q.dom, q.roles, q.act, q.res)
			ok := false
			for _, v := range vers[from:] {
				ok = ok || got == dec(v, q)
			}
			if !ok {
				x.Failf("check after %d completed refreshes: got %v", from, got)
			}
			x.Outcome(fmt.Sprint(got))
		})
		a.Join()
		b.Join()
		c.Join()
		x.Quiet(func() {
			if got := w.check(background(), q.dom, q.roles, q.act, q.res); got != dec(neu2, q) {
				x.Failf("after two refreshes: got %v, want the decision of the document fetched last %v", got, dec(neu2, q))
			}
		})
	}})

	// sequences: each domain's answer per refresh
	depth := 3
	if thorough {
		depth = 4
	}
	out = append(out, &Scenario{Name: "sequences", Cfg: seqCfg, Body: func(x *vs.Exec) {
		w := newPolWorld(x, polCfg{attempts: 1, purge: "1000h", domains: []string{"d", "e"}})
		w.net.quiet = true
		type st struct {
			held   int // version held by the fetcher, 0 none
			bad    bool
			active int // version in force
		}
		s := map[string]*st{"d": {}, "e": {}}
		ans := map[string]int{}
		next := 0
		w.answer = func(dom string, r *http.Request) *Ans {
			switch ans[dom] {
			case 0: // newer document
				return ok200("doc", rawOf(verDoc(dom, next, day)), "")
			case 1:
				return status(503)
			case 2: // verified, but with an assertion which cannot be loaded
				d := verDoc(dom, next, day)
				d.Pols = append(d.Pols, P{{"r", "a", "nodomain", "ALLOW"}})
				return ok200("bad", rawOf(d), "")
			case 3:
				return ok200("forged", forged, "")
			}
			return netErr()
		}
		n := 4
		trace := ""
		for i := 0; i < depth; i++ {
			next = i + 1
			fail := false
			for _, dom := range []string{"d", "e"} {
				ans[dom] = x.Choose(n)
				t := s[dom]
				switch ans[dom] {
				case 0:
					t.held, t.bad = next, false
				case 2:
					t.held, t.bad = next, true
				}
				if t.held == 0 || t.bad {
					fail = true
				}
			}
			trace += fmt.Sprint(ans["d"], ans["e"], " ")
			err := w.d.Update(background())
			if (err != nil) != fail {
				x.Failf("refreshes %s: result %v, want failure=%v", trace, err, fail)
			}
			if !fail {
				s["d"].active, s["e"].active = s["d"].held, s["e"].held
			}
			for _, dom := range []string{"d", "e"} {
				for v := 1; v <= depth; v++ {
					want := Verdict{Kind: "nomatch"}
					if v == s[dom].active {
						want = Verdict{"allow", "r|s"}
					}
					if got := w.check(background(), dom, []string{"r", "s"}, "a", fmt.Sprintf("v%d", v)); got != want {
						x.Failf("refreshes %s: domain %s version %d: got %v, want %v", trace, dom, v, got, want)
					}
					x.Evals(1)
				}
			}
			x.Eval(trace)
		}
	}})
	return append(out, genSizes(thorough, false))
}

// ---- C05 ---------------------------------------------------------------------

var c05keys = map[pubkey.AthenzEnv][]string{pubkey.EnvZTS: {"ec1", "rsa1"}, pubkey.EnvZMS: {"ec2", "rsa2"}}
var verCache = map[string]authcore.Verifier{}

func verifierOf(key string) authcore.Verifier {
	if v := verCache[key]; v != nil {
		return v
	}
	v, err := authcore.NewVerifier(getKey(key).pubPEM)
	if err != nil {
		panic(err)
	}
	verCache[key] = v
	return v
}

func realProvider(env pubkey.AthenzEnv, id string) authcore.Verifier {
	for _, k := range c05keys[env] {
		if k == id {
			return verifierOf(k)
		}
	}
	return nil
}

// refValid is the reference validity predicate of a document.
func refValid(raw []byte, now time.Time) (*util.SignedPolicyData, bool) {
	var d util.DomainSignedPolicyData
	if json.NewDecoder(strings.NewReader(string(raw))).Decode(&d) != nil {
		return nil, false
	}
	s := d.SignedPolicyData
	if s == nil || s.PolicyData == nil || s.Expires == nil || !s.Expires.Time.After(now) {
		return nil, false
	}
	spd, _ := json.Marshal(s)
	pd, _ := json.Marshal(s.PolicyData)
	zv, mv := realProvider(pubkey.EnvZTS, d.KeyId), realProvider(pubkey.EnvZMS, s.ZmsKeyId)
	if zv == nil || mv == nil || zv.Verify(string(spd), d.Signature) != nil || mv.Verify(string(pd), s.ZmsSignature) != nil {
		return nil, false
	}
	return s, true
}

func assertsOf(s *util.SignedPolicyData) []A {
	var out []A
	if s == nil || s.PolicyData == nil {
		return nil
	}
	for _, p := range s.PolicyData.Policies {
		if p == nil {
			continue
		}
		for _, a := range p.Assertions {
			if a != nil {
				out = append(out, A{a.Role, a.Action, a.Resource, a.Effect})
			}
		}
	}
	return out
}

// docCase serves raw to a daemon holding `held` (or nothing) and checks what is in force.
func docCase(x *vs.Exec, what string, raw []byte, held *Doc) {
	w := &polWorld{x: x, docs: map[string]*pubDoc{}}
	var inm string
	stage := 0
	w.net = newNet(x, func(r *http.Request) *Ans {
		inm = r.Header.Get("If-None-Match")
		if stage == 0 {
			return ok200("held", held.Real(), "held")
		}
		return ok200("doc", raw, "tampered")
	})
	w.net.quiet = true
	var err error
	w.d, err = policy.New(policy.WithAthenzURL(athenzURL), policy.WithAthenzDomains("d"), policy.WithPubKeyProvider(realProvider),
		policy.WithHTTPClient(w.net.client()), policy.WithRetryAttempts(1), policy.WithExpiryMargin("1m"), policy.WithRetryDelay("1ms"))
	if err != nil {
		x.Failf("policy.New: %v", err)
	}
	if held != nil {
		if err := w.d.Update(background()); err != nil {
			x.Failf("held document does not load: %v", err)
		}
	}
	stage = 1
	sp, valid := refValid(raw, vs.Now())
	err = w.d.Update(background())
	var as []A
	tag := ""
	switch {
	case valid:
		as, tag = assertsOf(sp), "tampered"
		if err != nil {
			x.Label("document", string(raw))
			x.Failf("%s: a valid document is refused: %v", what, err)
		}
	case held != nil:
		as, tag = held.Asserts(), "held"
	default:
		if err == nil {
			x.Label("document", string(raw))
			x.Failf("%s: an invalid document is loaded without error", what)
		}
	}
	for _, r := range []string{"r", "s", "q"} {
		for _, res := range []string{"x", "y", "h"} {
			got := w.check(background(), "d", []string{r}, "a", res)
			if want := refDecide(as, "d", []string{r}, "a", res); got != want {
				x.Label("document", string(raw))
				x.Failf("%s (valid=%v, held=%v): check role %s resource %s: got %v, want %v", what, valid, held != nil, r, res, got, want)
			}
		}
	}
	// the entity tag of a rejected document is never used
	if err == nil {
		w.d.Update(background())
		if inm != tag && !(valid && sp.Expires.Time.Sub(vs.Now()) <= time.Minute && inm == "") {
			x.Failf("%s (valid=%v, held=%v): the next request carries If-None-Match %q, want %q", what, valid, held != nil, inm, tag)
		}
	}
	k := ""
	if valid || held != nil {
		k = what
	}
	x.Eval(k)
}

func c05(thorough bool) []*Scenario {
	base := Doc{Domain: "d", Expires: day, Pols: []P{{{"r", "a", "d:x", "ALLOW"}, {"s", "a", "d:*", "ALLOW"}}, {{"s", "a", "d:y", "DENY"}}}}
	held := Doc{Domain: "d", Expires: day, Pols: []P{{{"q", "a", "d:h", "ALLOW"}}}}
	exps := []string{"2024-03-02T12:00:00.000Z", "2024-03-01T12:00:00.001Z", "2024-03-01T12:00:00.000Z", "2024-03-01T11:59:59.999Z", "2023-03-02T12:00:00.000Z", "not a time", "", "-", "null"}
	keysZ := []string{"ec1", "rsa1", "ec2", "ec9", ""}
	signers := []string{"named", "ec1", "ec2", "rsa1", "ec3", "none", "flip", "cut", "data"}
	out := []*Scenario{{Name: "combinations", Cfg: seqCfg, Body: func(x *vs.Exec) {
		e, zk, zs := exps[x.Choose(len(exps))], keysZ[x.Choose(len(keysZ))], signers[x.Choose(len(signers))]
		mkeys := []string{"ec2", "rsa2", "ec1", "ec9", ""}
		for _, mk := range mkeys {
			for _, ms := range signers {
				for _, tamper := range []string{"", "effect", "drop", "empty", "nodata"} {
					what := fmt.Sprintf("expires=%s zts=%s/%s zms=%s/%s tamper=%s", e, zk, zs, mk, ms, tamper)
					raw := buildDoc(base, e, zk, zs, mk, ms, tamper)
					docCase(x, what, raw, nil)
					docCase(x, what, raw, &held)
				}
			}
		}
	}}}
	rawBase := base.Real()
	step := 3
	if thorough {
		step = 1
	}
	out = append(out, &Scenario{Name: "byte-mutations", Cfg: seqCfg, Body: func(x *vs.Exec) {
		k := x.Choose(16)
		for i := k; i < len(rawBase); i += 16 {
			for j, c := range []byte{'x', '"', '0', rawBase[i] ^ 1, rawBase[i] ^ 0x20, ',', 0} {
				if c == rawBase[i] || j%step != 0 && step > 1 {
					continue
				}
				raw := append([]byte(nil), rawBase...)
				what := fmt.Sprintf("byte %d %q -> %q", i, raw[i], c)
				raw[i] = c
				if c == 0 {
					raw = append(raw[:i:i], rawBase[i+1:]...)
				}
				docCase(x, what, raw, nil)
				if j == 0 {
					docCase(x, what, raw, &held)
					docCase(x, what, raw, &base) // the very document is in force, its signatures are known
				}
			}
		}
	}})
	// documents following one another: what was verified before has no influence on what follows
	type named struct {
		name string
		raw  []byte
	}
	edit := func(raw []byte, f func(m, d map[string]any)) []byte {
		m := map[string]any{}
		if err := json.Unmarshal(raw, &m); err != nil {
			panic(err)
		}
		f(m, m["signedPolicyData"].(map[string]any))
		b, err := json.Marshal(m)
		if err != nil {
			panic(err)
		}
		return b
	}
	rb, rh := base.Real(), held.Real()
	var mb, mh map[string]any
	json.Unmarshal(rb, &mb)
	json.Unmarshal(rh, &mh)
	bd, hd := mb["signedPolicyData"].(map[string]any), mh["signedPolicyData"].(map[string]any)
	soon := Doc{Domain: "d", Expires: 2 * time.Minute, Pols: []P{{{"r", "a", "d:y", "ALLOW"}}}}
	docs := []named{
		{"base", rb},
		{"held", rh},
		{"soon", soon.Real()},
		{"base envelope signature on held", edit(rh, func(m, d map[string]any) { m["signature"] = mb["signature"] })},
		{"base signatures on held", edit(rh, func(m, d map[string]any) { m["signature"] = mb["signature"]; d["zmsSignature"] = bd["zmsSignature"] })},
		{"held policies in base", edit(rb, func(m, d map[string]any) { d["policyData"] = hd["policyData"] })},
		{"held policies and signature in base", edit(rb, func(m, d map[string]any) {
			d["policyData"] = hd["policyData"]
			d["zmsSignature"] = hd["zmsSignature"]
		})},
		{"base, later expiry", edit(rb, func(m, d map[string]any) { d["expires"] = "2024-03-09T12:00:00.000Z" })},
		{"base, past expiry", buildDoc(base, "2024-03-01T11:59:59.999Z", "ec1", "named", "ec2", "named", "")},
		{"base, denial dropped, envelope signed", buildDoc(base, "2024-03-02T12:00:00.000Z", "ec1", "named", "ec2", "named", "drop")},
		{"base, denial made an allowance", edit(rb, func(m, d map[string]any) {
			d["policyData"].(map[string]any)["policies"].([]any)[1].(map[string]any)["assertions"].([]any)[0].(map[string]any)["effect"] = "ALLOW"
		})},
		{"base, another key", edit(rb, func(m, d map[string]any) { m["keyId"] = "rsa1" })},
		{"base, another zms key", edit(rb, func(m, d map[string]any) { d["zmsKeyId"] = "rsa2" })},
		{"base, unsigned", edit(rb, func(m, d map[string]any) { m["signature"] = ""; d["zmsSignature"] = "" })},
	}
	depth := 3
	if thorough {
		depth = 4
	}
	out = append(out, &Scenario{Name: "histories", Cfg: seqCfg, Body: func(x *vs.Exec) {
		first := x.Choose(len(docs))
		idx := make([]int, depth)
		idx[0] = first
		n := 1
		for i := 1; i < depth; i++ {
			n *= len(docs)
		}
		for k := 0; k < n; k++ {
			for i, v := 1, k; i < depth; i, v = i+1, v/len(docs) {
				idx[i] = v % len(docs)
			}
			for tags := 0; tags < 3; tags++ { // entity tags: one each, none, the same for all
				cur, what := 0, ""
				w := &polWorld{x: x, docs: map[string]*pubDoc{}}
				w.net = newNet(x, func(r *http.Request) *Ans {
					tag := ""
					switch tags {
					case 0:
						tag = fmt.Sprint("t", cur)
					case 2:
						tag = "t"
					}
					return ok200(docs[cur].name, docs[cur].raw, tag)
				})
				w.net.quiet = true
				var err error
				w.d, err = policy.New(policy.WithAthenzURL(athenzURL), policy.WithAthenzDomains("d"), policy.WithPubKeyProvider(realProvider),
					policy.WithHTTPClient(w.net.client()), policy.WithRetryAttempts(1), policy.WithExpiryMargin("1m"), policy.WithRetryDelay("1ms"))
				if err != nil {
					x.Failf("policy.New: %v", err)
				}
				ctx, cancel := withCancel()
				var as []A
				have := false
				for _, i := range idx {
					cur = i
					what += docs[i].name + "; "
					sp, valid := refValid(docs[i].raw, vs.Now())
					err := w.d.Update(ctx)
					if valid {
						as, have = assertsOf(sp), true
					}
					if have != (err == nil) {
						x.Failf("%s the last refresh returns %v", what, err)
					}
					for _, r := range []string{"r", "s", "q"} {
						for _, res := range []string{"x", "y", "h"} {
							got := w.check(background(), "d", []string{r}, "a", res)
							if want := refDecide(as, "d", []string{r}, "a", res); got != want {
								x.Failf("%s role %s resource %s: got %v, want %v", what, r, res, got, want)
							}
						}
					}
				}
				cancel()
				x.Settle()
				x.Evals(1)
			}
		}
		x.Eval(docs[first].name)
	}})
	return out
}

func signWith(signer, named, data, otherData string) string {
	switch signer {
	case "named":
		if _, ok := keyPEM[named]; !ok {
			return ""
		}
		return realSign(named, data)
	case "none":
		return ""
	case "flip":
		s := []byte(realSign(mustKey(named), data))
		s[len(s)/2] ^= 1
		return string(s)
	case "cut":
		s := realSign(mustKey(named), data)
		return s[:len(s)-6]
	case "data":
		return realSign(mustKey(named), otherData)
	}
	return realSign(signer, data)
}

func mustKey(k string) string {
	if _, ok := keyPEM[k]; ok {
		return k
	}
	return "ec1"
}

func buildDoc(d Doc, expires, zk, zs, mk, ms, tamper string) []byte {
	s := d.data()
	pd, _ := json.Marshal(s.PolicyData)
	s.ZmsKeyId = mk
	s.ZmsSignature = signWith(ms, mk, string(pd), string(pd)+" ")
	tampered := func() {
		switch tamper {
		case "effect":
			s.PolicyData.Policies[1].Assertions[0].Effect = "ALLOW"
		case "drop":
			s.PolicyData.Policies = s.PolicyData.Policies[:1]
		case "empty":
			s.PolicyData.Policies = s.PolicyData.Policies[:0]
		case "nodata":
			s.PolicyData = nil
		}
	}
	tampered() // the envelope is signed over the tampered data
	setExp := func() ([]byte, string) {
		b, _ := json.Marshal(s)
		m := map[string]json.RawMessage{}
		json.Unmarshal(b, &m)
		switch expires {
		case "-":
			delete(m, "expires")
		case "null":
			m["expires"] = json.RawMessage("null")
		default:
			m["expires"], _ = json.Marshal(expires)
		}
		b, _ = json.Marshal(m)
		// what a receiver signs over: the decoded and re-encoded form
		var t util.SignedPolicyData
		json.Unmarshal(b, &t)
		c, _ := json.Marshal(&t)
		return b, string(c)
	}
	body, signed := setExp()
	sig := signWith(zs, zk, signed, signed+" ")
	out, _ := json.Marshal(map[string]any{"keyId": zk, "signature": sig, "signedPolicyData": json.RawMessage(body)})
	return out
}

// ---- C06 ---------------------------------------------------------------------

func c06(thorough bool) []*Scenario {
	depth := 5
	if thorough {
		depth = 6
	}
	mk := func(name string, depth int, purge string, attempts int) *Scenario {
		return &Scenario{Name: name, Cfg: seqCfg, Body: func(x *vs.Exec) {
			w := newPolWorld(x, polCfg{attempts: attempts, purge: purge, margin: "20m", delay: "1s", domains: []string{"d"}})
			w.net.quiet = true
			ctx, cancel := withCancel()
			mode := 0
			ver := 0
			exp := map[int]time.Duration{} // expiry of each document delivered
			last := 0                      // version last delivered
			maxv := 0
			deliver := func(life time.Duration) *Ans {
				ver++
				maxv = max(maxv, ver)
				e := (x.Elapsed() + life).Truncate(time.Millisecond)
				exp[ver] = e
				last = ver
				return ok200(fmt.Sprintf("v%d", ver), verDoc("d", ver, e).Raw(), fmt.Sprintf("e%d", ver))
			}
			w.answer = func(dom string, r *http.Request) *Ans {
				switch mode {
				case 0:
					return deliver(time.Hour)
				case 1:
					return status(304)
				case 2:
					return status(500)
				case 3: // an expired document
					ver++
					exp[ver] = x.Elapsed() - time.Millisecond
					maxv = max(maxv, ver)
					return ok200("stale", verDoc("d", ver, exp[ver]).Raw(), "")
				}
				return deliver(2 * time.Hour)
			}
			trace := ""
			check := func() {
				now := x.Elapsed()
				for v := max(1, maxv-6); v <= maxv; v++ {
					got := w.check(background(), "d", []string{"r"}, "a", fmt.Sprintf("v%d", v))
					if got.Kind == "allow" && now > exp[v] {
						x.Failf("%s: at %v a request is granted by document v%d which expired at %v", trace, now, v, exp[v])
					}
					x.Evals(1)
				}
				x.Settle()
			}
			for i := 0; i < depth; i++ {
				switch ev := x.Choose(7); ev {
				case 0, 1, 2, 3, 4: // the server changes its behaviour; refresh
					mode = ev
					before := ver
					err := w.d.Update(ctx)
					trace += fmt.Sprintf("refresh(mode %d, err=%v) ", mode, err != nil)
					if (mode == 0 || mode == 4) && err != nil {
						x.Failf("%s: refresh with a valid document fails: %v", trace, err)
					}
					if err == nil && ver > before && (mode == 0 || mode == 4) {
						if got := w.check(background(), "d", []string{"r"}, "a", fmt.Sprintf("v%d", last)); got.Kind != "allow" {
							x.Failf("%s: document v%d just loaded is not in force: %v", trace, last, got)
						}
					}
				case 5: // to just after the expiry of the last document delivered, else half an hour
					d := 30 * time.Minute
					if last > 0 && exp[last] >= x.Elapsed() {
						d = exp[last] - x.Elapsed() + time.Nanosecond
					}
					vs.Sleep(d)
					trace += "expire "
				case 6:
					d := 30 * time.Minute
					if last > 0 && exp[last] > x.Elapsed()+time.Nanosecond {
						d = (exp[last] - x.Elapsed()) / 2
					}
					vs.Sleep(d)
					trace += "half "
				}
				check()
				check()
			}
			// long after everything has expired nothing is granted, unless a newer document is obtained
			mode = 2
			vs.Sleep(3 * time.Hour)
			check()
			x.Eval(trace)
			cancel()
		}}
	}
	return []*Scenario{c06shapes(thorough), c06ages(thorough), mk("sequences", depth, "1000h", 1), mk("sequences-purging", depth, "25m", 1), mk("sequences-retries", depth-1, "1000h", 3)}
}

// c06shapes: documents of every small shape and lifetime, probed around their expiry.
func c06shapes(thorough bool) *Scenario {
	lines := []A{{"r", "a", "d:x", "ALLOW"}, {"r", "b", "d:x", "ALLOW"}, {"r", "*", "d:z", "DENY"}, {"s", "a", "d:*", "ALLOW"}}
	lives := []time.Duration{time.Millisecond, 999 * time.Millisecond, time.Second, 1500 * time.Millisecond, 10 * time.Second, 29 * time.Second, 30 * time.Second, 31 * time.Second, time.Minute, 10 * time.Minute, time.Hour, 25 * time.Hour, 720 * time.Hour}
	qs := []query{{"d", []string{"r"}, "a", "x"}, {"d", []string{"r"}, "b", "x"}, {"d", []string{"r"}, "a", "z"}, {"d", []string{"s"}, "a", "x"}, {"d", []string{"r", "s"}, "a", "x"}}
	return &Scenario{Name: "shapes", Cfg: seqCfg, Body: func(x *vs.Exec) {
		set := 1 + x.Choose(1<<len(lines)-1)
		split := x.Choose(2) == 1
		purging := x.Choose(2) == 1
		for _, life := range lives {
			purge := "1000h"
			if purging {
				purge = max(7*time.Second, life/9).String()
			}
			w := newPolWorld(x, polCfg{attempts: 1, purge: purge, margin: "20m", delay: "1s", domains: []string{"d"}})
			w.net.quiet = true
			t0 := x.Elapsed()
			exp := (t0 + life).Truncate(time.Millisecond)
			d := Doc{Domain: "d", Expires: exp}
			var cur P
			for i, l := range lines {
				if set>>i&1 == 1 {
					cur = append(cur, l)
					if split {
						d.Pols, cur = append(d.Pols, cur), nil
					}
				}
			}
			if cur != nil {
				d.Pols = append(d.Pols, cur)
			}
			gone := false
			w.answer = func(string, *http.Request) *Ans {
				if gone {
					return status(500)
				}
				return ok200("doc", d.Raw(), "tag")
			}
			ctx, cancel := withCancel()
			if err := w.d.Update(ctx); err != nil {
				if x.Elapsed() < exp {
					x.Failf("lifetime %v: refresh with a valid document fails: %v", life, err)
				}
				cancel()
				continue
			}
			gone = true
			for _, at := range []time.Duration{t0, t0 + life/2, exp - time.Millisecond, exp, exp + time.Nanosecond, exp + time.Millisecond, exp + time.Second, exp + 29*time.Second, exp + 31*time.Second, exp + 10*time.Minute, exp + 800*time.Hour} {
				if purging && at > exp+time.Hour {
					break
				}
				if at > x.Elapsed() {
					vs.Sleep(at - x.Elapsed())
				}
				for _, q := range qs {
					now := x.Elapsed()
					got := w.check(background(), q.dom, q.roles, q.act, q.res)
					want := refDecide(d.Asserts(), q.dom, q.roles, q.act, q.res)
					if got.Kind == "allow" && now > exp {
						x.Failf("shape %b, lifetime %v: at %v after the expiry %v is granted", set, life, now-exp, q)
					}
					if now < exp && x.Elapsed() < exp && got.Kind != want.Kind {
						x.Failf("shape %b, lifetime %v: at %v before the expiry %v: %v, want %v", set, life, exp-now, q, got, want)
					}
					x.Evals(1)
				}
				x.Settle()
			}
			cancel()
			x.Settle()
		}
		x.Eval(fmt.Sprint(set, split, purging))
	}}
}

// c06ages: documents which expired any time ago, served, or kept from before, with and without retries.
func c06ages(thorough bool) *Scenario {
	ages := []time.Duration{-time.Hour, -time.Minute, time.Millisecond, time.Second, 29 * time.Second, 31 * time.Second, time.Minute, 10 * time.Minute, 59 * time.Minute, 61 * time.Minute, 3 * time.Hour, 25 * time.Hour, 8 * 24 * time.Hour, 40 * 24 * time.Hour, 400 * 24 * time.Hour, 4000 * 24 * time.Hour}
	return &Scenario{Name: "ages", Cfg: seqCfg, Body: func(x *vs.Exec) {
		attempts := []int{1, 2, 3, 4, 5, 8}[x.Choose(6)]
		kept := x.Choose(3)   // nothing held, a live document held, the very document held while it was valid
		served := x.Choose(4) // document, not modified, failure, failures and then the document
		for _, age := range ages {
			w := newPolWorld(x, polCfg{attempts: attempts, purge: "100000h", margin: "20m", delay: "1s", domains: []string{"d"}})
			w.net.quiet = true
			ctx, cancel := withCancel()
			t0 := x.Elapsed()
			exp := (t0 + time.Second - age).Truncate(time.Millisecond) // of the document
			if kept == 2 {
				if age < 0 {
					cancel()
					continue
				}
				exp = (t0 + time.Hour).Truncate(time.Millisecond)
			}
			old := verDoc("d", 1, (t0 + 100000*time.Hour).Truncate(time.Millisecond))
			doc := verDoc("d", 2, exp)
			n, mode := 0, -1
			w.answer = func(string, *http.Request) *Ans {
				n++
				switch {
				case mode < 0 && kept == 1:
					return ok200("old", old.Raw(), "t1")
				case mode < 0 || mode == 0 || mode == 3 && n > attempts:
					return ok200("doc", doc.Raw(), "t2")
				case mode == 1:
					return status(304)
				}
				return status(500)
			}
			in := 0
			if kept > 0 {
				w.mustUpdate()
				in = kept
			}
			if kept == 2 {
				vs.Sleep(exp + age - x.Elapsed())
			}
			mode, n = served, 0
			err := w.d.Update(ctx)
			live := x.Elapsed() < exp
			switch {
			case served == 0 || served == 3:
				if live {
					in = 2
				}
			}
			if want := in == 1 || in == 2 && live; want != (err == nil) {
				x.Failf("attempts %d, held %d, served %d, expired %v ago: refresh returns %v", attempts, kept, served, age, err)
			}
			for round := 0; round < 2; round++ {
				for v := 1; v <= 2; v++ {
					got := w.check(background(), "d", []string{"r"}, "a", fmt.Sprintf("v%d", v))
					want := v == in && (v == 1 || x.Elapsed() < exp)
					if (got.Kind == "allow") != want {
						x.Failf("attempts %d, held %d, served %d, expired %v ago, round %d: document %d: %v, want granted=%v", attempts, kept, served, age, round, v, got, want)
					}
				}
				vs.Sleep(2 * time.Hour)
			}
			cancel()
			x.Settle()
			x.Eval(fmt.Sprint(attempts, kept, served, age))
		}
	}}
}

// ---- C07 ---------------------------------------------------------------------

func c07(thorough bool) []*Scenario {
	type cfg struct {
		attempts int
		refr     int
		margin   string
		alpha    []int
		jumps    int
	}
	full := []int{0, 1, 2, 3, 4, 5, 6, 7}
	mk := func(name string, c cfg) *Scenario {
		margin, _ := time.ParseDuration(c.margin)
		return &Scenario{Name: name, Cfg: seqCfg, Body: func(x *vs.Exec) {
			w := newPolWorld(x, polCfg{attempts: c.attempts, margin: c.margin, delay: "1s", purge: "1000h", domains: []string{"d"}})
			w.net.quiet = true
			max := 1 + c.attempts
			type doc struct {
				v    int
				etag string
				exp  time.Duration
			}
			var held *doc
			ver, n := 0, 0
			stopped := false
			usable := false
			lenient := false // not modified, but the document held has expired: may or may not be tried again
			trace := ""
			active := 0
			w.answer = func(dom string, r *http.Request) *Ans {
				n++
				if stopped {
					x.Failf("%s: a request after a usable answer", trace)
				}
				if n > max {
					x.Failf("%s: %d requests in one refresh, at most %d allowed", trace, n, max)
				}
				now := x.Elapsed()
				inm := r.Header.Get("If-None-Match")
				want := ""
				if held != nil && held.etag != "" && now < held.exp-margin {
					want = held.etag
				}
				if inm != want && !(held != nil && now == held.exp-margin) {
					x.Failf("%s: If-None-Match %q, want %q", trace, inm, want)
				}
				a := c.alpha[x.Choose(len(c.alpha))]
				trace += fmt.Sprintf("%d", a)
				give := func(etag string, life time.Duration) *Ans {
					ver++
					held = &doc{ver, etag, (now + life).Truncate(time.Millisecond)}
					stopped, usable = true, true
					return ok200(fmt.Sprintf("v%d", ver), verDoc("d", ver, held.exp).Raw(), etag)
				}
				switch a {
				case 0:
					return give(fmt.Sprintf("\"e%d\"", ver+1), 4*time.Hour)
				case 1:
					return give("", 4*time.Hour)
				case 2:
					if held != nil && held.exp > now {
						stopped, usable = true, true
					}
					lenient = lenient || held != nil
					return status(304)
				case 3:
					return status(404)
				case 4:
					return netErr()
				case 5:
					return ok200("badjson", []byte(`{"signedPolicyData":`), "bad")
				case 6: // document which does not verify
					d := verDoc("d", 99, now+day)
					d.ZMSKey = "ec1"
					return ok200("forged", d.Raw(), "forged")
				case 7: // already expired
					return ok200("stale", verDoc("d", 98, now-time.Second).Raw(), "stale")
				case 8:
					d := verDoc("d", 97, now+day)
					return &Ans{Status: 201, Body: d.Raw(), Hdr: map[string]string{"ETag": "x"}, Name: "201"}
				case 9:
					d := verDoc("d", 96, now+day)
					return &Ans{Status: 203, Body: d.Raw(), Hdr: map[string]string{"ETag": "x"}, Name: "203"}
				case 10:
					d := verDoc("d", 95, now+day)
					return &Ans{Status: 206, Body: d.Raw(), Hdr: map[string]string{"ETag": "x"}, Name: "206"}
				case 11:
					d := verDoc("d", 94, now+day)
					return &Ans{Status: 503, Body: d.Raw(), Hdr: map[string]string{"ETag": "x"}, Name: "503"}
				case 12:
					return &Ans{Status: 204, Name: "204"}
				case 13: // short-lived
					return give("\"s\"", 30*time.Minute)
				case 15: // not modified, but with a tag other than that of the document held
					if held != nil && held.exp > now {
						stopped, usable = true, true
					}
					lenient = lenient || held != nil
					return &Ans{Status: 304, Hdr: map[string]string{"ETag": fmt.Sprintf("\"e%d\"", ver+1)}, Name: "304 other tag"}
				case 16: // a document with the tag of the one before
					return give(fmt.Sprintf("\"e%d\"", ver), 4*time.Hour)
				case 17: // a failure with a tag
					return &Ans{Status: 500, Hdr: map[string]string{"ETag": fmt.Sprintf("\"e%d\"", ver+1)}, Name: "500 with tag"}
				case 14: // body breaks off
					d := verDoc("d", 93, now+day)
					b := d.Raw()
					return &Ans{Status: 200, Body: b[:len(b)/2], BodyErr: errNet, Name: "broken"}
				}
				return nil
			}
			for i := 0; i < c.refr; i++ {
				if i > 0 {
					// between refreshes: nothing, beyond the margin, beyond the expiry
					switch x.Choose(c.jumps) {
					case 1:
						vs.Sleep(3*time.Hour + time.Minute)
						trace += "m"
					case 2:
						vs.Sleep(4*time.Hour + time.Second)
						trace += "x"
					}
				}
				trace += " refresh:"
				n, stopped, usable, lenient = 0, false, false, false
				// the context ends with the refresh: no re-fetching in the background
				ctx, cancel := withCancel()
				err := w.d.Update(ctx)
				cancel()
				x.Settle()
				now := x.Elapsed()
				want := usable || held != nil && held.exp > now
				if want != (err == nil) {
					x.Failf("%s: refresh result %v, want success=%v (held %+v, now %v)", trace, err, want, held, now)
				}
				if !usable && n != max && !lenient {
					x.Failf("%s: %d requests, want %d when none is usable", trace, n, max)
				}
				if err == nil {
					active = held.v
				}
				for v := 1; v <= ver; v++ {
					ok := v == active && held != nil && (held.v != v || held.exp >= now)
					got := w.check(background(), "d", []string{"r"}, "a", fmt.Sprintf("v%d", v))
					if ok && got.Kind != "allow" && held.exp != now || v != active && got.Kind == "allow" {
						x.Failf("%s: version %d in force=%v, check says %v", trace, v, ok, got)
					}
				}
				for v := 93; v <= 99; v++ {
					if got := w.check(background(), "d", []string{"r"}, "a", fmt.Sprintf("v%d", v)); got.Kind == "allow" {
						x.Failf("%s: a request is granted by an unusable answer (%d)", trace, v)
					}
				}
				x.Eval(trace)
			}
		}}
	}
	d := 3
	if thorough {
		d = 4
	}
	return []*Scenario{
		mk("one-retry", cfg{1, d - 1, "1h", full, 3}),
		mk("many-retries", cfg{8, 2, "1h", []int{0, 3}, 3}),
		mk("five-retries", cfg{5, 2, "1h", []int{0, 3, 4}, 3}),
		mk("retry-bounds", cfg{20, 1, "1h", []int{3, 0}, 1}),
		mk("two-retries", cfg{2, d - 1, "1h", []int{0, 2, 3, 4, 6}, 3}),
		mk("statuses", cfg{1, 2, "1h", []int{0, 1, 2, 8, 9, 10, 11, 12, 14}, 3}),
		mk("lifetimes", cfg{1, d, "1h", []int{0, 2, 3, 13}, 3}),
		mk("tags", cfg{1, d - 1, "1h", []int{0, 1, 2, 15, 16, 17}, 2}),
		mk("tags-histories", cfg{1, d, "1h", []int{0, 15, 16, 17}, 2}),
		mk("margin-zero", cfg{1, d, "0s", []int{0, 1, 2, 3}, 3}),
		c07kinds(), c07tags(),
	}
}
