package main

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"syscall"
	"time"

	authz "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/client"
	"github.com/yahoojapan/athenz-authorizer/v5/jwk"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"

	"vs"
	vc "vs/context"
)

func init() {
	register(&Check{
		ID:        "C31",
		Rule:      "every status x body shape x way of reading the body failing, at every request of a refresh, with and without data held, to each kind of request, directly and through the retrying transport; every sequence of answers over several refreshes; cancellation at every point of a refresh under all interleavings up to a preemption bound; then: no response body is open once the refresh has returned, none is read after it was closed",
		Scenarios: c31,
	})
}

// open lists the bodies that are open, or were read after having been closed.
func (n *Net) open() string {
	s := ""
	for i, b := range n.Bodies {
		if !b.Closed {
			s += fmt.Sprintf(" answer %d is open (%d bytes read)", i+1, b.ReadN)
		}
		if b.AfterCls {
			s += fmt.Sprintf(" answer %d was read after it was closed", i+1)
		}
	}
	return s
}

// c31answers are answers made of a good body and tag.
func c31answers() []failKind {
	out := failKinds()
	for _, c := range []int{200, 201, 204, 206, 300, 301, 302, 303, 304, 307, 308, 399, 400, 403, 404, 429, 500, 503} {
		c := c
		for _, loc := range []string{"", "https://elsewhere.example/service/zts", "::bad"} {
			loc := loc
			if (c < 300 || c > 308 || c == 304) && loc != "" {
				continue
			}
			out = append(out, failKind{fmt.Sprintf("status %d location %q", c, loc), func(good []byte, tag string) *Ans {
				h := map[string]string{"ETag": tag}
				if loc != "" {
					h["Location"] = loc
				}
				return &Ans{Status: c, Body: good, Hdr: h, Name: fmt.Sprint(c)}
			}})
		}
		for _, e := range []error{io.ErrUnexpectedEOF, syscall.ECONNRESET, errors.New("stream error"), opErr{true, true}} {
			e := e
			for _, at := range []string{"at once", "after a byte", "half way", "before the last byte", "at the end"} {
				at := at
				out = append(out, failKind{fmt.Sprintf("status %d, %v %s", c, e, at), func(good []byte, tag string) *Ans {
					n := map[string]int{"at once": 0, "after a byte": 1, "half way": len(good) / 2, "before the last byte": len(good) - 1, "at the end": len(good)}[at]
					return &Ans{Status: c, Body: good[:max(0, min(n, len(good)))], BodyErr: e, Hdr: map[string]string{"ETag": tag}, Name: at}
				}})
			}
		}
	}
	for _, tail := range []string{"\n", "{}", "x", "\x00"} {
		tail := tail
		out = append(out, failKind{fmt.Sprintf("good body and %q", tail), func(good []byte, tag string) *Ans {
			return &Ans{Status: 200, Body: append(append([]byte{}, good...), tail...), Hdr: map[string]string{"ETag": tag}, Name: "tail"}
		}})
	}
	return out
}

// c31daemon is one refresher, or the authorizer.
type c31daemon struct {
	update func(ctx vc.Context) error
	net    *Net
}

var c31kinds = []string{rqPolicy, rqPubkey, rqJWK, "authorizer"}

// c31make builds one; ans decides the i-th answer given the good one (nil: the good one).
func c31make(x *vs.Exec, kind string, retrying bool, attempts int, ans func(i int, good *Ans) *Ans) *c31daemon {
	d := &c31daemon{}
	doc := verDoc("d", 1, 100*day)
	raw := rawOf(doc)
	if kind == "authorizer" {
		raw = cachedBody("c31doc", doc.Real)
	}
	n := 0
	d.net = newNet(x, func(r *http.Request) *Ans {
		k, name := classify(r)
		good := status(404)
		switch k {
		case rqPolicy:
			good = ok200("doc", raw, "\"t\"")
		case rqPubkey:
			good = ok200("keys", cachedBody("c31"+name, func() []byte { return pubkeyDoc(name, "ec1", "ec2") }), "\"t\"")
		case rqJWK:
			good = ok200("jwks", cachedBody("c31jwk", func() []byte { return jwksDoc("ec3") }), "")
		}
		n++
		if a := ans(n, good); a != nil {
			return a
		}
		return good
	})
	cl := d.net.client()
	if retrying {
		rt, err := client.NewExponentialRoundTripper(d.net, 5, 3, time.Minute)
		if err != nil {
			x.Failf("%v", err)
		}
		cl = &http.Client{Transport: rt}
	}
	var err error
	switch kind {
	case rqPolicy:
		var p policy.Daemon
		p, err = policy.New(policy.WithAthenzURL(athenzURL), policy.WithAthenzDomains("d"), policy.WithPubKeyProvider(fakeProvider), policy.WithHTTPClient(cl),
			policy.WithRetryAttempts(attempts), policy.WithRetryDelay("1s"), policy.WithPurgePeriod("1000h"))
		d.update = func(ctx vc.Context) error { return p.Update(ctx) }
	case rqPubkey:
		var p pubkey.Daemon
		p, err = pubkey.New(pubkey.WithAthenzURL(athenzURL), pubkey.WithHTTPClient(cl))
		d.update = func(ctx vc.Context) error { return p.Update(ctx) }
	case rqJWK:
		var j jwk.Daemon
		j, err = jwk.New(jwk.WithAthenzJwksURL(athenzURL), jwk.WithURLs([]string{jku1, jku2}), jwk.WithHTTPClient(cl))
		d.update = func(ctx vc.Context) error { return j.Update(ctx) }
	default:
		var a authz.Authorizerd
		a, err = authz.New(authz.WithAthenzURL(athenzURL), authz.WithHTTPClient(cl), authz.WithAthenzDomains("d"), authz.WithPolicyRetryAttempts(attempts),
			authz.WithPolicyRetryDelay("1s"), authz.WithPolicyPurgePeriod("1000h"), authz.WithJwkURLs([]string{jku1}))
		d.update = func(ctx vc.Context) error { return a.Init(ctx) }
	}
	if err != nil {
		x.Failf("%v", err)
	}
	return d
}

// refresh makes one refresh and fails unless everything is closed afterwards.
func (d *c31daemon) refresh(x *vs.Exec, what string) error {
	ctx, cancel := withCancel()
	err := d.update(ctx)
	if s := d.net.open(); s != "" {
		x.Failf("%s: refresh result %v:%s", what, err, s)
	}
	cancel()
	x.Settle()
	if s := d.net.open(); s != "" {
		x.Failf("%s: some time after the refresh:%s", what, s)
	}
	return err
}

func c31(thorough bool) []*Scenario {
	answers := c31answers()
	short := []failKind{
		{"good", func(good []byte, tag string) *Ans { return nil }},
		{"200 without tag", func(good []byte, tag string) *Ans { return ok200("untagged", good, "") }},
		{"304", func(good []byte, tag string) *Ans { return status(304) }},
		{"503 with a body", func(good []byte, tag string) *Ans { return &Ans{Status: 503, Body: good, Name: "503"} }},
		{"404 with a body which cannot be read", func(good []byte, tag string) *Ans {
			return &Ans{Status: 404, Body: good[:1], BodyErr: io.ErrUnexpectedEOF, Name: "404"}
		}},
		{"200 with half a body", func(good []byte, tag string) *Ans {
			return &Ans{Status: 200, Body: good[:len(good)/2], BodyErr: syscall.ECONNRESET, Name: "half"}
		}},
		{"200 with something else", func(good []byte, tag string) *Ans { return ok200("else", []byte("<html>"), tag) }},
		{"no answer", func(good []byte, tag string) *Ans { return netErr() }},
		{"temporarily no answer", func(good []byte, tag string) *Ans { return &Ans{Err: opErr{true, true}, Name: "temporary"} }},
	}
	out := []*Scenario{{Name: "answers", Cfg: seqCfg, Body: func(x *vs.Exec) {
		kind := c31kinds[x.Choose(len(c31kinds))]
		retrying := x.Choose(2) == 1
		held := x.Choose(2) == 1
		pos := x.Choose(5) // the answer of the refresh which is odd, 0: all
		for _, k := range answers {
			what := fmt.Sprintf("%s refresh, retrying transport %v, data held %v, answer %d is %s", kind, retrying, held, pos, k.name)
			x.Label("case", what)
			odd, first := false, 0
			d := c31make(x, kind, retrying, 2, func(i int, good *Ans) *Ans {
				if first == 0 {
					first = i
				}
				if odd && (pos == 0 || i == first+pos-1) {
					return k.mk(good.Body, good.Hdr["ETag"])
				}
				return nil
			})
			d.net.quiet = true
			if held {
				if err := d.refresh(x, what); err != nil {
					x.Failf("%v", err)
				}
			}
			odd, first = true, 0
			d.refresh(x, what)
			odd = false
			d.refresh(x, what+", next refresh")
			x.Eval(what)
		}
	}}, {Name: "sequences", Cfg: seqCfg, Body: func(x *vs.Exec) {
		kind := c31kinds[x.Choose(len(c31kinds))]
		retrying := x.Choose(2) == 1
		length := 4
		if thorough {
			length = 5
		}
		seq := make([]int, length)
		for i := 0; i < length-2; i++ {
			seq[i] = x.Choose(len(short))
		}
		for a := range short {
			for b := range short {
				seq[length-2], seq[length-1] = a, b
				what := fmt.Sprintf("%s refreshes, retrying transport %v, answers", kind, retrying)
				for _, i := range seq {
					what += ", " + short[i].name
				}
				x.Label("case", what)
				n := 0
				d := c31make(x, kind, retrying, 1, func(i int, good *Ans) *Ans {
					n = i
					if i > len(seq) {
						return nil
					}
					return short[seq[i-1]].mk(good.Body, good.Hdr["ETag"])
				})
				d.net.quiet = true
				for n < len(seq) {
					d.refresh(x, what)
				}
				x.Eval(what)
			}
		}
	}}}
	for _, kind := range c31kinds {
		kind := kind
		sw := 2
		if kind == "authorizer" {
			sw = 1
		}
		out = append(out, &Scenario{Name: "cancelled-" + kind, Cfg: concCfg, P: 1, S: sw, PT: 2, ST: 3, Body: func(x *vs.Exec) {
			k := short[x.Choose(len(short))]
			slow := x.Choose(2) == 1
			var d *c31daemon
			x.Quiet(func() {
				d = c31make(x, kind, false, 1, func(i int, good *Ans) *Ans {
					a := k.mk(good.Body, good.Hdr["ETag"])
					if a == nil {
						c := *good
						a = &c
					}
					if slow {
						a.Delay = time.Second
					}
					return a
				})
			})
			ctx, cancel := withCancel()
			var err error
			h := x.Spawn("h:refresh", func() { err = d.update(ctx) })
			c := x.Spawn("h:cancel", func() {
				if slow {
					vs.Sleep(time.Second)
				}
				cancel()
			})
			h.Join()
			c.Join()
			x.Settle()
			if s := d.net.open(); s != "" {
				x.Failf("%s refresh, answers %s, cancelled, result %v:%s", kind, k.name, err, s)
			}
			x.Outcome(fmt.Sprint(kind, k.name, slow, err != nil, len(d.net.Reqs)))
		}})
	}
	out = append(out, &Scenario{Name: "started", Cfg: seqCfg, Body: func(x *vs.Exec) {
		kind := c31kinds[x.Choose(len(c31kinds))]
		k1, k2 := short[x.Choose(len(short))], short[x.Choose(len(short))]
		for period := 1; period <= 3; period++ {
			what := fmt.Sprintf("%s started, answers %s, every %d-th %s", kind, k1.name, period+1, k2.name)
			x.Label("case", what)
			i := 0
			d := c22make(x, kind, 100*day, func(knd, name string) *Ans {
				i++
				k := k1
				if i%(period+1) == 0 {
					k = k2
				}
				return k.mk([]byte("{\"keys\":[]}"), "\"t\"")
			})
			d.net.quiet = true
			ctx, cancel := withCancel()
			rd := c22read(x, d.start(ctx))
			for t := 0; t < 3; t++ {
				vs.Sleep(c22period - time.Second + time.Duration(t)*700*time.Millisecond)
				x.Settle()
				if s := d.net.open(); s != "" {
					x.Failf("%s, after %v:%s", what, x.Elapsed(), s)
				}
			}
			cancel()
			vs.Sleep(time.Hour)
			x.Settle()
			if s := d.net.open(); s != "" {
				x.Failf("%s, cancelled:%s", what, s)
			}
			if !rd.closed {
				x.Failf("%s: not ended", what)
			}
			x.Eval(what)
		}
	}})
	return out
}
