package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"syscall"
	"time"

	authz "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"

	"vs"
)

// failKind makes one answer which is a failure, given the body and tag a good answer would have.
type failKind struct {
	name string
	mk   func(good []byte, tag string) *Ans
}

// opErr is a network error that says it is a timeout or temporary.
type opErr struct{ timeout, temporary bool }

func (e opErr) Error() string {
	return fmt.Sprintf("i/o timeout %v temporary %v", e.timeout, e.temporary)
}
func (e opErr) Timeout() bool   { return e.timeout }
func (e opErr) Temporary() bool { return e.temporary }

func failKinds() []failKind {
	var out []failKind
	for c := 300; c < 600; c++ {
		switch {
		case c == 303 || c == 304 || c > 308 && c < 400 || c > 431 && c < 450 || c > 451 && c < 499 || c > 511 && c < 520 || c > 530 && c < 599:
			continue
		}
		c := c
		out = append(out, failKind{fmt.Sprint("status ", c), func(good []byte, tag string) *Ans {
			return &Ans{Status: c, Body: good, Hdr: map[string]string{"ETag": tag, "Retry-After": "7200"}, Name: fmt.Sprint(c)}
		}})
	}
	errs := map[string]error{
		"timeout":             opErr{true, false},
		"temporary":           opErr{false, true},
		"timeout, temporary":  opErr{true, true},
		"deadline exceeded":   context.DeadlineExceeded,
		"os deadline":         os.ErrDeadlineExceeded,
		"cancelled":           context.Canceled,
		"end of file":         io.EOF,
		"unexpected end":      io.ErrUnexpectedEOF,
		"closed":              net.ErrClosed,
		"refused":             &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED},
		"reset":               &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET},
		"no such host":        &net.DNSError{Err: "no such host", Name: "h", IsNotFound: true},
		"name server timeout": &net.DNSError{Err: "timeout", Name: "h", IsTimeout: true, IsTemporary: true},
		"server closed":       http.ErrServerClosed,
		"plain":               errors.New(""),
	}
	var names []string
	for n := range errs {
		names = append(names, n)
	}
	for _, n := range sorted(names) {
		n := n
		out = append(out, failKind{"error " + n, func([]byte, string) *Ans { return &Ans{Err: errs[n], Name: n} }},
			failKind{"body ends with error " + n, func(good []byte, tag string) *Ans {
				if n == "end of file" { // ends early
					return &Ans{Status: 200, Body: good[:len(good)/2], Hdr: map[string]string{"ETag": tag}, Name: n}
				}
				return &Ans{Status: 200, Body: good[:len(good)-2], BodyErr: errs[n], Hdr: map[string]string{"ETag": tag}, Name: n}
			}})
	}
	for _, b := range []string{"", " ", "\n", "<html>", "{", "[", "\"", "nul", "x{}", "\x00", "[]", "true", "12", "\"text\"", strings.Repeat("[", 200)} {
		b := b
		out = append(out, failKind{fmt.Sprintf("body %.10q", b), func(_ []byte, tag string) *Ans {
			return &Ans{Status: 200, Body: []byte(b), Hdr: map[string]string{"ETag": tag}, Name: "body"}
		}})
	}
	out = append(out, failKind{"body begins late", func(good []byte, tag string) *Ans {
		return &Ans{Status: 200, Body: append([]byte("x"), good...), Hdr: map[string]string{"ETag": tag}, Name: "late"}
	}})
	return out
}

// c07kinds: the first answer of a refresh fails in every way there is; with a further attempt left the next
// answer is used, otherwise the document held.
func c07kinds() *Scenario {
	kinds := failKinds()
	return &Scenario{Name: "failure-kinds", Cfg: seqCfg, Body: func(x *vs.Exec) {
		attempts := 1 + x.Choose(2)
		held := x.Choose(2) == 1
		fails := 1 + x.Choose(3) // answers in a row that fail
		for _, k := range kinds {
			x.Label("failure", fmt.Sprintf("%s, %d times, %d attempts, document held %v", k.name, fails, attempts+1, held))
			w := newPolWorld(x, polCfg{attempts: attempts, delay: "1s", margin: "1s", purge: "1000h", domains: []string{"d"}})
			w.net.quiet = true
			ver, n, bad := 1, 0, 0
			w.answer = func(dom string, r *http.Request) *Ans {
				n++
				d := verDoc("d", ver, 100*day)
				tag := fmt.Sprintf("\"t%d\"", ver)
				if n <= bad {
					return k.mk(rawOf(d), tag)
				}
				return ok200("doc", rawOf(d), tag)
			}
			update := func() error {
				ctx, cancel := withCancel()
				err := w.d.Update(ctx)
				cancel()
				x.Settle()
				return err
			}
			if held {
				if err := update(); err != nil {
					x.Failf("%v", err)
				}
			}
			ver, n, bad = 2, 0, fails
			err := update()
			got := 2
			if fails > attempts {
				got = 1
			}
			if n != min(fails, attempts)+1 {
				x.Failf("%d requests", n)
			}
			if (err != nil) != (got == 1 && !held) {
				x.Failf("refresh result %v", err)
			}
			for v := 1; v <= 2; v++ {
				want := "nomatch"
				if v == got && err == nil {
					want = "allow"
				}
				if k := w.check(background(), "d", []string{"r"}, "a", fmt.Sprint("v", v)).Kind; k != want {
					x.Failf("generation %d: %s, want %s", v, k, want)
				}
			}
			ver, n, bad = 3, 0, 0
			if err := update(); err != nil || w.check(background(), "d", []string{"r"}, "a", "v3").Kind != "allow" {
				x.Failf("the next refresh does not take effect: %v", err)
			}
			x.Evals(1)
		}
		x.Eval(fmt.Sprint(attempts, held, fails))
	}}
}

// c08kinds: the same for the keys of either service, or both.
func c08kinds() *Scenario {
	kinds := failKinds()
	return &Scenario{Name: "failure-kinds", Cfg: seqCfg, Body: func(x *vs.Exec) {
		which := []string{"zts", "zms", "zts zms"}[x.Choose(3)]
		held := x.Choose(2) == 1
		for _, k := range kinds {
			x.Label("failure", fmt.Sprintf("%s of %s, keys held %v", k.name, which, held))
			w := newAuthServer(x)
			w.net.quiet = true
			ver := 1
			bad := false
			key := func(svc string, v int) string {
				l := []string{"", "ec1", "ec2", "ec3"}
				if svc == "zms" {
					l = []string{"", "ec2", "ec3", "ec1"}
				}
				return l[v]
			}
			w.answer = func(kind, name string, r *http.Request) *Ans {
				if kind != rqPubkey {
					return nil
				}
				b := cachedBody(fmt.Sprint("c08kinds", name, ver), func() []byte { return pubkeyDoc(name, "k="+key(name, ver)) })
				tag := fmt.Sprintf("\"t%d\"", ver)
				if bad && strings.Contains(which, name) {
					return k.mk(b, tag)
				}
				return ok200("keys", b, tag)
			}
			d, err := pubkey.New(pubkey.WithAthenzURL(athenzURL), pubkey.WithHTTPClient(w.net.client()))
			if err != nil {
				x.Failf("pubkey.New: %v", err)
			}
			p := d.GetProvider()
			have := map[string]int{}
			step := func(v int, b bool) {
				ver, bad = v, b
				if err := d.Update(background()); (err != nil) != b {
					x.Failf("refresh %d: %v", v, err)
				}
				for svc, env := range map[string]pubkey.AthenzEnv{"zts": pubkey.EnvZTS, "zms": pubkey.EnvZMS} {
					if !b || !strings.Contains(which, svc) {
						have[svc] = v
					}
					if got, want := verName(p(env, "k")), key(svc, have[svc]); got != want {
						x.Failf("refresh %d: key of %s is %q, want %q", v, svc, got, want)
					}
				}
			}
			if held {
				step(1, false)
			}
			step(2, true)
			step(2, true)
			step(3, false)
			x.Evals(1)
		}
		x.Eval(which + fmt.Sprint(held))
	}}
}

// c10kinds: the same for the key sets.
func c10kinds() *Scenario {
	kinds := failKinds()
	return &Scenario{Name: "failure-kinds", Cfg: seqCfg, Body: func(x *vs.Exec) {
		urls := []string{athenzJWK, jku1, jku2}
		mask := 1 + x.Choose(7)
		held := x.Choose(2) == 1
		for _, k := range kinds {
			if strings.HasPrefix(k.name, "body \"[]\"") {
				continue // no key set, but read as one of no keys
			}
			x.Label("failure", fmt.Sprintf("%s at %b, keys held %v", k.name, mask, held))
			ver := 1
			bad := false
			idx := func(u string) int {
				for i, v := range urls {
					if v == u {
						return i
					}
				}
				x.Failf("unexpected request to %s", u)
				return 0
			}
			key := func(i, v int) string {
				if v == 0 {
					return ""
				}
				return []string{"ec1", "ec2", "ec3"}[(i+v)%3]
			}
			d := newJwk(x, urls[1:], func(u string, r *http.Request) *Ans {
				i := idx(u)
				b := cachedBody(fmt.Sprint("c10kinds", i, ver), func() []byte { return jwksDoc("k=" + key(i, ver)) })
				if bad && mask>>uint(i)&1 == 1 {
					return k.mk(b, "")
				}
				return ok200("keys", b, "")
			})
			p := d.GetProvider()
			have := map[int]int{}
			step := func(v int, b bool) {
				ver, bad = v, b
				if err := d.Update(background()); (err != nil) != b {
					x.Failf("refresh %d: %v", v, err)
				}
				for i, u := range urls {
					if !b || mask>>uint(i)&1 == 0 {
						have[i] = v
					}
					if got, want := rawName(p("k", u)), key(i, have[i]); got != want {
						x.Failf("refresh %d: key at %s is %q, want %q", v, u, got, want)
					}
				}
			}
			if held {
				step(1, false)
			}
			step(2, true)
			step(2, true)
			step(3, false)
			x.Evals(1)
		}
		x.Eval(fmt.Sprint(mask, held))
	}}
}

// c21kinds: refreshes that fail in every way there is are tried again after the delay.
func c21kinds() *Scenario {
	kinds := failKinds()
	const parts = 8
	return &Scenario{Name: "failure-kinds", Cfg: seqCfg, Body: func(x *vs.Exec) {
		srcs := c21srcs()
		src := srcs[x.Choose(len(srcs))]
		part := x.Choose(parts)
		for ki, k := range kinds {
			if ki%parts != part || src.kind == rqJWK && strings.HasPrefix(k.name, "body \"[]\"") {
				continue
			}
			x.Label("failure", src.kind+" "+k.name)
			w := newAuthWorld(x, []Doc{{Domain: "d", Expires: 1000 * day}, {Domain: "e", Expires: 1000 * day}},
				authz.WithPubkeyRefreshPeriod(srcs[0].period.String()), authz.WithPubkeyRetryDelay(srcs[0].delay.String()),
				authz.WithPolicyRefreshPeriod(srcs[1].period.String()), authz.WithPolicyRetryDelay(srcs[1].delay.String()), authz.WithPolicyRetryAttempts(srcs[1].retries),
				authz.WithJwkRefreshPeriod(srcs[2].period.String()), authz.WithJwkRetryDelay(srcs[2].delay.String()),
				authz.WithJwkURLs([]string{jku1}))
			w.net.quiet = true
			w.jwks[jku1] = w.jwks[athenzJWK]
			count, ok, ver := 0, 0, 0
			bad := src.kind == rqPolicy // policies held would be used again
			w.answer = func(kind, name string, r *http.Request) *Ans {
				if kind != src.kind {
					return nil
				}
				if name == src.names[0] {
					count++
				}
				good := w.c21data(kind, name, ver)
				if bad {
					return k.mk(good.Body, "")
				}
				if name == src.names[0] {
					ok++
				}
				return good
			}
			if err := w.a.Init(background()); (err != nil) != bad {
				x.Failf("Init: %v", err)
			}
			ctx, cancel := withCancel()
			ech := w.a.Start(ctx)
			reports := 0
			rd := x.Spawn("reader", func() {
				for {
					if _, ok := vs.Recv2(ech); !ok {
						return
					}
					reports++
				}
			})
			bad, ver, count = true, 1, 0
			for round := 0; round < 2; round++ {
				was, said := count, reports
				// to the next refresh, and on to its third attempt
				for end := x.Elapsed() + src.period + time.Second; x.Elapsed() < end && count == was; {
					vs.Sleep(time.Second)
				}
				vs.Sleep(4*src.delay + 4*time.Second)
				x.Settle()
				if count < was+3 {
					x.Failf("round %d: %d requests from the failed refresh until four delays later", round, count-was)
				}
				if reports < said+2 {
					x.Failf("round %d: %d failures reported", round, reports-said)
				}
				bad = false
				ok = 0
				vs.Sleep(2*src.delay + time.Second)
				x.Settle()
				if ok == 0 {
					x.Failf("round %d: not refreshed within the delay after the recovery", round)
				}
				w.c21effective(src.kind, ver)
				if src.kind == rqPolicy {
					break // a failure with a document held is no failure
				}
				bad, ver = true, 0
			}
			cancel()
			rd.Join()
			x.Evals(1)
		}
		x.Eval(fmt.Sprint(src.kind, part))
	}}
}

// c23kinds: one of the sources fails in every way there is while the authorizer is initialised.
func c23kinds() *Scenario {
	kinds := failKinds()
	names := []string{"zts", "zms", "d", "e", athenzJWK, jku1}
	const parts = 8
	return &Scenario{Name: "failure-kinds", Cfg: seqCfg, Body: func(x *vs.Exec) {
		name := names[x.Choose(len(names))]
		part := x.Choose(parts)
		for ki, k := range kinds {
			if ki%parts != part || strings.HasPrefix(name, "http") && strings.HasPrefix(k.name, "body \"[]\"") || name == athenzJWK && strings.HasPrefix(k.name, "body \"[]\"") {
				continue
			}
			x.Label("failure", k.name+" of "+name)
			w := newInitWorld(x, true, true, true)
			w.net.quiet = true
			bad := true
			h := w.net.Handle
			w.net.Handle = func(r *http.Request) *Ans {
				a := h(r)
				if _, n := classify(r); bad && n == name {
					return k.mk(a.Body, a.Hdr["ETag"])
				}
				return a
			}
			if err := w.a.Init(background()); err == nil {
				x.Failf("Init reports success")
			}
			bad = false
			if err := w.a.Init(background()); err != nil {
				x.Failf("second Init: %v", err)
			}
			w.effective()
			bad = true
			held := name == "d" || name == "e" // policies held are used again
			if err := w.a.Init(background()); (err == nil) != held {
				x.Failf("third Init: %v", err)
			}
			w.effective()
			x.Evals(3)
		}
		x.Eval(fmt.Sprint(name, part))
	}}
}
