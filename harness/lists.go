package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/access"

	"vs"
)

// seqsOf is every sequence of the texts up to the length.
func seqsOf(texts []string, n int) [][]string {
	out := [][]string{nil}
	last := out
	for i := 0; i < n; i++ {
		var next [][]string
		for _, l := range last {
			for _, t := range texts {
				next = append(next, append(append([]string(nil), l...), t))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// c12lists: every list of URIs of the certificate against every list of proxy principals.
func c12lists(thorough bool) *Scenario {
	uris := seqsOf([]string{"spiffe://a/b", "spiffe://x/y", "https://a/b", "urn:a:b", "spiffe://a/b/"}, 3)
	names := seqsOf([]string{"spiffe://a/b", "https://a/b", "", "\x00number", "urn:a:b"}, 3)
	if thorough {
		uris = seqsOf([]string{"spiffe://a/b", "spiffe://x/y", "https://a/b", "urn:a:b", "spiffe://a/b/"}, 4)
	}
	for _, n := range []int{7, 8, 9, 16, 17, 31, 33, 64, 65, 100, 129, 257} {
		for _, at := range []int{0, 1, n / 2, n - 2, n - 1} {
			var l []string
			for i := 0; i < n; i++ {
				l = append(l, fmt.Sprintf("spiffe://n/%d", i))
			}
			l[at] = "spiffe://a/b"
			uris = append(uris, l)
			names = append(names, l)
		}
	}
	const parts = 16
	return &Scenario{Name: "lists", Cfg: seqCfg, Body: func(x *vs.Exec) {
		part := x.Choose(parts)
		print := x.Choose(3) // thumbprint confirmed as well: none, another's, with a window
		off := []string{"0s", "0s", "1h"}[print]
		ap, err := access.New(access.WithJWKProvider(octProvider), access.WithEnableMTLSCertificateBoundAccessToken(true), access.WithClientCertificateGoBackSeconds("0s"), access.WithClientCertificateOffsetSeconds(off))
		if err != nil {
			x.Failf("access.New: %v", err)
		}
		c := c12cfg{bind: true}
		if print == 2 {
			c.offset = time.Hour
		}
		for i, l := range names {
			if i%parts != part {
				continue
			}
			var list []any
			for _, n := range l {
				if n == "\x00number" {
					list = append(list, 7.0)
				} else {
					list = append(list, n)
				}
			}
			t := AT{Aud: "d", Sub: "u", Scp: []string{"r"}, Exp: day, Iat: -2 * time.Minute, Client: "other", Cnf: map[string]any{"proxy-principals#spiffe": list}}
			if list == nil {
				t.Cnf["proxy-principals#spiffe"] = []any{}
			}
			if print > 0 {
				t.Cnf["x5t#S256"] = "another"
			}
			tok := octToken(t)
			for _, u := range uris {
				crt := Crt{CN: "c", NotBefore: -time.Minute, URIs: u}.cert()
				_, err := ap.ParseAndValidateOAuth2AccessToken(tok, crt)
				if want := refBind(c, t, crt); (err == nil) != want {
					x.Label("case", fmt.Sprintf("proxy principals %q, URIs of the certificate %q", l, u))
					x.Failf("proxy principals %q, URIs %q: got %v, want acceptance %v", l, u, err, want)
				}
				x.Evals(1)
			}
		}
		x.Eval(fmt.Sprint(part, print))
	}}
}

// c24requests: every status and many kinds of error, once and repeated, for requests of every method.
func c24requests() *Scenario {
	var outs []c24out
	for c := 100; c < 600; c++ {
		outs = append(outs, c24out{fmt.Sprint(c), c, nil, 0, false})
	}
	n := len(outs)
	for _, e := range []error{
		&tempErr{true}, &tempErr{false}, errPlain, opErr{true, false}, opErr{false, true}, opErr{true, true}, opErr{false, false},
		context.DeadlineExceeded, context.Canceled, os.ErrDeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, net.ErrClosed, errors.New(""),
		&net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}, &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.EMFILE},
		&net.DNSError{Err: "no such host", IsNotFound: true}, &net.DNSError{Err: "again", IsTemporary: true}, &net.DNSError{Err: "timeout", IsTimeout: true},
		&url.Error{Op: "Get", URL: "u", Err: errPlain}, &url.Error{Op: "Get", URL: "u", Err: &tempErr{true}}, &url.Error{Op: "Get", URL: "u", Err: &tempErr{false}},
		fmt.Errorf("wrapped: %w", errPlain), fmt.Errorf("wrapped: %w", &tempErr{false}), syscall.EINTR, syscall.EPIPE, http.ErrServerClosed, http.ErrHandlerTimeout,
	} {
		outs = append(outs, c24out{fmt.Sprintf("%T %v", e, e), 0, e, 0, false})
	}
	two := len(outs)
	outs = append(outs, c24out{"200", 200, nil, 0, false})
	return &Scenario{Name: "requests", Cfg: seqCfg, Body: func(x *vs.Exec) {
		method := []string{"GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS"}[x.Choose(7)]
		cnt := []int{1, 2, 3, 4}[x.Choose(4)]
		via := x.Choose(2) == 1
		for i := 0; i < two; i++ {
			if via && i < n && (outs[i].status < 200 || outs[i].status >= 300 && outs[i].status < 400) {
				continue // followed or refused by the client
			}
			for fails := 1; fails <= cnt; fails++ {
				idx := make([]int, cnt)
				for k := range idx {
					idx[k] = two
					if k < fails {
						idx[k] = i
					}
				}
				c24method(x, method, cnt, time.Hour, 1, idx, outs, via)
			}
		}
		x.Eval(fmt.Sprint(method, cnt, via))
	}}
}

// c22growth: refreshes which go on do not pile up anything in the background.
func c22growth(kinds []string) *Scenario {
	return &Scenario{Name: "growth", Cfg: seqCfg, Body: func(x *vs.Exec) {
		kind := kinds[x.Choose(len(kinds))]
		exp := []time.Duration{1000 * day, 150 * time.Minute}[x.Choose(2)]
		mode := []string{"ok", "every second fails", "every third hangs"}[x.Choose(3)]
		x.Label("case", fmt.Sprintf("%s, documents expire after %v, server %s", kind, exp, mode))
		count := map[string]int{}
		d := c22make(x, kind, exp, func(k, name string) *Ans {
			count[name]++
			switch n := count[name]; {
			case mode == "every second fails" && n%2 == 0:
				return status(500)
			case mode == "every third hangs" && n%3 == 0:
				return &Ans{Status: 500, Delay: 25 * time.Second}
			}
			return nil
		})
		d.net.quiet = true
		ctx, cancel := withCancel()
		if err := d.update(ctx); err != nil {
			x.Failf("update: %v", err)
		}
		rd := c22read(x, d.start(ctx))
		most := func(cycles int) int {
			m := 0
			for i := 0; i < cycles*4; i++ {
				vs.Sleep(c22period/4 - time.Minute)
				x.Settle()
				m = max(m, len(leftovers(x)))
				vs.Sleep(time.Minute)
			}
			return m
		}
		first := most(6)
		most(12)
		if last := most(6); last > first {
			x.Failf("%d goroutines in the background in the first refreshes, %d in later ones: %s", first, last, strings.Join(leftovers(x), ", "))
		}
		cancel()
		d.ended(x, rd, 6*c22delay)
		x.Eval(fmt.Sprint(kind, exp, mode))
	}}
}

// genSizes: refreshes between generations of many roles, assertions and domains: each takes effect as a whole,
// in the decisions (C04) or in the dump (C29).
func genSizes(thorough, dump bool) *Scenario {
	sizes := []int{1, 2, 7, 8, 9, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 257}
	if thorough {
		sizes = append(sizes, 255, 256, 511, 513, 1000, 1025)
	}
	return &Scenario{Name: "generation-sizes", Cfg: seqCfg, Body: func(x *vs.Exec) {
		n := sizes[x.Choose(len(sizes))]
		shape := []string{"roles", "assertions", "domains"}[x.Choose(3)]
		change := []string{"all", "first", "last", "middle", "fewer", "more", "other names"}[x.Choose(7)]
		if shape == "domains" && n > 130 {
			return
		}
		x.Label("case", fmt.Sprintf("%d %s, changed: %s", n, shape, change))
		name := func(i, v int) string {
			if change == "other names" && v == 2 {
				return fmt.Sprintf("o%d", i)
			}
			return fmt.Sprintf("n%d", i)
		}
		// allowed at i in generation v: "get", or "put" after the change
		act := func(i, v int) string {
			c := change == "all" || change == "first" && i == 0 || change == "last" && i == n-1 || change == "middle" && i == n/2
			if v == 2 && c {
				return "put"
			}
			return "get"
		}
		size := func(v int) int {
			switch {
			case v == 2 && change == "fewer":
				return n - 1
			case v == 2 && change == "more":
				return n + 1
			}
			return n
		}
		mk := func(v int) map[string]Doc {
			m := map[string]Doc{}
			d := Doc{Domain: "d", Expires: 1000 * day, Pols: []P{{{"always", "a", "d:x", "ALLOW"}}}}
			var p P
			for i := 0; i < size(v); i++ {
				switch shape {
				case "roles":
					d.Pols = append(d.Pols, P{{name(i, v), act(i, v), "d:x", "ALLOW"}})
				case "assertions":
					p = append(p, A{"r", act(i, v), "d:" + name(i, v), "ALLOW"})
				}
			}
			if p != nil {
				d.Pols = append(d.Pols, p)
			}
			m["d"] = d
			if shape == "domains" {
				for i := 0; i < n; i++ {
					dom := fmt.Sprintf("n%d", i)
					if i < size(v) {
						m[dom] = Doc{Domain: dom, Expires: 1000 * day, Pols: []P{{{name(i, v), act(i, v), dom + ":x", "ALLOW"}}}}
					} else {
						m[dom] = Doc{Domain: dom, Expires: 1000 * day}
					}
				}
			}
			return m
		}
		gens := []map[string]Doc{nil, mk(1), mk(2)}
		var doms []string
		for k := range gens[1] {
			doms = append(doms, k)
		}
		doms = sorted(doms)
		w := newPolWorld(x, polCfg{attempts: 1, delay: "1s", purge: "1000h", domains: doms})
		w.net.quiet = true
		cur := 1
		w.answer = func(dom string, r *http.Request) *Ans { return ok200("doc", rawOf(gens[cur][dom]), "") }
		check := func(v int, what string) {
			as := map[string][]A{}
			for dom, d := range gens[v] {
				as[dom] = d.Asserts()
			}
			if dump {
				var all []A
				for _, dom := range doms {
					all = append(all, as[dom]...)
				}
				c29want(x, what, w.d.GetPolicyCache(background()), all)
				x.Evals(1)
				return
			}
			for i := -1; i <= n; i++ {
				if n > 40 && i > 2 && i < n-3 && i != n/2 && i%16 > 1 {
					continue
				}
				for _, g := range []int{1, 2} {
					dom, role, res := "d", "always", "x"
					switch {
					case i < 0:
					case shape == "roles":
						role = name(i, g)
					case shape == "assertions":
						role, res = "r", name(i, g)
					default:
						dom, role = fmt.Sprintf("n%d", i), name(i, g)
					}
					for _, a := range []string{"get", "put", "a"} {
						want := refDecide(as[dom], dom, []string{role}, a, res)
						if got := w.check(background(), dom, []string{role}, a, res); got != want {
							x.Failf("%s: %s [%s] %s %s: got %v, want %v", what, dom, role, a, res, got, want)
						}
						x.Evals(1)
					}
				}
			}
		}
		for i, v := range []int{1, 2, 1} {
			cur = v
			w.mustUpdate()
			check(v, fmt.Sprintf("refresh %d", i+1))
		}
		x.Eval(fmt.Sprint(n, shape, change))
	}}
}
