package main

import (
	"errors"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/policy"

	"vs"
	vc "vs/context"
)

// polWorld is a policy daemon with a fake server publishing documents.
type polWorld struct {
	x    *vs.Exec
	net  *Net
	d    policy.Daemon
	docs map[string]*pubDoc // published documents
	// answer overrides the default behaviour when it returns non-nil
	answer func(domain string, r *http.Request) *Ans
}

type pubDoc struct {
	doc  Doc
	raw  []byte
	etag string
}

var rawCache = map[string][]byte{}

// rawOf builds (and remembers) the signed bytes of a document.
func rawOf(d Doc) []byte {
	k := fmt.Sprintf("%+v", d)
	if b, ok := rawCache[k]; ok {
		return b
	}
	b := d.Raw()
	rawCache[k] = b
	return b
}

type polCfg struct {
	domains  []string
	attempts int    // retry attempts (0: library default)
	delay    string // retry delay
	margin   string
	refresh  string
	purge    string
}

func newPolWorld(x *vs.Exec, c polCfg, docs ...Doc) *polWorld {
	w := &polWorld{x: x, docs: map[string]*pubDoc{}}
	w.net = newNet(x, func(r *http.Request) *Ans {
		k, dom := classify(r)
		if k != rqPolicy {
			x.Failf("unexpected request %s", r.URL)
		}
		if w.answer != nil {
			if a := w.answer(dom, r); a != nil {
				return a
			}
		}
		return w.serve(dom, r)
	})
	for _, d := range docs {
		w.publish(d, "")
		c.domains = append(c.domains, d.Domain)
	}
	if c.attempts == 0 {
		c.attempts = 1
	}
	if c.delay == "" {
		c.delay = "10s"
	}
	var err error
	w.d, err = policy.New(policy.WithAthenzURL(athenzURL), policy.WithAthenzDomains(c.domains...), policy.WithPubKeyProvider(fakeProvider),
		policy.WithHTTPClient(w.net.client()), policy.WithRetryAttempts(c.attempts), policy.WithRetryDelay(c.delay), policy.WithExpiryMargin(c.margin),
		policy.WithRefreshPeriod(c.refresh), policy.WithPurgePeriod(c.purge))
	if err != nil {
		x.Failf("policy.New: %v", err)
	}
	return w
}

func (w *polWorld) publish(d Doc, etag string) {
	w.docs[d.Domain] = &pubDoc{d, rawOf(d), etag}
}

func (w *polWorld) serve(dom string, r *http.Request) *Ans {
	p := w.docs[dom]
	if p == nil {
		return status(404)
	}
	if p.etag != "" && r.Header.Get("If-None-Match") == p.etag {
		return status(304)
	}
	return ok200("doc", p.raw, p.etag)
}

// mustUpdate loads without exploring interleavings.
func (w *polWorld) mustUpdate() {
	w.x.Quiet(func() {
		if err := w.d.Update(background()); err != nil {
			w.x.Failf("initial update failed: %v", err)
		}
	})
}

func verdictOf(roles []string, err error) Verdict {
	switch {
	case err == nil:
		return Verdict{"allow", roleSet(roles)}
	case errors.Is(err, policy.ErrDenyByPolicy):
		return Verdict{Kind: "deny"}
	case errors.Is(err, policy.ErrNoMatch):
		return Verdict{Kind: "nomatch"}
	}
	return Verdict{Kind: "error: " + err.Error()}
}

func (w *polWorld) check(ctx vc.Context, dom string, roles []string, act, res string) Verdict {
	r, err := w.d.CheckPolicyRoles(ctx, dom, roles, act, res)
	return verdictOf(r, err)
}

// dump renders GetPolicyCache as role -> list of "effect action resource".
func dumpOf(m map[string]interface{}) (string, bool) {
	var out []string
	ordered := true
	for _, role := range keys(m) {
		as, ok := m[role].([]*policy.Assertion)
		if !ok {
			return fmt.Sprintf("role %s: %T", role, m[role]), false
		}
		var l []string
		allowSeen := false
		for _, a := range as {
			e := "allow"
			if a.Effect != nil {
				e = "deny"
				if allowSeen {
					ordered = false
				}
			} else {
				allowSeen = true
			}
			l = append(l, e+" "+a.Action+" "+a.ResourceDomain+":"+a.Resource)
		}
		out = append(out, role+"{"+strings.Join(sorted(l), "; ")+"}")
	}
	return strings.Join(out, "\n"), ordered
}

// refDump is the expected dump of assertions (deduplicated, denial overriding an allow of the same text).
func refDump(as []A) string {
	by := map[string]map[string]string{}
	for _, a := range as {
		if by[a.Role] == nil {
			by[a.Role] = map[string]string{}
		}
		k := a.Action + " " + a.Resource
		if strings.EqualFold(a.Effect, "deny") {
			by[a.Role][k] = "deny"
		} else if by[a.Role][k] == "" {
			by[a.Role][k] = "allow"
		}
	}
	var out []string
	for _, r := range keys(by) {
		var l []string
		for k, e := range by[r] {
			l = append(l, e+" "+k)
		}
		out = append(out, r+"{"+strings.Join(sorted(l), "; ")+"}")
	}
	return strings.Join(out, "\n")
}

func sorted(l []string) []string {
	m := append([]string(nil), l...)
	for i := range m {
		for j := i; j > 0 && m[j] < m[j-1]; j-- {
			m[j], m[j-1] = m[j-1], m[j]
		}
	}
	return m
}

const day = 24 * time.Hour
