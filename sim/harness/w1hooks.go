//go:build go1.22

package verifsim

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/dgrijalva/jwt-go"
	pbop "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	rt "github.com/tdex-network/tdex-daemon/verifsimrt"
)

// The whole daemon with webhooks: hooks are added, removed and listed through
// the operator service while withdrawals and trades happen, and what their
// endpoints receive is compared with what happened (C18).

type w1hook struct {
	id, endpoint, secret string
	action               pbop.ActionType
	add, rm              *call
	rmInv                uint64
}

func (h *w1hook) wants(a pbop.ActionType) bool {
	return h.action == a || h.action == pbop.ActionType_ALL_ACTIONS
}

// during tells whether the hook is registered all along an interval (1), never
// (-1), or neither is known (0).
func (h *w1hook) during(inv, ret uint64) int {
	if h.add == nil || h.add.ret == 0 || !h.add.done || h.add.err != nil {
		return 0
	}
	if h.rmInv == 0 {
		if h.add.ret < inv {
			return 1
		}
		return 0
	}
	if h.rm != nil && h.rm.ok() && h.rm.ret < inv {
		return -1
	}
	if h.add.ret < inv && h.rmInv > ret {
		return 1
	}
	return 0
}

type w1post struct {
	h    *w1hook
	kind pbop.ActionType
	key  string // receiving address or transaction
	body string
	seq  uint64
}

type hookMsg struct {
	Txid   string            `json:"txid"`
	Addr   string            `json:"receiving_address"`
	Market map[string]string `json:"market"`
	Amount map[string]uint64 `json:"amount_withdraw"`
	Swap   *struct {
		AmountP uint64 `json:"amount_p"`
		AssetP  string `json:"asset_p"`
		AmountR uint64 `json:"amount_r"`
		AssetR  string `json:"asset_r"`
	} `json:"swap"`
	Price   map[string]string `json:"price"`
	Balance map[string]uint64 `json:"balance"`
}

func (s *w1) hookRequest(t *rt.Tag, req *http.Request, body string) (int, string) {
	w := s.w
	ep := req.URL.String()
	w.seq++
	w.Stat("hook.requests")
	w.Tracef("request to %s: %s", ep, short80(body))
	var h *w1hook
	for _, x := range s.whooks {
		if x.endpoint == ep {
			h = x
		}
	}
	if h == nil {
		w.Violate("C18", "unknown-endpoint", "a request is sent to %s, which was never registered", ep)
		return 404, ""
	}
	auth := req.Header.Get("Authorization")
	if h.secret == "" && auth != "" {
		w.Violate("C18", "needless-authorization", "a request to the hook %s without secret carries %q", ep, auth)
	} else if h.secret != "" {
		tok, err := jwt.Parse(strings.TrimPrefix(auth, "Bearer "), func(*jwt.Token) (interface{}, error) { return []byte(h.secret), nil })
		if !strings.HasPrefix(auth, "Bearer ") || err != nil || !tok.Valid {
			w.Violate("C18", "not-authenticated", "the request to the secured hook %s carries %q: %v", ep, auth, err)
		}
	}
	var m hookMsg
	if err := json.Unmarshal([]byte(body), &m); err != nil {
		w.Violate("C18", "wrong-message", "%s receives %q: %v", ep, short80(body), err)
		return 200, "ok"
	}
	p := &w1post{h: h, body: body, seq: w.seq}
	switch {
	case m.Swap != nil:
		p.kind, p.key = pbop.ActionType_TRADE_SETTLED, m.Txid
		if !s.ch.Confirmed(m.Txid) {
			w.Violate("C18", "settled-early", "%s is told that the trade of %s is settled, which is not confirmed", ep, short(m.Txid))
		}
		var t *w1trade
		for _, x := range s.trades {
			if x.txid != "" && x.txid == m.Txid {
				t = x
			}
		}
		if t == nil {
			w.Violate("C18", "wrong-message", "%s is told that the unknown trade %s is settled", ep, short(m.Txid))
			break
		}
		q := t.pr.req
		if m.Swap.AmountP != q.AmountP || m.Swap.AmountR != q.AmountR || m.Swap.AssetP != q.AssetP || m.Swap.AssetR != q.AssetR ||
			m.Market["quote_asset"] != s.quotes[t.market] || m.Market["base_asset"] != LBTC {
			w.Violate("C18", "wrong-message", "%s is told that trade %s is settled with other terms: %s", ep, t.acceptID, body)
		}
	case m.Amount != nil:
		p.kind, p.key = pbop.ActionType_ACCOUNT_WITHDRAW, m.Addr
		var x *payment1
		for _, y := range s.pays {
			if y.kind == "withdraw" && y.addr == m.Addr {
				x = y
			}
		}
		if x == nil {
			w.Violate("C18", "wrong-message", "%s is told of an unknown withdrawal to %s", ep, m.Addr)
			break
		}
		sum := map[string]uint64{}
		for _, o := range x.outs {
			sum[o.asset] += o.value
		}
		if m.Amount["base_amount"] != sum[LBTC] || m.Amount["quote_amount"] != sum[s.quotes[x.market]] || m.Market["quote_asset"] != s.quotes[x.market] || m.Market["base_asset"] != LBTC {
			w.Violate("C18", "wrong-message", "%s is told of the withdrawal %s with other amounts: %s", ep, x.c.tag, body)
		}
		if s.faulted(x.c.tag, "http-cut", "http-html", "http-trunc") {
			// the identifier was garbled on its way
		} else if (m.Txid != "") != x.push || x.push && s.ch.Txs[m.Txid] == nil {
			w.Violate("C18", "wrong-message", "%s is told of the withdrawal %s with transaction %q", ep, x.c.tag, m.Txid)
		}
		if x.c.done && x.c.err != nil {
			w.Violate("C18", "failed-announced", "%s is told of the withdrawal %s, which failed: %v", ep, x.c.tag, x.c.err)
		}
	default:
		w.Violate("C18", "wrong-message", "%s receives %q", ep, short80(body))
		return 200, "ok"
	}
	if !h.wants(p.kind) {
		w.Violate("C18", "wrong-topic", "the hook %s, registered for %s, is called for %s", ep, h.action, p.kind)
	}
	s.posts = append(s.posts, p)
	return 200, "ok"
}

func (s *w1) addHook(op *Op, step int, action pbop.ActionType) {
	w := s.w
	h := &w1hook{action: action, endpoint: fmt.Sprintf("http://hook%d-%d.sim/tdex", op.ID, step)}
	if op.Arg(1)%2 == 0 {
		h.secret = fmt.Sprintf("secret-%d-%d", op.ID, step)
	}
	s.whooks = append(s.whooks, h)
	c := s.api(op, step, "addhook", func(ctx context.Context, d *Daemon) error {
		r, err := d.Oper.AddWebhook(ctx, &pbop.AddWebhookRequest{Endpoint: h.endpoint, Action: h.action, Secret: h.secret})
		if err == nil {
			h.id = r.GetId()
		}
		return err
	})
	h.add = c
	if c.ok() {
		w.Stat("hooks.added")
	}
}

func (s *w1) rmHook(op *Op) {
	var l []*w1hook
	for _, h := range s.whooks {
		if h.id != "" && h.add.ok() && h.rmInv == 0 {
			l = append(l, h)
		}
	}
	if len(l) == 0 {
		return
	}
	h := l[int(op.Arg(1))%len(l)]
	s.w.seq++
	h.rmInv = s.w.seq
	h.rm = s.api(op, 0, "rmhook", func(ctx context.Context, d *Daemon) error {
		_, err := d.Oper.RemoveWebhook(ctx, &pbop.RemoveWebhookRequest{Id: h.id})
		return err
	})
	if h.rm == nil {
		h.rmInv = 0
	}
}

func (s *w1) listHooks(op *Op, step int, a pbop.ActionType, calm bool) {
	w := s.w
	var rep *pbop.ListWebhooksReply
	c := s.api(op, step, "listhooks", func(ctx context.Context, d *Daemon) (err error) {
		rep, err = d.Oper.ListWebhooks(ctx, &pbop.ListWebhooksRequest{Action: a})
		return err
	})
	if !c.ok() {
		if calm && c != nil && c.done {
			w.Violate("C18", "list-fails", "with no fault the hooks cannot be listed: %v", c.err)
		}
		return
	}
	if s.locked() != 0 || !calm && s.faulted(c.tag) {
		return
	}
	seen := map[string]bool{}
	for _, x := range rep.GetWebhookInfo() {
		if seen[x.GetId()] {
			w.Violate("C18", "listed-twice", "the hook for %s is listed twice", x.GetEndpoint())
		}
		seen[x.GetId()] = true
		var h *w1hook
		for _, y := range s.whooks {
			if y.endpoint == x.GetEndpoint() {
				h = y
			}
		}
		switch {
		case h == nil:
			w.Violate("C18", "unknown-listed", "a hook for %s is listed and was never registered", x.GetEndpoint())
		case !h.wants(a):
			w.Violate("C18", "listed-for-other-topic", "the hook %s, registered for %s, is listed for %s", h.endpoint, h.action, a)
		case h.during(c.inv, c.ret) < 0:
			w.Violate("C18", "listed-though-removed", "the hook %s is listed after its removal was acknowledged", h.endpoint)
		case x.GetIsSecured() != (h.secret != ""):
			w.Violate("C18", "listed-wrong", "the hook %s is listed with secured %v", h.endpoint, x.GetIsSecured())
		}
	}
	for _, h := range s.whooks {
		// the store of the hooks is opened in the background of an unlock
		if w.devKinds["bolt-error"] > 0 || !s.unlocked || c.invT < s.unlockAt+8*time.Second {
			break
		}
		if h.wants(a) && h.id != "" && h.during(c.inv, c.ret) > 0 && !seen[h.id] {
			if s.hookDoubt {
				if calm {
					w.Violate("C18", "lost-by-interrupted-change", "after an interrupted passphrase change the hooks are not readable any more")
				}
				break
			}
			w.Violate("C18", "not-listed", "the hook %s, registered for %s, is not listed for %s", h.endpoint, h.action, a)
		}
	}
	w.Stat("lists.checked")
}

// checkHooks: everything that happened was announced, once.
func (s *w1) checkHooks(op *Op) {
	w := s.w
	if w.Cfg("hooks") == 0 {
		return
	}
	for a := pbop.ActionType(0); a <= 3; a++ {
		s.listHooks(op, 600+int(a), a, true)
	}
	trouble := s.hookDoubt || w.devKinds["bolt-error"] > 0
	for k := range w.devKinds {
		trouble = trouble || strings.HasPrefix(k, "hook-")
	}
	n := map[*w1hook]map[string][]*w1post{}
	for _, p := range s.posts {
		if n[p.h] == nil {
			n[p.h] = map[string][]*w1post{}
		}
		n[p.h][p.key] = append(n[p.h][p.key], p)
	}
	judge := func(h *w1hook, key, what string, st int, must bool) {
		g := n[h][key]
		if len(g) > 1 {
			w.Violate("C18", "called-twice", "the hook %s is called %d times for %s", h.endpoint, len(g), what)
		}
		if len(g) > 0 && st < 0 {
			w.Violate("C18", "called-though-removed", "the hook %s is called for %s though it was removed before", h.endpoint, what)
		}
		if must && st > 0 && len(g) == 0 {
			w.Violate("C18", "not-called", "the hook %s, registered for %s, is not called for %s", h.endpoint, h.action, what)
		}
		w.Stat("pubs.checked")
	}
	for _, p := range s.pays {
		if p.kind != "withdraw" || p.c == nil || p.c.ret == 0 {
			continue
		}
		// the notification follows the answer
		must := p.c.ok() && !trouble && !s.faulted(p.c.tag) && s.livedUntil(p.c.gen, p.c.retT+20*time.Second)
		for _, h := range s.whooks {
			if h.wants(pbop.ActionType_ACCOUNT_WITHDRAW) {
				// removed before the withdrawal was requested
				judge(h, p.addr, "the withdrawal "+p.c.tag, h.during(p.c.inv, ^uint64(0)), must)
			}
		}
	}
	sn := s.monitor()
	for _, t := range s.trades {
		if t.txid == "" {
			continue
		}
		st := sn.trade(t)
		must := st != nil && st.IsSettled() && len(w.devs) == 0 && len(s.dropAcct) == 0 && t.failInv == 0
		for _, h := range s.whooks {
			if h.wants(pbop.ActionType_TRADE_SETTLED) {
				judge(h, t.txid, "the settlement of "+t.acceptID, h.during(t.ack, ^uint64(0)), must)
			}
		}
	}
}

// livedUntil: the daemon was not stopped before.
func (s *w1) livedUntil(gen int, t time.Duration) bool {
	if s.h.D != nil && s.h.D.Gen.ID == gen {
		return true
	}
	b, ok := s.bootAt[gen+1]
	return ok && s.genEnd[gen] > t && b > t
}
