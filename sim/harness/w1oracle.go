//go:build go1.22

package verifsim

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	pbop "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	rt "github.com/tdex-network/tdex-daemon/verifsimrt"
	pbtrade "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	pbtypes "github.com/tdex-network/tdex-protobuf/generated/go/types"
)

// ---- snapshots of what is stored ---------------------------------------

type snapshot struct {
	gen      int
	coins    map[outpoint]*domain.Unspent
	coinList []*domain.Unspent
	trades   map[string]*domain.Trade // by id
	byAccept map[string]*domain.Trade
	byReq    map[string][]*domain.Trade
	markets  []domain.Market
	vault    *domain.Vault
	dup      string
}

func (sn *snapshot) trade(t *w1trade) *domain.Trade {
	if sn == nil || t.acceptID == "" {
		return nil
	}
	return sn.byAccept[t.acceptID]
}

func (sn *snapshot) market(quote string) *domain.Market {
	if sn == nil {
		return nil
	}
	for i := range sn.markets {
		if sn.markets[i].QuoteAsset == quote {
			return &sn.markets[i]
		}
	}
	return nil
}

// snap reads the stores of the running daemon; nil while it is down.
func (s *w1) snap() *snapshot {
	d := s.h.D
	if d == nil {
		return nil
	}
	commits := rt.Commits
	if s.lastSnap != nil && s.lastSnap.gen == d.Gen.ID && s.lastCommits == commits {
		return s.lastSnap
	}
	sn := &snapshot{gen: d.Gen.ID, coins: map[outpoint]*domain.Unspent{}, trades: map[string]*domain.Trade{}, byAccept: map[string]*domain.Trade{}, byReq: map[string][]*domain.Trade{}}
	ok := true
	s.w.Quiet(func() {
		ctx := context.Background()
		us := d.Repo.UnspentRepository().GetAllUnspents(ctx)
		for i := range us {
			o := outpoint{us[i].TxID, us[i].VOut}
			if sn.coins[o] != nil {
				sn.dup = o.String()
			}
			sn.coins[o] = &us[i]
			sn.coinList = append(sn.coinList, &us[i])
		}
		ts, err := d.Repo.TradeRepository().GetAllTrades(ctx)
		if err != nil {
			ok = false
			return
		}
		for _, t := range ts {
			if t.IsEmpty() {
				continue
			}
			sn.trades[t.ID.String()] = t
			if t.SwapAccept.ID != "" {
				sn.byAccept[t.SwapAccept.ID] = t
			}
			sn.byReq[t.SwapRequest.ID] = append(sn.byReq[t.SwapRequest.ID], t)
		}
		sn.markets, err = d.Repo.MarketRepository().GetAllMarkets(ctx)
		if err != nil {
			ok = false
			return
		}
		sn.vault, err = d.Repo.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
		if err != nil {
			ok = false
		}
	})
	if s.h.D != d || !ok {
		return nil
	}
	sort.Slice(sn.coinList, func(i, j int) bool {
		a, b := sn.coinList[i], sn.coinList[j]
		if a.TxID != b.TxID {
			return a.TxID < b.TxID
		}
		return a.VOut < b.VOut
	})
	for _, u := range sn.coinList {
		o := outpoint{u.TxID, u.VOut}
		if !u.Spent && !s.known[o] {
			s.known[o] = true
			s.knownList = append(s.knownList, o)
		}
	}
	s.lastSnap, s.lastCommits = sn, commits
	return sn
}

func statusString(st domain.Status) string {
	n := map[int]string{-1: "empty", 0: "undefined", 1: "proposal", 2: "accepted", 3: "completed", 4: "settled", 5: "expired"}[st.Code]
	if st.Failed && st.Code != domain.Expired {
		n += "-failed"
	}
	return n
}

// ---- invariants, checked after every request and every second ----------

func (s *w1) monitor() *snapshot {
	w := s.w
	sn := s.snap()
	if sn == nil {
		return nil
	}
	w.Stat("monitor")
	var key []string
	// C02, C05: trades
	ids := sortedKeys(sn.trades)
	for _, id := range ids {
		t := sn.trades[id]
		old := s.seen[id]
		s.seen[id] = t
		key = append(key, statusString(t.Status))
		if t.IsSettled() {
			if t.TxHex == "" {
				w.Violate("C07", "settled-without-tx", "trade %s is recorded as settled without its transaction", id)
			}
			tx := s.ch.Txs[t.TxID]
			if tx == nil || tx.Height == 0 {
				w.Violate("C07", "settled-unconfirmed", "trade %s is recorded as settled but its transaction %s is not confirmed", id, short(t.TxID))
			} else if int64(t.SettlementTime) != tx.Time {
				w.Violate("C07", "settlement-time", "trade %s is settled with time %d, the block has %d", id, t.SettlementTime, tx.Time)
			}
		}
		if old == nil {
			continue
		}
		if t.IsSettled() && !old.IsSettled() && s.seenGen[id] == sn.gen {
			s.settledIn[id] = [2]int64{int64(sn.gen), int64(w.Now())}
		}
		a, b := old.Status, t.Status
		if a != b && !forward(a, b) {
			p := "C02"
			w.Violate(p, "backward-"+statusString(a)+"-"+statusString(b), "trade %s moved from %s to %s", id, statusString(a), statusString(b))
			if s.seenGen[id] != sn.gen {
				w.Violate("C05", "status-lost", "trade %s was %s before the restart and is %s after", id, statusString(a), statusString(b))
			}
		}
		if d := changedTerms(old, t); d != "" {
			w.Violate("C02", "changed-"+d, "%s of trade %s changed after it was set", d, id)
		}
	}
	for id, t := range s.seen {
		if sn.trades[id] == nil {
			w.Violate("C05", "trade-vanished", "trade %s (%s) is not stored any more", id, statusString(t.Status))
			delete(s.seen, id)
		}
	}
	for _, id := range ids {
		s.seenGen[id] = sn.gen
	}
	for _, t := range s.trades {
		if !t.replied || t.rejected {
			continue
		}
		st := sn.trade(t)
		if st == nil {
			w.Violate("C05", "accepted-unknown", "the daemon does not know trade %s, which it accepted", t.acceptID)
			continue
		}
		if int64(st.ExpiryTime) != t.expiry && !(st.IsSettled() && st.ExpiryTime == 0) {
			w.Violate("C05", "expiry-changed", "trade %s expires at %d, the trader was told %d", t.acceptID, st.ExpiryTime, t.expiry)
		}
		s.noteChain(t)
		now := time.Now().Unix()
		if st.Status.Code == domain.Accepted && !st.Status.Failed && now <= t.expiry && !t.bcast {
			for _, o := range t.coins {
				u := sn.coins[o]
				if u == nil || u.Spent {
					continue
				}
				if !u.Locked {
					w.Violate("C06", "released-while-live", "coin %s of the live trade %s is not reserved", o, t.acceptID)
				} else if u.LockedBy == nil || u.LockedBy.String() != st.ID.String() {
					w.Violate("C06", "reserved-for-other", "coin %s of the live trade %s is reserved by %v", o, t.acceptID, u.LockedBy)
				}
			}
		}
	}
	// C08: coins
	if sn.dup != "" {
		w.Violate("C08", "coin-twice", "coin %s is recorded twice", sn.dup)
	}
	sp, lk, un := 0, 0, 0
	for _, u := range sn.coinList {
		o := outpoint{u.TxID, u.VOut}
		c := s.ch.Utxo[o]
		if c == nil {
			if s.unpushed == 0 {
				w.Violate("C08", "coin-not-on-chain", "recorded coin %s does not exist", o)
			}
			continue
		}
		if ow := s.ownOf(c.Script); ow == nil {
			w.Violate("C08", "coin-not-owned", "recorded coin %s is not the daemon's", o)
		} else if ad := s.ownAddrCached(u.Address); ad == nil || ad.script != c.Script {
			w.Violate("C08", "coin-wrong-address", "coin %s is recorded under address %s", o, short(u.Address))
		}
		if c.Value != u.Value || c.Asset != u.AssetHash {
			w.Violate("C08", "coin-wrong-value", "coin %s holds %d of %s, recorded as %d of %s", o, c.Value, short(c.Asset), u.Value, short(u.AssetHash))
		}
		if u.Confirmed && !s.ch.Confirmed(o.Txid) {
			w.Violate("C08", "coin-confirmed-early", "unconfirmed coin %s is recorded as confirmed", o)
		}
		if u.Spent {
			sp++
			if c.SpentBy == "" && s.unpushed == 0 {
				w.Violate("C08", "unspent-recorded-spent", "coin %s is recorded as spent and is not", o)
			}
			s.spentRec[o] = sn.gen
		} else {
			if g, ok := s.spentRec[o]; ok && g == sn.gen {
				w.Violate("C08", "spent-coin-back", "coin %s was recorded as spent and is available again", o)
			}
			if u.Locked {
				lk++
			} else {
				un++
			}
		}
	}
	// C10: markets
	pairs := map[string]int{}
	accts := map[int]bool{}
	for _, m := range sn.markets {
		accts[m.AccountIndex] = true
		op := 0
		if m.Tradable {
			op = 1
		}
		key = append(key, fmt.Sprintf("m%d.%d", m.AccountIndex, op))
		if m.QuoteAsset == "" {
			continue
		}
		if a, ok := pairs[m.QuoteAsset]; ok {
			w.Violate("C10", "pair-shared", "markets of accounts %d and %d have the same pair", a, m.AccountIndex)
		}
		pairs[m.QuoteAsset] = m.AccountIndex
		if last, ok := s.mktAsset[m.AccountIndex]; ok && last != m.QuoteAsset {
			w.Violate("C10", "market-retargeted", "the market of account %d moved from quote %s to %s", m.AccountIndex, short(last), short(m.QuoteAsset))
		}
		s.mktAsset[m.AccountIndex] = m.QuoteAsset
	}
	for _, a := range sortedInts(s.accounts) {
		if !accts[a] && !s.dropAcct[a] {
			w.Violate("C10", "market-lost", "the market of account %d, whose addresses were handed out by %s, is not stored", a, s.accounts[a])
		}
	}
	w.State(append(key, fmt.Sprintf("%d/%d/%d", bucket(sp), bucket(lk), bucket(un)), fmt.Sprint(sn.vault.IsLocked()))...)
	return sn
}

func bucket(n int) int {
	if n > 3 {
		return 4
	}
	return n
}

func forward(a, b domain.Status) bool {
	if a.Code == domain.Settled {
		return false
	}
	if b.Code == domain.Settled {
		return a.Code >= domain.Accepted
	}
	if b.Code == domain.Expired {
		return a.Code == domain.Accepted || a.Code == domain.Completed
	}
	if a.Failed || a.Code == domain.Expired {
		return false
	}
	if b.Code < a.Code {
		return false
	}
	return true
}

func changedTerms(a, b *domain.Trade) string {
	sw := func(x, y domain.Swap) bool {
		return x.ID != "" && (x.ID != y.ID || !bytes.Equal(x.Message, y.Message) || x.Timestamp != y.Timestamp)
	}
	switch {
	case a.MarketQuoteAsset != b.MarketQuoteAsset:
		return "market"
	case a.MarketFee != b.MarketFee || a.MarketFixedBaseFee != b.MarketFixedBaseFee || a.MarketFixedQuoteFee != b.MarketFixedQuoteFee:
		return "fee"
	case !a.MarketPrice.BasePrice.Equal(b.MarketPrice.BasePrice) || !a.MarketPrice.QuotePrice.Equal(b.MarketPrice.QuotePrice):
		return "price"
	case a.TxID != "" && a.TxID != b.TxID:
		return "txid"
	case a.ExpiryTime != 0 && a.ExpiryTime != b.ExpiryTime && !(b.IsSettled() && b.ExpiryTime == 0):
		return "expiry"
	case a.SettlementTime != 0 && a.SettlementTime != b.SettlementTime:
		return "settlement-time"
	case sw(a.SwapRequest, b.SwapRequest):
		return "swap-request"
	case sw(a.SwapAccept, b.SwapAccept):
		return "swap-accept"
	case sw(a.SwapComplete, b.SwapComplete):
		return "swap-complete"
	}
	return ""
}

func (s *w1) ownAddrCached(a string) *own {
	if o, ok := s.addrCache[a]; ok && o != nil {
		return o
	}
	o := s.ownAddr(a)
	s.addrCache[a] = o
	return o
}

// afterBoot checks what a restarted daemon knows.
func (s *w1) afterBoot() {
	sn := s.monitor()
	if sn == nil || sn.vault == nil {
		return
	}
	s.checkListed(sn)
}

// checkListed: every address handed out or used is listed for its account.
func (s *w1) checkListed(sn *snapshot) {
	w := s.w
	known := map[string]string{}
	for _, a := range sortedInts(sn.vault.Accounts) {
		for sc, p := range sn.vault.Accounts[a].DerivationPathByScript {
			known[sc] = p
		}
	}
	for _, h := range s.handed {
		if p, ok := known[h.own.script]; !ok {
			w.Violate("C09", "address-forgotten", "address %s handed out by %s is not recorded any more", h.own.path, h.c.tag)
		} else if p != h.own.path {
			w.Violate("C09", "wrong-path", "address %s is recorded under path %s", h.own.path, p)
		}
	}
	for _, sc := range sortedKeys(s.usedChg) {
		if _, ok := known[sc]; !ok {
			o := s.owned[sc]
			w.Violate("C09", "address-forgotten", "address %s used by %s is not recorded any more", o.path, s.usedChg[sc])
		}
	}
	for _, t := range s.trades {
		if st := sn.trade(t); st != nil && t.replied && !t.rejected {
			if st.SwapRequest.ID != t.pr.req.Id || st.MarketQuoteAsset != s.quotes[t.market] || st.TxID != t.txid {
				w.Violate("C05", "terms-changed", "trade %s is stored with other terms after a restart", t.acceptID)
			}
		}
	}
}

func (s *w1) noteChain(t *w1trade) {
	if t.bcast || t.txid == "" {
		return
	}
	if s.ch.Txs[t.txid] != nil {
		t.bcast = true
		t.bcastT = s.w.Now()
		t.bcastU = time.Now().Unix()
	}
}

// useOwn notes that an address of the daemon is used by something.
func (s *w1) useOwn(o *own, by string) {
	w := s.w
	if prev, ok := s.usedChg[o.script]; ok && prev != by {
		w.Violate("C09", "address-reused", "%s was used by %s and again by %s", o.path, prev, by)
	} else if h := s.handedBy[o.script]; h != nil {
		w.Violate("C09", "address-reused", "%s was handed out by %s and used by %s", o.path, h.c.tag, by)
	}
	s.usedChg[o.script] = by
}

// ---- transactions leaving the daemon -----------------------------------

func (s *w1) onBroadcast(tg *rt.Tag, txhex, txid string, err error) {
	if tg.Quiet {
		return
	}
	w := s.w
	w.seq++
	w.Stat("broadcasts")
	b := &bcast{at: w.Now(), tag: tg.Name, txid: txid, err: err, seq: w.seq}
	if tg.Gen != nil {
		b.gen = tg.Gen.ID
	}
	if tx, e := decodeTx(txhex); e == nil {
		b.tx = tx
		b.txid = tx.Txid
	}
	s.bcasts = append(s.bcasts, b)
	known := false
	if r := cmplByTag[tg.Name]; r != nil {
		known = r.t.bcast
		b.known = known
	}
	for _, t := range s.trades {
		s.noteChain(t)
	}
	if s.locked() == 1 && cmplByTag[tg.Name] == nil {
		w.Violate("C12", "broadcast-locked", "%s broadcast a transaction while the wallet is locked", tg.Name)
	}
	if b.tx == nil {
		w.Violate("C04", "broadcast-garbage", "%s submitted something that is not a transaction", tg.Name)
		return
	}
	if r := cmplByTag[tg.Name]; r != nil {
		t := r.t
		if b.txid != t.txid {
			w.Violate("C04", "other-tx-broadcast", "the completion of %s broadcast %s, the accepted transaction is %s", t.acceptID, short(b.txid), short(t.txid))
		}
		// what the network has already cannot be sent too late
		if r.invU > t.expiry && !known {
			w.Violate("C04", "expired-broadcast", "the completion of %s, invoked %d s after its expiry, broadcast it", t.acceptID, r.invU-t.expiry)
		}
		if t.failOK > 0 && t.failOK < r.inv {
			w.Violate("C04", "failed-broadcast", "trade %s was failed before its completion broadcast it", t.acceptID)
		}
		return
	}
	if p := payByTag[tg.Name]; p != nil {
		if !p.push {
			w.Violate("C13", "pushed-unasked", "%s asked not to push and the transaction was broadcast", tg.Name)
		}
		p.taken = p.taken || err == nil
		s.checkPayTx(p, b.tx, "broadcast")
		return
	}
	w.Violate("C04", "unexpected-broadcast", "%s broadcast transaction %s", tg.Name, short(b.txid))
}

// checkPayTx checks the transaction of a withdrawal or send.
func (s *w1) checkPayTx(p *payment1, tx *simTx, what string) {
	w := s.w
	by := p.c.tag
	in := map[int]map[string]uint64{}
	add := func(a int, as string, v uint64) {
		if in[a] == nil {
			in[a] = map[string]uint64{}
		}
		in[a][as] += v
	}
	for _, i := range tx.Tx.Inputs {
		o := inOutpoint(i)
		c := s.ch.Utxo[o]
		if c == nil {
			w.Violate("C13", "unknown-input", "%s of %s spends %s, which does not exist", what, by, o)
			continue
		}
		ow := s.ownOf(c.Script)
		if ow == nil {
			w.Violate("C13", "foreign-input", "%s of %s spends %s, which is not the daemon's", what, by, o)
			continue
		}
		if ow.acct != 0 && p.acct >= 0 && ow.acct != p.acct && !s.dropAcct[p.acct] {
			w.Violate("C13", "other-account", "%s of %s spends a coin of account %d, not %d", what, by, ow.acct, p.acct)
		}
		if !s.ch.Confirmed(o.Txid) && (p.kind == "withdraw" || ow.acct == 0) {
			w.Violate("C08", "unconfirmed-offered", "%s of %s spends %s of account %d, which is not confirmed", what, by, o, ow.acct)
		}
		add(ow.acct, c.Asset, c.Value)
		for _, t := range s.trades {
			if t.accTx == nil || t.failInv > 0 || time.Now().Unix() >= t.expiry {
				continue
			}
			for _, x := range t.coins {
				if x == o {
					w.Violate("C01", "payment-spends-reserved", "%s of %s spends %s, which is committed to the live trade %s", what, by, o, t.acceptID)
				}
			}
		}
	}
	want := append([]outSpec{}, p.outs...)
	fee := uint64(0)
	for _, o := range tx.Outs {
		if o.Script == "" {
			fee += o.Value
			if o.Asset != LBTC {
				w.Violate("C13", "fee-asset", "%s of %s pays network fees in %s", what, by, short(o.Asset))
			}
			continue
		}
		hit := false
		for i, x := range want {
			if hex.EncodeToString(x.script) == o.Script && x.asset == o.Asset && x.value == o.Value {
				want = append(want[:i:i], want[i+1:]...)
				hit = true
				break
			}
		}
		if hit {
			continue
		}
		ow := s.ownOf(o.Script)
		if ow == nil {
			w.Violate("C13", "foreign-output", "%s of %s pays %d of %s to a script nobody asked for", what, by, o.Value, short(o.Asset))
			continue
		}
		s.useOwn(ow, by)
		if in[ow.acct] == nil || in[ow.acct][o.Asset] < o.Value {
			w.Violate("C13", "change-to-other-account", "%s of %s sends %d of %s to account %d, which did not contribute it", what, by, o.Value, short(o.Asset), ow.acct)
			continue
		}
		in[ow.acct][o.Asset] -= o.Value
	}
	if len(want) > 0 {
		w.Violate("C13", "missing-output", "%s of %s does not pay %d of %s as asked", what, by, want[0].value, short(want[0].asset))
	}
	sum := map[string]uint64{}
	for _, o := range p.outs {
		sum[o.asset] += o.value
	}
	for _, a := range sortedInts(in) {
		for _, as := range sortedKeys(in[a]) {
			v := in[a][as]
			exp := sum[as]
			if a == 0 {
				exp = 0
				if as == LBTC {
					exp = fee
				}
			}
			if v != exp {
				w.Violate("C13", "surplus-lost", "%s of %s takes %d of %s from account %d, expected %d", what, by, v, short(as), a, exp)
			}
		}
	}
	// the rate asked for, at least the minimum, times a rough size
	rate := uint64(p.rate)
	if p.rate < 100 {
		rate = 100
	}
	lo, hi := rate*uint64(68*len(tx.Tx.Inputs)+100*len(tx.Outs))/1000, rate*uint64(300*len(tx.Tx.Inputs)+3000*len(tx.Outs)+600)/1000
	if fee < lo && (p.taken || !p.push) || fee > hi {
		w.Violate("C13", "fee-amount", "%s of %s pays network fees of %d, at a rate of %d expected between %d and %d", what, by, fee, p.rate, lo, hi)
	}
}

func (s *w1) checkPayment(p *payment1) {
	w := s.w
	c := p.c
	var mine []*bcast
	for _, b := range s.bcasts {
		if b.tag == c.tag {
			mine = append(mine, b)
		}
	}
	if !c.done {
		return
	}
	if c.err != nil {
		w.Stat("payments.refused")
		for _, b := range mine {
			if b.err == nil && !s.netTrouble(c) {
				w.Violate("C13", "failed-but-sent", "%s was reported as failed (%v) but %s was broadcast", c.tag, c.err, short(b.txid))
			}
		}
		return
	}
	w.Stat("payments.ok")
	tx, err := decodeTx(p.raw)
	if err != nil {
		w.Violate("C13", "bad-raw-tx", "%s returned an invalid transaction: %v", c.tag, err)
		return
	}
	if p.push {
		ok := false
		for _, b := range mine {
			ok = ok || b.err == nil && b.txid == tx.Txid
		}
		if !ok {
			w.Violate("C13", "not-sent", "%s was reported successful but %s was not broadcast", c.tag, short(tx.Txid))
		}
	} else {
		for _, o := range mine {
			w.Violate("C13", "pushed-unasked", "%s asked not to push and %s was broadcast", c.tag, short(o.txid))
		}
		s.checkPayTx(p, tx, "unpushed transaction")
	}
	if s.locked() == 1 {
		w.Violate("C12", "signed-locked", "%s signed a transaction while the wallet is locked", c.tag)
	}
}

// ---- acceptances --------------------------------------------------------

func (s *w1) accepted(t *w1trade, rep *pbtrade.TradeProposeReply, pre *snapshot, alone bool, variant int) {
	w := s.w
	w.Stat("trades.accepted")
	acc := rep.SwapAccept
	req := t.pr.req
	id := acc.Id
	t.acceptID, t.expiry, t.pset = id, int64(rep.ExpiryTimeUnix), acc.Transaction
	w.seq++
	t.ack, t.ackT = w.seq, w.Now()
	now := time.Now().Unix()
	post := s.snap()
	if s.locked() == 1 {
		w.Violate("C12", "accepted-locked", "swap %s was accepted while the wallet is locked", id)
	}
	if acc.RequestId != req.Id {
		w.Violate("C03", "wrong-request", "acceptance %s answers request %s, not %s", id, acc.RequestId, req.Id)
	}
	ex := int64(s.h.Opts.Expiry.Seconds())
	if t.expiry < t.invU+ex || t.expiry > now+ex {
		w.Violate("C03", "expiry", "swap %s accepted between %d and %d expires at %d (duration %d)", id, t.invU, now, t.expiry, ex)
	}
	p, err := psetTx(acc.Transaction)
	if err != nil {
		w.Violate("C03", "bad-transaction", "the transaction of acceptance %s is invalid: %v", id, err)
		return
	}
	hx, err := p.UnsignedTx.ToHex()
	if err != nil {
		w.Violate("C03", "bad-transaction", "the transaction of acceptance %s is invalid: %v", id, err)
		return
	}
	tx, err := decodeTx(hx)
	if err != nil {
		w.Violate("C03", "bad-transaction", "the transaction of acceptance %s is invalid: %v", id, err)
		return
	}
	t.accTx, t.txid = tx, tx.Txid
	mkt := t.market
	if m := post.market(s.quotes[mkt]); m == nil {
		m = pre.market(s.quotes[mkt])
		_ = m
	}
	acct := -1
	for _, sn := range []*snapshot{pre, post} {
		if m := sn.market(s.quotes[mkt]); m != nil {
			acct = m.AccountIndex
		}
	}
	// inputs
	type bal struct{ in, out uint64 }
	flow := map[int]map[string]*bal{}
	fl := func(a int, as string) *bal {
		if flow[a] == nil {
			flow[a] = map[string]*bal{}
		}
		if flow[a][as] == nil {
			flow[a][as] = &bal{}
		}
		return flow[a][as]
	}
	left := map[outpoint]bool{}
	for _, o := range t.pr.psetIns {
		left[o] = true
	}
	for i, inp := range tx.Tx.Inputs {
		o := inOutpoint(inp)
		if left[o] {
			delete(left, o)
			if i >= len(t.pr.psetIns) || t.pr.psetIns[i] != o {
				w.Violate("C03", "inputs-moved", "acceptance %s reorders the inputs of the trader", id)
			}
			continue
		}
		c := s.ch.Utxo[o]
		if c == nil {
			w.Violate("C03", "unknown-input", "acceptance %s spends %s, which does not exist", id, o)
			continue
		}
		ow := s.ownOf(c.Script)
		if ow == nil {
			w.Violate("C03", "foreign-input", "acceptance %s spends %s, which belongs neither to the daemon nor to the proposal", id, o)
			continue
		}
		if ow.acct != 0 && ow.acct != acct && acct >= 0 {
			w.Violate("C03", "other-account", "acceptance %s for the market of account %d spends a coin of account %d", id, acct, ow.acct)
		}
		fl(ow.acct, c.Asset).in += c.Value
		t.coins = append(t.coins, o)
		if !s.ch.Confirmed(o.Txid) {
			w.Violate("C08", "unconfirmed-offered", "swap %s offers %s, which is not confirmed", id, o)
		}
		// C01
		if c.SpentBy != "" && c.SpentBy != t.txid {
			by := s.ch.Txs[c.SpentBy].By
			excuse := s.faulted(by) || strings.HasPrefix(by, "trader") || s.coinReleased(o, t)
			if pc := s.callOf(by); pc != nil {
				excuse = excuse || !pc.done && pc.gen == t.c.gen || pc.ret == 0 || s.netTrouble(pc)
			}
			if !excuse {
				w.Violate("C01", "spent-coin-offered", "swap %s offers %s, already spent by %s (%s)", id, o, short(c.SpentBy), by)
			}
		}
		if u := pre.coin(o); u != nil && u.Spent {
			w.Violate("C01", "recorded-spent-offered", "swap %s offers %s, which was recorded as spent", id, o)
		}
		for _, x := range s.trades {
			if x == t || x.accTx == nil || x.failInv > 0 || now >= x.expiry || now >= t.expiry {
				continue
			}
			for _, y := range x.coins {
				if y == o {
					w.Violate("C01", "coin-in-two-trades", "coin %s is committed to the live trades %s and %s", o, x.acceptID, id)
				}
			}
		}
	}
	if len(left) > 0 {
		w.Violate("C03", "inputs-dropped", "acceptance %s drops %d inputs of the trader", id, len(left))
	}
	// outputs
	want := append([]outSpec{}, t.pr.outs...)
	fee, fees := uint64(0), 0
	gotP := 0
	for _, o := range tx.Outs {
		if o.Script == "" {
			fee += o.Value
			fees++
			if o.Asset != LBTC {
				w.Violate("C03", "fee-asset", "acceptance %s pays network fees in %s", id, short(o.Asset))
			}
			continue
		}
		if o.Script == t.pr.key.scriptHex() {
			hit := false
			for i, x := range want {
				if x.asset == o.Asset && x.value == o.Value {
					want = append(want[:i:i], want[i+1:]...)
					hit = true
					break
				}
			}
			if !hit {
				w.Violate("C03", "trader-output-changed", "acceptance %s pays the trader %d of %s, which the proposal does not ask", id, o.Value, short(o.Asset))
			}
			continue
		}
		ow := s.ownOf(o.Script)
		if ow == nil {
			w.Violate("C03", "foreign-output", "acceptance %s pays %d of %s to a stranger", id, o.Value, short(o.Asset))
			continue
		}
		s.useOwn(ow, "trade "+id)
		fl(ow.acct, o.Asset).out += o.Value
		if ow.acct == acct && o.Asset == req.AssetP && o.Value == req.AmountP && ow.chain == 0 {
			gotP++
		}
	}
	if len(want) > 0 {
		w.Violate("C03", "trader-output-missing", "acceptance %s does not pay the trader %d of %s as proposed", id, want[0].value, short(want[0].asset))
	}
	if gotP != 1 {
		w.Violate("C03", "payment-output", "acceptance %s has %d outputs of %d %s to a market address, expected 1", id, gotP, req.AmountP, short(req.AssetP))
	}
	if acct >= 0 {
		if b := fl(acct, req.AssetP); int64(b.out-b.in) != int64(req.AmountP) {
			w.Violate("C03", "amount-received", "with acceptance %s the market receives %d of %s, agreed %d", id, int64(b.out-b.in), short(req.AssetP), req.AmountP)
		}
		if b := fl(acct, req.AssetR); int64(b.in-b.out) != int64(req.AmountR) {
			w.Violate("C03", "amount-sent", "with acceptance %s the market sends %d of %s, agreed %d", id, int64(b.in-b.out), short(req.AssetR), req.AmountR)
		}
		for _, as := range sortedKeys(flow[acct]) {
			if as != req.AssetP && as != req.AssetR {
				w.Violate("C03", "other-asset", "acceptance %s moves %s of the market", id, short(as))
			}
		}
	}
	for _, as := range sortedKeys(flow[0]) {
		b := flow[0][as]
		if as != LBTC || b.in-b.out != fee {
			w.Violate("C03", "fee-account", "acceptance %s takes %d of %s from the fee account, the network fee is %d", id, int64(b.in-b.out), short(as), fee)
		}
	}
	if flow[0] == nil || fees != 1 || fee == 0 || fee > uint64(600*len(tx.Outs)+60*len(tx.Tx.Inputs)+600) {
		w.Violate("C03", "fee-amount", "acceptance %s pays network fees of %d", id, fee)
	}
	// market and price
	if market := t.pr.req; true {
		wantP, wantR := s.quotes[mkt], LBTC
		if !t.buy {
			wantP, wantR = LBTC, s.quotes[mkt]
		}
		if market.AssetP != wantP || market.AssetR != wantR {
			w.Violate("C03", "wrong-assets", "swap %s of %s for %s was accepted as a %s of market %d", id, short(market.AssetP), short(market.AssetR), side(t.buy), mkt)
		}
	}
	s.checkTerms(t, pre, post, alone)
	if variant == vMalformed || variant == vForeign || variant == vWrongBase {
		w.Violate("C03", fmt.Sprintf("bad-proposal-%d", variant), "a proposal of kind %d was accepted", variant)
	}
	// what was stored
	if st := post.trade(t); post != nil && post.gen == t.c.gen {
		if st == nil {
			w.Violate("C05", "accepted-unknown", "acceptance %s was sent before the trade was stored", id)
		} else {
			t.tradeID = st.ID.String()
			if st.TxID != t.txid {
				w.Violate("C04", "txid-recorded", "trade %s records transaction %s, the accepted one is %s", id, short(st.TxID), short(t.txid))
			}
			s.record(t.c, mkt, setop{kind: "readfee", st: setState{exists: true, open: true, bp: st.MarketFee, fb: st.MarketFixedBaseFee, fq: st.MarketFixedQuoteFee}})
			for _, sn := range []*snapshot{pre, post} {
				m := sn.market(s.quotes[mkt])
				if m == nil {
					continue
				}
				t.termsOK = t.termsOK || m.Fee == st.MarketFee && m.FixedFee.BaseFee == st.MarketFixedBaseFee && m.FixedFee.QuoteFee == st.MarketFixedQuoteFee
			}
			if !t.termsOK && !s.settingsBusy(mkt, t.c) {
				w.Violate("C22", "terms-recorded", "trade %s records fees %d/%d/%d, which the market does not have", id, st.MarketFee, st.MarketFixedBaseFee, st.MarketFixedQuoteFee)
			}
		}
	}
	if variant == vReplay && t.pr.req.Id != "" {
		w.Stat("trades.replayed")
	}
	// the trader must be able to complete it
	if sp, err := signPset(t.pset, t.pr.key); err != nil {
		w.Violate("C03", "unsignable", "acceptance %s cannot be signed by the trader: %v", id, err)
	} else if raw, err := finalTx(sp); err != nil {
		w.Violate("C03", "incomplete-signatures", "acceptance %s signed by the trader is not complete: %v", id, err)
	} else if ft, err := decodeTx(raw); err == nil {
		if err := s.ch.validate(ft, true); err != nil && !t.pr.invalid && !strings.Contains(err.Error(), "missingorspent") && !strings.Contains(err.Error(), "already") && !strings.Contains(err.Error(), "mempool-conflict") {
			w.Violate("C03", "invalid-transaction", "the swap transaction of %s is invalid: %v", id, err)
		}
	}
}

func (sn *snapshot) coin(o outpoint) *domain.Unspent {
	if sn == nil {
		return nil
	}
	return sn.coins[o]
}

func side(buy bool) string {
	if buy {
		return "buy"
	}
	return "sell"
}

// coinReleased: the coin was spent by a swap that is not live any more.
func (s *w1) coinReleased(o outpoint, t *w1trade) bool {
	for _, x := range s.trades {
		if x == t || x.accTx == nil {
			continue
		}
		for _, y := range x.coins {
			if y == o && s.ch.Utxo[o].SpentBy == x.txid && s.ch.Txs[x.txid].By == "trader" {
				return true
			}
		}
	}
	return false
}

func (s *w1) callOf(tag string) *call {
	for _, c := range s.calls {
		if c.tag == tag {
			return c
		}
	}
	return nil
}

// settingsBusy: a change of the market overlapped with a request.
func (s *w1) settingsBusy(m int, c *call) bool {
	for _, o := range s.hist {
		if o.m != m || o.kind == "read" || o.kind == "readfee" || o.c == c {
			continue
		}
		ret := o.c.ret
		if ret == 0 {
			ret = math.MaxUint64
		}
		end := c.ret
		if end == 0 {
			end = math.MaxUint64
		}
		if o.c.inv < end && ret > c.inv {
			return true
		}
	}
	return s.pendingSet[m] > 0
}

// quote computes the other amount of a swap independently of the daemon.
func quote(m *domain.Market, base, quoteB float64, amount float64, isBase, buy bool) (float64, float64, bool) {
	f := float64(m.Fee) / 10000
	in, out := base, quoteB
	if buy {
		in, out = quoteB, base
	}
	given := buy != isBase // the amount is what comes in
	var v float64
	tol := 2.0
	if m.IsStrategyPluggable() {
		p, _ := m.Price.BasePrice.Float64()
		if isBase {
			p, _ = m.Price.QuotePrice.Float64()
		}
		if given {
			v = math.Floor(math.Floor(amount*p+1e-9) * (1 - f))
		} else {
			if amount >= out {
				return 0, 0, false
			}
			v = math.Floor(math.Floor(amount*p+1e-9) * (1 + f))
		}
	} else {
		if in == 0 || out == 0 {
			return 0, 0, false
		}
		if given {
			a := math.Floor(amount * (1 - f))
			v = out * (1 - in/(in+a))
		} else {
			if amount >= out {
				return 0, 0, false
			}
			v = in * (out/(out-amount) - 1)
			v *= 1 + f
		}
		tol += 4e-8 * (in + out)
	}
	if v < 1 && tol < 3 {
		// too low: the daemon refuses, unless rounding made a difference
		if v < 0.5 {
			return 0, 0, false
		}
	}
	switch {
	case buy && isBase:
		v += float64(m.FixedFee.QuoteFee)
	case buy:
		v -= float64(m.FixedFee.BaseFee)
	case isBase:
		v -= float64(m.FixedFee.QuoteFee)
	default:
		v += float64(m.FixedFee.BaseFee)
	}
	return v, tol, true
}

// available sums the coins the market may use, as the daemon counts them.
func (s *w1) available(sn *snapshot, acct int, plus []outpoint) (base, quoteB float64) {
	for _, u := range sn.coinList {
		o := s.owned[hex.EncodeToString(u.ScriptPubKey)]
		if o == nil {
			if c := s.ch.Utxo[outpoint{u.TxID, u.VOut}]; c != nil {
				o = s.ownOf(c.Script)
			}
		}
		if o == nil || o.acct != acct || u.Spent || !u.Confirmed {
			continue
		}
		if u.Locked {
			mine := false
			for _, p := range plus {
				mine = mine || p == (outpoint{u.TxID, u.VOut})
			}
			if !mine {
				continue
			}
		}
		if u.AssetHash == LBTC {
			base += float64(u.Value)
		} else if u.AssetHash != foreignAsset {
			quoteB += float64(u.Value)
		}
	}
	return
}

// priceOK tells whether the amounts are within the slippage of a quote.
func (s *w1) priceOK(m *domain.Market, base, quoteB float64, buy bool, ab, aq float64, slip float64) (bool, string) {
	msg := ""
	for _, isBase := range []bool{true, false} {
		amt, other := ab, aq
		if !isBase {
			amt, other = aq, ab
		}
		v, tol, ok := quote(m, base, quoteB, amt, isBase, buy)
		if !ok {
			msg += fmt.Sprintf("no quote for %.0f; ", amt)
			continue
		}
		lo, hi := v*(1-slip)-tol, v*(1+slip)+tol
		if other >= lo && other <= hi {
			return true, ""
		}
		msg += fmt.Sprintf("quote for %.0f is %.1f, given %.0f; ", amt, v, other)
	}
	return false, msg
}

func (s *w1) checkTerms(t *w1trade, pre, post *snapshot, alone bool) {
	w := s.w
	q := s.quotes[t.market]
	req := t.pr.req
	ab, aq := float64(req.AmountR), float64(req.AmountP)
	if !t.buy {
		ab, aq = aq, ab
	}
	slip := float64(w.Cfg("slip_bp")) / 10000
	mp, mq := pre.market(q), post.market(q)
	busy := s.settingsBusy(t.market, t.c)
	if mp == nil && mq == nil {
		if !busy && pre != nil && post != nil {
			w.Violate("C03", "no-market", "swap %s was accepted for a market that does not exist", t.acceptID)
		}
		return
	}
	if !busy && pre != nil && post != nil && (mp == nil || !mp.Tradable) && (mq == nil || !mq.Tradable) {
		w.Violate("C03", "market-closed", "swap %s was accepted by a closed market", t.acceptID)
	}
	if busy || pre == nil || post == nil || mp == nil || mq == nil {
		w.Stat("price.unchecked")
		return
	}
	pb, pq := s.available(pre, mp.AccountIndex, nil)
	qb, qq := s.available(post, mq.AccountIndex, t.coins)
	if !mp.IsStrategyPluggable() && (pb != qb || pq != qq) && !alone {
		w.Stat("price.unchecked")
		return
	}
	if ok, _ := s.priceOK(mp, pb, pq, t.buy, ab, aq, slip); ok {
		w.Stat("price.checked")
		return
	}
	ok, why := s.priceOK(mq, qb, qq, t.buy, ab, aq, slip)
	if ok {
		w.Stat("price.checked")
		return
	}
	if mp.IsStrategyPluggable() && !alone && (pb != qb || pq != qq) {
		// the amount may have been below the balance at another moment
		b := math.Max(pb, qb) * 10
		k := math.Max(pq, qq) * 10
		if ok, _ := s.priceOK(mq, b, k, t.buy, ab, aq, slip); ok {
			return
		}
	}
	w.Violate("C03", "price", "swap %s (%s of %.0f base for %.0f quote) is off the price of the market: %s", t.acceptID, side(t.buy), ab, aq, why)
}

// ---- reports ------------------------------------------------------------

func (s *w1) checkUtxoReply(c *call, rep *pbop.ListUtxosReply, quiet bool) {
	w := s.w
	seen := map[outpoint]bool{}
	n := 0
	var accts []int
	for a := range rep.InfoPerAccount {
		accts = append(accts, int(a))
	}
	sort.Ints(accts)
	for _, a := range accts {
		l := rep.InfoPerAccount[uint64(a)]
		for k, us := range [][]*pbop.UtxoInfo{l.Unspents, l.Spents, l.Locks} {
			for _, u := range us {
				o := outpoint{u.Outpoint.Hash, uint32(u.Outpoint.Index)}
				n++
				if seen[o] {
					w.Violate("C08", "listed-twice", "coin %s is listed twice", o)
				}
				seen[o] = true
				x := s.ch.Utxo[o]
				if x == nil {
					if s.unpushed == 0 {
						w.Violate("C08", "coin-not-on-chain", "listed coin %s does not exist", o)
					}
					continue
				}
				ow := s.ownOf(x.Script)
				if ow == nil || ow.acct != a {
					w.Violate("C08", "listed-wrong-account", "coin %s is listed for account %d, its address belongs to %v", o, a, ow)
				}
				if x.Value != u.Value || x.Asset != u.Asset {
					w.Violate("C08", "coin-wrong-value", "coin %s holds %d of %s, listed as %d of %s", o, x.Value, short(x.Asset), u.Value, short(u.Asset))
				}
				if k == 1 && x.SpentBy == "" && s.unpushed == 0 {
					w.Violate("C08", "unspent-recorded-spent", "coin %s is listed as spent and is not", o)
				}
			}
		}
	}
	if quiet {
		if sn := s.snap(); sn != nil && sn.gen == c.gen && len(sn.coinList) != n && s.calm {
			w.Violate("C08", "list-incomplete", "%d coins are listed, %d are recorded", n, len(sn.coinList))
		}
	}
}

// propOf returns the proposal a recorded trade comes from.
func (s *w1) propOf(t *domain.Trade) *proposal {
	m := t.SwapRequestMessage()
	ps := s.byPid[t.SwapRequest.ID]
	for _, p := range ps {
		if m != nil && p.req.Transaction == m.GetTransaction() {
			return p
		}
	}
	if len(ps) > 0 && len(t.SwapAccept.Message) == 0 {
		return ps[0]
	}
	return nil
}

func (s *w1) checkReport(m int, rep *pbop.ReportMarketFeeReply, pre, post *snapshot) {
	w := s.w
	if pre == nil || post == nil {
		return
	}
	q := s.quotes[m]
	seen := map[string]bool{}
	tot := map[string]int64{}
	for _, f := range rep.CollectedFees {
		if seen[f.TradeId] {
			w.Violate("C22", "fee-twice", "trade %s appears twice in the fee report", f.TradeId)
		}
		seen[f.TradeId] = true
		tot[f.Asset] += int64(f.Amount)
		t := post.trades[f.TradeId]
		if t == nil || !(t.IsCompleted() || t.IsSettled()) || t.MarketQuoteAsset != q {
			st := "unknown"
			if t != nil {
				st = statusString(t.Status)
			}
			w.Violate("C22", "fee-of-other", "the fee report of market %d contains trade %s (%s)", m, f.TradeId, st)
			continue
		}
		var pr *proposal
		if pr = s.propOf(t); pr == nil {
			continue
		}
		am := pr.req.AmountP
		if f.Asset != pr.req.AssetP || f.BasisPoint != t.MarketFee || f.Amount != am*uint64(t.MarketFee)/10000 {
			w.Violate("C22", "fee-amount", "trade %s of %d %s at %d bp is reported with a fee of %d %s at %d bp", f.TradeId, am, short(pr.req.AssetP), t.MarketFee, f.Amount, short(f.Asset), f.BasisPoint)
		}
	}
	for _, id := range sortedKeys(pre.trades) {
		t := pre.trades[id]
		if (t.IsCompleted() || t.IsSettled()) && t.MarketQuoteAsset == q && !seen[id] {
			w.Violate("C22", "fee-missing", "the %s trade %s is missing in the fee report of market %d", statusString(t.Status), id, m)
		}
	}
	for _, as := range sortedKeys(tot) {
		if rep.TotalCollectedFeesPerAsset[as] != tot[as] {
			w.Violate("C22", "fee-total", "the total of %s is %d, the entries sum to %d", short(as), rep.TotalCollectedFeesPerAsset[as], tot[as])
		}
	}
	for as, v := range rep.TotalCollectedFeesPerAsset {
		if v != tot[as] {
			w.Violate("C22", "fee-total", "the total of %s is %d, the entries sum to %d", short(as), v, tot[as])
		}
	}
}

func (s *w1) checkListTrades(c *call, rep *pbop.ListTradesReply) {
	w := s.w
	n := map[string]int{}
	ids := map[string]bool{}
	post := s.snap()
	for _, ti := range rep.Trades {
		if ids[ti.TradeId] {
			w.Violate("C22", "listed-twice", "trade %s is listed twice", ti.TradeId)
		}
		ids[ti.TradeId] = true
		if post == nil {
			continue
		}
		t := post.trades[ti.TradeId]
		if t == nil {
			w.Violate("C22", "listed-unknown", "trade %s is listed but not stored", ti.TradeId)
			continue
		}
		pr := s.propOf(t)
		if pr == nil {
			if !strings.HasPrefix(t.SwapRequest.ID, "req") {
				continue
			}
			w.Violate("C22", "listed-invented", "the listed trade %s was never proposed", ti.TradeId)
			continue
		}
		n[t.SwapRequest.ID]++
		si, rq := ti.SwapInfo, pr.req
		if t.Status.Code >= domain.Accepted {
			if si == nil || si.AmountP != rq.AmountP || si.AmountR != rq.AmountR || si.AssetP != rq.AssetP || si.AssetR != rq.AssetR {
				if len(s.sameID(t.SwapRequest.ID)) == 1 {
					w.Violate("C22", "listed-terms", "trade %s is listed with terms %v, proposed %d %s for %d %s", ti.TradeId, si, rq.AmountP, short(rq.AssetP), rq.AmountR, short(rq.AssetR))
				}
			}
		}
		fe := ti.MarketWithFee.GetFee()
		if fe.GetBasisPoint() != t.MarketFee || fe.GetFixed().GetBaseFee() != t.MarketFixedBaseFee || fe.GetFixed().GetQuoteFee() != t.MarketFixedQuoteFee {
			w.Violate("C22", "listed-fee", "trade %s is listed with fee %v", ti.TradeId, fe)
		}
		st := domain.Status{Code: int(ti.GetStatus().GetStatus()), Failed: ti.GetStatus().GetFailed()}
		if st != t.Status && !forward(st, t.Status) {
			w.Violate("C22", "listed-status", "trade %s is listed as %s and stored as %s", ti.TradeId, statusString(st), statusString(t.Status))
		}
		if ti.ExpiryTimeUnix != t.ExpiryTime {
			w.Violate("C22", "listed-expiry", "trade %s is listed with expiry %d, stored %d", ti.TradeId, ti.ExpiryTimeUnix, t.ExpiryTime)
		}
	}
	must := map[string]int{}
	may := map[string]int{}
	for _, t := range s.trades {
		id := t.pr.req.Id
		if t.c == nil {
			continue
		}
		may[id]++
		if t.replied && t.c.ret < c.inv && !(t.rejected && (s.faulted(t.c.tag, "/db-") || t.c.cancelled)) {
			must[id]++
		}
	}
	for _, id := range sortedKeys(must) {
		if n[id] < must[id] {
			w.Violate("C22", "proposal-missing", "%d answered proposals %s, %d listed", must[id], id, n[id])
		}
	}
	for _, id := range sortedKeys(n) {
		if n[id] > may[id] && may[id] > 0 {
			w.Violate("C22", "proposal-extra", "%d proposals %s, %d listed", may[id], id, n[id])
		}
	}
}

func (s *w1) sameID(id string) (l []*w1trade) {
	for _, t := range s.trades {
		if t.pr.req.Id == id {
			l = append(l, t)
		}
	}
	return
}

// ---- the end of a run ---------------------------------------------------

func (s *w1) mineAll() {
	for i := 0; i < 3 && len(s.ch.Mempool) > 0; i++ {
		s.mine()
	}
}

func (s *w1) epilogue() {
	w := s.w
	w.FaultsOn = false
	s.n.DownUntil = 0
	rt.PSwitch, rt.PStall = 0, 0
	s.main = true
	w.Tracef("end of the main phase")
	<-s.supDone
	// a crash may still be pending in a request that was cut off
	s.h.NoCrash = true
	if s.h.D == nil {
		if err := s.boot(); err != nil {
			w.Violate("C23", "start-fails", "with no fault the daemon does not start on its own data directory: %v", err)
			return
		}
	}
	op := &Op{ID: 7000}
	if s.locked() == 1 || !s.unlocked {
		if !s.unlockLoop(op, s.h.D.Gen.ID) {
			return
		}
	}
	s.latePush()
	s.mineAll()
	last := time.Now().Unix()
	for _, t := range s.trades {
		if t.expiry > last {
			last = t.expiry
		}
	}
	// expiry is noticed one minute late, after a failure another minute later
	time.Sleep(time.Duration(last-time.Now().Unix()+60+61) * time.Second)
	s.stopMine = true
	s.mineAll()
	time.Sleep(10*time.Second + 4*s.h.Opts.Interval)
	s.calm = true
	s.checkTradesEnd()
	s.checkOwnTxs()
	c := s.reload(op, 20)
	if c == nil || !c.done || c.err != nil {
		w.Violate("C08", "reload-fails", "with no fault a reload of coins fails: %v", callErr(c))
	} else {
		time.Sleep(time.Second)
		s.checkCoinsEnd("reload")
		s.lateDeposits(op)
	}
	sn := s.monitor()
	if sn == nil {
		return
	}
	s.checkListed(sn)
	s.honest(op)
	s.calmPayments(op)
	s.finalReads(op)
	s.checkHooks(op)
	s.checkSettings()
	s.checkSecrets()
}

func callErr(c *call) string {
	if c == nil {
		return "the daemon is down"
	}
	if !c.done {
		return "no answer"
	}
	if c.err != nil {
		return c.err.Error()
	}
	return "ok"
}

// checkTradesEnd: long after the last expiry every trade reached its end.
func (s *w1) checkTradesEnd() {
	w := s.w
	sn := s.monitor()
	if sn == nil {
		return
	}
	known := map[string]bool{}
	for id := range sn.trades {
		known[id] = true
	}
	for _, u := range sn.coinList {
		if u.Locked && !u.Spent && u.LockedBy != nil && !known[u.LockedBy.String()] {
			w.Violate("C06", "reserved-for-nobody", "coin %s:%d is reserved for %s and no such trade is stored", u.TxID, u.VOut, u.LockedBy)
		}
	}
	for _, t := range s.trades {
		st := sn.trade(t)
		if st == nil {
			continue
		}
		s.noteChain(t)
		w.Stat("end." + statusString(st.Status))
		if !t.bcast {
			for _, o := range t.coins {
				u := sn.coins[o]
				if c := s.ch.Utxo[o]; c == nil || c.SpentBy != "" {
					continue
				}
				if u == nil {
					w.Violate("C06", "coin-forgotten", "coin %s of trade %s (%s) is unspent and not recorded", o, t.acceptID, statusString(st.Status))
				} else if u.Locked && u.LockedBy != nil && u.LockedBy.String() == st.ID.String() {
					w.Violate("C06", "never-released", "trade %s (%s) expired %d s ago and still reserves %s", t.acceptID, statusString(st.Status), time.Now().Unix()-t.expiry, o)
				} else if u.Spent {
					w.Violate("C06", "never-released", "coin %s of trade %s (%s) is recorded as spent and is not", o, t.acceptID, statusString(st.Status))
				}
			}
			if st.Status.Code == domain.Accepted && !st.Status.Failed {
				w.Violate("C06", "never-expired", "trade %s expired %d s ago and is still accepted", t.acceptID, time.Now().Unix()-t.expiry)
			}
			if st.Status.Code == domain.Completed {
				w.Violate("C04", "completed-not-broadcast", "trade %s is recorded as completed but the network does not have it", t.acceptID)
			}
			continue
		}
		if !s.ch.Confirmed(t.txid) {
			continue
		}
		if st.IsCompleted() || st.IsSettled() {
			if tx := s.ch.Txs[t.txid]; st.TxHex != "" {
				if x, err := decodeTx(st.TxHex); err != nil || x.Txid != tx.Txid {
					w.Violate("C04", "tx-recorded", "trade %s records a transaction that is not the one accepted by the network", t.acceptID)
				}
			}
		}
		failed := t.failInv > 0 || st.Status.Failed && st.Status.Code != domain.Expired
		if !st.IsSettled() && !failed && t.bcastU <= t.expiry+55 {
			w.Violate("C07", "never-settled", "the transaction of trade %s is confirmed and the trade is %s", t.acceptID, statusString(st.Status))
		}
	}
}

// checkOwnTxs: what the transactions of this incarnation spent and created is
// known without asking for a reload.
func (s *w1) checkOwnTxs() {
	w := s.w
	sn := s.monitor()
	if sn == nil || sn.vault == nil {
		return
	}
	for _, b := range s.bcasts {
		c := s.callOf(b.tag)
		if b.err != nil || b.tx == nil || c == nil || !c.ok() || c.gen != s.h.D.Gen.ID || s.faulted(c.tag) {
			continue
		}
		// a reload that was under way may have asked before the payment and
		// answered after it
		stale := false
		for _, x := range s.calls {
			stale = stale || (x.name == "reload" || x.name == "unlock") && x.gen == c.gen && x.inv < c.ret && (!x.done || x.ret > c.inv)
		}
		if stale {
			w.Stat("own-txs.overlap")
			continue
		}
		for _, o := range b.tx.Outs {
			if x := s.ch.Utxo[o.Op]; x == nil || x.SpentBy != "" || o.Script == "" || s.alien(x) {
				continue
			}
			if ow := s.ownOf(o.Script); ow != nil && sn.coin(o.Op) == nil {
				w.Violate("C08", "change-not-recorded", "%s %s was successful and its output %s at %s is not known", c.name, c.tag, o.Op, ow.path)
			}
		}
		for _, i := range b.tx.Tx.Inputs {
			o := inOutpoint(i)
			if u := sn.coin(o); u != nil && !u.Spent {
				w.Violate("C08", "spend-not-recorded", "%s %s was successful and the coin %s it spent is still listed as available", c.name, c.tag, o)
			}
		}
		w.Stat("own-txs.checked")
	}
	// what a settled trade spent is known too, whoever broadcast it
	for _, t := range s.trades {
		st := sn.trade(t)
		if st == nil || !st.IsSettled() {
			continue
		}
		in, ok := s.settledIn[st.ID.String()]
		if !ok || in[0] != int64(sn.gen) || !s.ch.Confirmed(t.txid) {
			continue
		}
		stale := false
		for _, x := range s.calls {
			stale = stale || (x.name == "reload" || x.name == "unlock") && x.gen == int(in[0]) && x.invT <= time.Duration(in[1]) && (!x.done || x.retT+3*time.Second > time.Duration(in[1]))
		}
		if stale {
			w.Stat("settled-coins.overlap")
			continue
		}
		for _, o := range t.coins {
			if u := sn.coin(o); u != nil && !u.Spent {
				w.Violate("C08", "settled-not-spent", "trade %s is settled and the coin %s it spent is still listed as available", t.acceptID, o)
			}
		}
		w.Stat("settled-coins.checked")
	}
}

// lateDeposits: unconfirmed coins found by a reload become confirmed by
// themselves.
func (s *w1) lateDeposits(op *Op) {
	w := s.w
	var scripts []string
	for sc := range s.handedBy {
		if o := s.ownOf(sc); o != nil {
			scripts = append(scripts, sc)
		}
	}
	if len(scripts) == 0 || rt.HashString(w.Seed, "late")%2 == 0 {
		return
	}
	sort.Strings(scripts)
	for i := 0; i < 2; i++ {
		s.fund(s.ownOf(scripts[rt.HashString(w.Seed, fmt.Sprint("late", i))%uint64(len(scripts))]).addr, LBTC, 40_000+uint64(i))
	}
	if c := s.reload(op, 22); c == nil || !c.done || c.err != nil {
		w.Violate("C08", "reload-fails", "with no fault a reload of coins fails: %v", callErr(c))
		return
	}
	time.Sleep(time.Second)
	s.checkCoinsEnd("reload")
	s.mineAll()
	time.Sleep(10*time.Second + 4*s.h.Opts.Interval)
	s.checkCoinsEnd("confirmation")
	w.Stat("late-deposits")
}

// checkCoinsEnd: what is recorded is what the chain holds.
func (s *w1) checkCoinsEnd(after string) {
	if s.unpushed > 0 {
		return
	}
	w := s.w
	sn := s.monitor()
	if sn == nil || sn.vault == nil {
		return
	}
	want := map[outpoint]*simTxOut{}
	total := map[int]map[string]uint64{}
	pending := map[string]uint64{}
	for _, a := range sortedInts(sn.vault.Accounts) {
		total[a] = map[string]uint64{}
		for sc := range sn.vault.Accounts[a].DerivationPathByScript {
			for _, o := range s.ch.Unspent(sc) {
				if s.alien(o) {
					s.w.Stat("coins.alien")
					continue
				}
				want[o.Op] = o
				if s.ch.Confirmed(o.Op.Txid) {
					total[a][o.Asset] += o.Value
				} else if a == 1 {
					pending[o.Asset] += o.Value
				}
			}
		}
	}
	for _, u := range sn.coinList {
		o := outpoint{u.TxID, u.VOut}
		x := want[o]
		if x == nil {
			if !u.Spent {
				w.Violate("C08", "spent-coin-listed", "after a %s coin %s is listed as available; it was spent by %s", after, o, s.spender(o))
			}
			continue
		}
		delete(want, o)
		if u.Spent {
			w.Violate("C08", "unspent-recorded-spent", "after a %s coin %s is listed as spent and is not", after, o)
		}
		if u.Confirmed != s.ch.Confirmed(o.Txid) {
			w.Violate("C08", "confirmation", "after a %s coin %s is listed as confirmed=%v", after, o, u.Confirmed)
		}
	}
	var miss []string
	for o, x := range want {
		ow := s.ownOf(x.Script)
		miss = append(miss, fmt.Sprintf("%s (%d of %s at %s)", o, x.Value, short(x.Asset), ow.path))
	}
	sort.Strings(miss)
	if len(miss) > 0 {
		w.Violate("C08", "coin-missing", "after a %s the daemon does not list %s", after, strings.Join(miss, ", "))
	}
	// balances
	op := &Op{ID: 7001}
	for m, q := range s.quotes {
		mk := sn.market(q)
		if mk == nil {
			continue
		}
		var rep *pbtrade.BalancesReply
		c := s.api(op, m, "balances", func(ctx context.Context, d *Daemon) (err error) {
			rep, err = d.Trade.Balances(ctx, &pbtrade.BalancesRequest{Market: s.base(m)})
			return err
		})
		if !c.ok() || len(rep.GetBalances()) == 0 {
			w.Violate("C08", "balance-fails", "with no fault the balance of market %d cannot be read: %s", m, callErr(c))
			continue
		}
		b := rep.Balances[0].GetBalance()
		t := total[mk.AccountIndex]
		if uint64(b.GetBaseAmount()) != t[LBTC] || uint64(b.GetQuoteAmount()) != t[q] {
			w.Violate("C08", "market-balance", "the balance of market %d is %d/%d, the chain holds %d/%d", m, b.GetBaseAmount(), b.GetQuoteAmount(), t[LBTC], t[q])
		}
	}
	var fb *pbop.BalanceFeeAccountReply
	c := s.api(op, 10, "balancefee", func(ctx context.Context, d *Daemon) (err error) {
		fb, err = d.Oper.BalanceFeeAccount(ctx, &pbop.BalanceFeeAccountRequest{})
		return err
	})
	if c.ok() {
		if uint64(fb.GetBalance()) != total[0][LBTC] {
			w.Violate("C08", "fee-balance", "the balance of the fee account is %d, the chain holds %d", fb.GetBalance(), total[0][LBTC])
		}
	} else {
		w.Violate("C08", "balance-fails", "with no fault the balance of the fee account cannot be read: %s", callErr(c))
	}
	var wb *pbw.WalletBalanceReply
	c = s.api(op, 11, "walletbalance", func(ctx context.Context, d *Daemon) (err error) {
		wb, err = d.Wallet.WalletBalance(ctx, &pbw.WalletBalanceRequest{})
		return err
	})
	if c.ok() {
		for _, as := range sortedKeys(total[1]) {
			if g := wb.GetBalance()[as]; g.GetTotalBalance() != total[1][as]+pending[as] || g.GetConfirmedBalance() != total[1][as] || g.GetUnconfirmedBalance() != pending[as] {
				w.Violate("C08", "wallet-balance", "the wallet balance of %s is %d (%d confirmed), the chain holds %d (%d confirmed)", short(as), g.GetTotalBalance(), g.GetConfirmedBalance(), total[1][as]+pending[as], total[1][as])
			}
		}
	} else if len(total[1]) > 0 {
		w.Violate("C08", "balance-fails", "with no fault the balance of the wallet account cannot be read: %s", callErr(c))
	}
	s.listUtxos(op, 12)
}

func (s *w1) spender(o outpoint) string {
	if x := s.ch.Utxo[o]; x != nil && x.SpentBy != "" {
		return short(x.SpentBy) + " of " + s.ch.Txs[x.SpentBy].By
	}
	return "nobody"
}

// honest: an honest trader is served by every open and funded market.
func (s *w1) honest(op *Op) {
	w := s.w
	for m, q := range s.quotes {
		sn := s.snap()
		if sn == nil {
			return
		}
		mk := sn.market(q)
		if mk == nil || mk.QuoteAsset == "" {
			continue
		}
		if !mk.Tradable {
			c := s.doOpen(op, 100+m, m)
			if !c.ok() {
				continue // not priced
			}
			w.Probe("reopened")
		}
		for k, buy := range []bool{true, false} {
			sn = s.snap()
			mk = sn.market(q)
			b, qb := s.available(sn, mk.AccountIndex, nil)
			f, _ := s.available(sn, 0, nil)
			// coins known to the chain, whatever the daemon thinks
			if b < 1000 || qb < 1000 || f < 1500 {
				w.Stat("honest.unfunded")
				continue
			}
			amt := uint64(b / 50)
			if mk.IsStrategyPluggable() {
				p, _ := mk.Price.QuotePrice.Float64()
				if v := qb / p / 50; float64(amt) > v {
					amt = uint64(v)
				}
			}
			min := uint64(mk.FixedFee.BaseFee)
			if amt <= min+10 || amt < 50 {
				w.Stat("honest.unfunded")
				continue
			}
			s.honestTrade(op, 200+20*m+10*k, m, buy, amt, mk, b, qb)
		}
	}
}

func (s *w1) honestTrade(op *Op, step, m int, buy bool, amt uint64, mk *domain.Market, b, qb float64) {
	w := s.w
	p, c := s.price(op, step, m, buy, amt, LBTC)
	v, tol, ok := quote(mk, b, qb, float64(amt), true, buy)
	if p == nil {
		if ok && v > 10 && (buy || v < qb-10) {
			w.Violate("C15", "no-price", "market %d is open and funded with %.0f/%.0f but refuses a price for %d: %s", m, b, qb, amt, callErr(c))
		}
		return
	}
	if !ok || math.Abs(v-float64(p.Amount)) > tol {
		w.Violate("C03", "quote", "market %d (%.0f/%.0f, fee %d, fixed %v, pluggable %v) quotes %d for a %s of %d, expected %.1f", m, b, qb, mk.Fee, mk.FixedFee, mk.IsStrategyPluggable(), p.Amount, side(buy), amt, v)
	}
	if !buy && float64(p.Amount) >= qb || p.Amount == 0 {
		return
	}
	r := rt.HashString(w.Seed, fmt.Sprintf("honest%d", step))
	assetP, amountP, assetR, amountR := s.quotes[m], p.Amount, LBTC, amt
	if !buy {
		assetP, amountP, assetR, amountR = LBTC, amt, s.quotes[m], p.Amount
	}
	o := &Op{ID: op.ID, K: "trade", A: []int64{0, 0, 0, 1}}
	t := s.proposeWith(o, step+1, m, buy, assetP, amountP, assetR, amountR, vHonest, &r)
	if t.accTx == nil {
		why := callErr(t.c)
		if t.rejected {
			why = "rejected: " + t.reason
		}
		w.Violate("C15", "honest-refused", "an honest %s of %d for %d on market %d (%.0f/%.0f) with no fault and no competing request was refused: %s", side(buy), amountP, amountR, m, b, qb, why)
		return
	}
	w.Stat("honest.accepted")
	if !s.complete(o, step+2, t, 0) {
		w.Violate("C15", "honest-not-completed", "the completion of an honest trade with no fault failed: %s", t.reason)
		return
	}
	s.mineAll()
	time.Sleep(2*time.Second + 6*s.h.Opts.Interval + time.Duration(len(s.ch.order))*50*time.Millisecond)
	sn := s.monitor()
	if st := sn.trade(t); sn != nil && (st == nil || !st.IsSettled()) {
		time.Sleep(2 * time.Minute)
		sn = s.monitor()
		if st := sn.trade(t); st == nil || !st.IsSettled() {
			w.Violate("C15", "honest-not-settled", "an honest trade with no fault is confirmed but not settled")
			w.Violate("C07", "never-settled", "the transaction of trade %s is confirmed and the trade is not settled", t.acceptID)
		}
	}
	w.Stat("honest.settled")
}

// calmPayments: with no fault a payment within the balance succeeds.
func (s *w1) calmPayments(op *Op) {
	w := s.w
	sn := s.snap()
	if sn == nil {
		return
	}
	f, _ := s.available(sn, 0, nil)
	if f < 3000 {
		return
	}
	for m, q := range s.quotes {
		mk := sn.market(q)
		if mk == nil {
			continue
		}
		b, qb := s.available(sn, mk.AccountIndex, nil)
		if b < 100 || qb < 100 {
			continue
		}
		o := &Op{ID: op.ID, A: []int64{int64(m), int64(b / 3), int64(qb / 3), 100, 4, 1}}
		p := s.withdraw(o, 400+m)
		if !p.c.ok() {
			w.Violate("C13", "calm-withdraw", "with no fault a withdrawal of %d/%d from market %d (%.0f/%.0f) fails: %s", o.A[1], o.A[2], m, b, qb, callErr(p.c))
		}
		s.mineAll()
		time.Sleep(5*time.Second + 4*s.h.Opts.Interval)
		break
	}
}

type finalView struct {
	trades, markets, utxos string
}

func (s *w1) view(op *Op, step int) *finalView {
	v := &finalView{}
	c := s.api(op, step, "listtrades", func(ctx context.Context, d *Daemon) error {
		r, err := d.Oper.ListTrades(ctx, &pbop.ListTradesRequest{})
		if err == nil {
			s.checkListTrades(&call{inv: math.MaxUint64}, r)
			var l []string
			for _, t := range r.Trades {
				l = append(l, fmt.Sprintf("%s %v %v %v %d %d %d %d", t.TradeId, t.Status, t.SwapInfo, t.MarketWithFee, t.AcceptTimeUnix, t.CompleteTimeUnix, t.SettleTimeUnix, t.ExpiryTimeUnix))
			}
			sort.Strings(l)
			v.trades = strings.Join(l, "\n")
		}
		return err
	})
	if !c.ok() {
		s.w.Violate("C23", "read-fails", "with no fault the list of trades cannot be read: %s", callErr(c))
		return nil
	}
	var ms []string
	for _, m := range s.list(op, step+1) {
		ms = append(ms, fmt.Sprintf("%v", m))
	}
	sort.Strings(ms)
	v.markets = strings.Join(ms, "\n")
	c = s.api(op, step+2, "listutxos", func(ctx context.Context, d *Daemon) error {
		r, err := d.Oper.ListUtxos(ctx, &pbop.ListUtxosRequest{})
		if err == nil {
			var l []string
			for a, i := range r.InfoPerAccount {
				for _, u := range i.Unspents {
					l = append(l, fmt.Sprintf("%d %s:%d %d %s free", a, u.Outpoint.Hash, u.Outpoint.Index, u.Value, u.Asset))
				}
				for _, u := range i.Locks {
					l = append(l, fmt.Sprintf("%d %s:%d %d %s locked", a, u.Outpoint.Hash, u.Outpoint.Index, u.Value, u.Asset))
				}
			}
			sort.Strings(l)
			v.utxos = strings.Join(l, "\n")
		}
		return err
	})
	if !c.ok() {
		s.w.Violate("C23", "read-fails", "with no fault the list of coins cannot be read: %s", callErr(c))
		return nil
	}
	return v
}

// finalReads compares what is answered before and after a restart.
func (s *w1) finalReads(op *Op) {
	w := s.w
	for m := range s.quotes {
		if s.marketAccount(m) >= 0 {
			s.report(op, 500+2*m, m)
		}
	}
	a := s.view(op, 520)
	if a == nil {
		return
	}
	unpushed := s.unpushed
	s.h.Shutdown(w.Tag("final-shutdown"))
	if s.h.D != nil {
		return
	}
	if err := s.boot(); err != nil {
		w.Violate("C23", "start-fails", "after an orderly shutdown the daemon does not start: %v", err)
		return
	}
	if !s.unlock(op, 540, s.pass) {
		w.Violate("C23", "cannot-unlock", "after an orderly shutdown the wallet cannot be unlocked with the current passphrase")
		return
	}
	time.Sleep(5*time.Second + 2*s.h.Opts.Interval)
	b := s.view(op, 550)
	if b == nil {
		return
	}
	for _, x := range [][3]string{{"trades", a.trades, b.trades}, {"markets", a.markets, b.markets}, {"coins", a.utxos, b.utxos}} {
		// the coins of a payment its caller never pushed are spent only for the
		// incarnation that made it
		if x[1] != x[2] && !(x[0] == "coins" && unpushed > 0) {
			w.Violate("C23", "restart-changes-"+x[0], "the list of %s differs after an orderly restart:\n%s", x[0], lineDiff(x[1], x[2]))
		}
	}
}

func lineDiff(a, b string) string {
	m := map[string]int{}
	for _, l := range strings.Split(a, "\n") {
		m[l]++
	}
	for _, l := range strings.Split(b, "\n") {
		m[l]--
	}
	var r []string
	for _, l := range sortedKeys(m) {
		if m[l] > 0 {
			r = append(r, "- "+l)
		} else if m[l] < 0 {
			r = append(r, "+ "+l)
		}
	}
	return strings.Join(r, "\n")
}

// checkSecrets: nothing on disk reveals the seed or a passphrase.
func (s *w1) checkSecrets() {
	var pats []string
	pats = append(pats, strings.Join(s.mnemonic, " "), strings.Join(s.mnemonic[:6], " "))
	for i := 0; i <= s.keyN; i++ {
		pats = append(pats, fmt.Sprintf("passphrase-%d", i))
	}
	dir := s.h.Dir
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		for i, x := range pats {
			if bytes.Contains(b, []byte(x)) {
				rel, _ := filepath.Rel(dir, p)
				k := "passphrase"
				if i < 2 {
					k = "seed"
				}
				s.w.Violate("C12", k+"-in-clear", "the %s is stored in clear in %s", k, rel)
			}
		}
		return nil
	})
}

var _ = pbtypes.Market{}
