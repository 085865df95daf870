//go:build go1.22

package verifsim

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"reflect"
	"time"
	"unsafe"

	"github.com/btcsuite/btcd/btcec"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	"github.com/tdex-network/tdex-daemon/pkg/trade"
	tradeclient "github.com/tdex-network/tdex-daemon/pkg/trade/client"
	trademarket "github.com/tdex-network/tdex-daemon/pkg/trade/market"
	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
	rt "github.com/tdex-network/tdex-daemon/verifsimrt"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	pbtrade "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	pbtypes "github.com/tdex-network/tdex-protobuf/generated/go/types"
	"github.com/vulpemventures/go-elements/elementsutil"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
)

// Scenario "lib": the trader library against a provider that is honest,
// failing or malicious and an explorer that fails (C25).

func init() { scenarios["lib"] = scenario{gen: genLib, run: runLib} }

type libX struct{ t *trade.Trade }

type libW struct {
	*comp
	net    *Net
	c      *Chain
	keys   []*Key
	prov   *Key
	trades map[string]*libTrade
	market trademarket.Market
	spent  map[outpoint]uint64 // when a coin of a trader was spent
	made   map[outpoint]uint64
}

// libTrade is what happened in one call of the library.
type libTrade struct {
	op       *Op
	tag      string
	c        *cop
	key      *Key
	buy      bool
	complete bool
	asset    string
	amount   uint64
	r        uint64
	kind     string // what the provider does
	foul     bool   // the provider did something
	prices   *pbtrade.MarketPriceReply
	req      *pbtrade.TradeProposeRequest
	accept   *pbswap.SwapAccept
	cmpl     *pbtrade.TradeCompleteRequest
	txid     string
	answered bool // the completion was accepted
}

// what a provider does instead of being honest
var libKinds = []string{
	"noprices", "otherasset", "sameasset", "zeroamount", "hugeamount", "priceerr",
	"short", "nochange", "redirect", "wrongasset", "steal", "swapcoin", "drop", "foreignkey", "split",
	"garbage", "empty", "nilaccept", "both", "reqid", "witutxo", "nowit", "nonwit", "badsig", "nosig", "mutate", "locktime", "othertx", "othertx",
	"fail", "emptyfail", "proposeerr", "recverr", "eof",
	"cfail", "cerr", "crecverr", "ceof", "cempty",
}

func genLib(w *World) {
	c := w.Plan.Cfg
	f := func(k string, v int64) {
		if _, ok := c[k]; !ok {
			c[k] = v
		}
	}
	pick := func(v ...int64) int64 { return v[w.Intn(len(v))] }
	f("nkeys", pick(1, 2, 3))
	f("lat_us", pick(100, 20000, 400000))
	f("pswitch", pick(0, 2000, 8000))
	f("pstall", pick(0, 0, 200))
	f("stallmax_us", pick(100, 10000, 500000))
	if w.Chance(1, 2) {
		p := pick(500, 3000, 9000)
		for _, k := range []string{"err", "slow", "5xx", "429", "lost", "trunc", "cut", "html", "hang"} {
			if w.Chance(1, 2) {
				f("p_http_"+k, p)
			}
		}
	}
	if len(w.Plan.Ops) > 0 {
		return
	}
	foul := 1 + w.Intn(4)
	n := 6 + w.Intn(24)
	burst := 1 + w.Intn(5)
	var t int64
	for i := 0; i < n; i++ {
		k := "trade"
		switch x := w.Intn(12); {
		case i < 2 || x < 3:
			k = "fund"
		case x == 3:
			k = "mine"
		case x == 4:
			k = "preview"
		}
		op := Op{T: t, K: k, A: []int64{int64(w.Intn(1 << 16)), int64(w.Intn(1 << 16)), int64(w.Intn(1 << 16)), int64(w.R() >> 1)}}
		if (k == "trade" || k == "preview") && w.Intn(4) < foul {
			op.S = libKinds[w.Intn(len(libKinds))]
			if k == "preview" {
				op.S = libKinds[w.Intn(6)]
			}
		}
		w.Plan.Ops = append(w.Plan.Ops, op)
		if w.Intn(burst) == 0 {
			t += w.LogRange(20000)
		}
	}
}

func runLib(w *World) {
	s := &libW{comp: newComp(w, "C25", DaemonOpts{}), net: newNet(w), trades: map[string]*libTrade{},
		spent: map[outpoint]uint64{}, made: map[outpoint]uint64{}, market: trademarket.Market{BaseAsset: LBTC, QuoteAsset: assetN(0)}}
	s.c = s.net.Chain
	s.comp.exec = s.do1
	s.h.WireFn = func(g *rt.Gen) (*Daemon, error) {
		svc, err := esplora.NewService("http://explorer.sim", 15000)
		if err != nil {
			return nil, err
		}
		cl := new(tradeclient.Client)
		v := reflect.ValueOf(cl).Elem()
		it := reflect.TypeOf((*pbtrade.TradeClient)(nil)).Elem()
		set := false
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Type() == it {
				reflect.NewAt(it, unsafe.Pointer(v.Field(i).UnsafeAddr())).Elem().Set(reflect.ValueOf(&libProv{s}))
				set = true
			}
		}
		if !set {
			return nil, errors.New("no seam for the provider in the trade client")
		}
		t, err := trade.NewTrade(trade.NewTradeOpts{Chain: "regtest", ExplorerService: svc, Client: cl})
		if err != nil {
			return nil, err
		}
		return &Daemon{Gen: g, Dir: s.h.Dir, X: &libX{t}}, nil
	}
	s.h.StopFn = func(d *Daemon) {}
	for i := 0; i < int(w.Cfg("nkeys")); i++ {
		s.keys = append(s.keys, w.NewKey(fmt.Sprint("lib", i)))
	}
	s.prov = w.NewKey("provider")
	if err := s.boot(); err != nil {
		w.Violate("C25", "first-start", "%v", err)
		return
	}
	s.run()
	// calm: honest trades work
	for i := 0; i < 3; i++ {
		w.seq++
		k := s.keys[i%len(s.keys)]
		for _, a := range []string{s.market.BaseAsset, s.market.QuoteAsset} {
			o := s.c.Fund(k.script, k.blindPub(), a, 50000000)
			s.made[o.Op] = w.seq
		}
		s.trade(&Op{ID: 2000 + i, K: "trade", A: []int64{int64(i % len(s.keys)), int64(w.Intn(1 << 16)), 100, int64(w.R() >> 1)}})
	}
}

func (s *libW) faults() int {
	n := 0
	for k, v := range s.w.devKinds {
		if len(k) > 5 && k[:5] == "http-" {
			n += v
		}
	}
	return n
}

func (s *libW) do1(op *Op) {
	w := s.w
	switch op.K {
	case "fund":
		k := s.keys[int(op.Arg(0))%len(s.keys)]
		n := 1 + int(op.Arg(1)%4)
		w.seq++
		for i := 0; i < n; i++ {
			var bp []byte
			if op.Arg(2)>>uint(i)&1 == 1 {
				bp = k.blindPub()
			}
			a := s.market.BaseAsset
			switch op.Arg(2) >> uint(2*i+4) & 3 {
			case 1, 2:
				a = s.market.QuoteAsset
			case 3:
				if i == 3 {
					a = assetN(1)
				}
			}
			o := s.c.Fund(k.script, bp, a, uint64(op.Arg(3)%30000000)+uint64(i)*1000+1)
			s.made[o.Op] = w.seq
		}
	case "mine":
		s.c.Mine()
	case "preview":
		s.preview(op)
	case "trade":
		s.trade(op)
	}
}

func (s *libW) newTrade(op *Op) *libTrade {
	t := &libTrade{op: op, tag: fmt.Sprintf("op%d.0", op.ID), key: s.keys[int(op.Arg(0))%len(s.keys)],
		buy: op.Arg(1)&1 == 1, complete: op.Arg(1)&6 != 0, asset: s.market.BaseAsset, kind: op.S,
		amount: 1 + uint64(op.Arg(2))*uint64(1+op.Arg(3)%256), r: rt.HashString(s.w.Seed, fmt.Sprint("lib", op.ID))}
	if op.Arg(1)&8 != 0 {
		t.asset = s.market.QuoteAsset
	}
	if op.Arg(1)&0xf00 == 0 {
		t.amount = 1 << (rt.Next(&t.r) % 63)
	}
	s.trades[t.tag] = t
	return t
}

// foulNow tells if the provider does something of this kind here.
func (s *libW) foulNow(t *libTrade, kinds ...string) string {
	for _, k := range kinds {
		if t.kind == k && s.w.deviate(t.tag+"/provider/"+k, "prov-"+k) {
			t.foul = true
			s.w.Tracef("provider: %s does %s", t.tag, k)
			return k
		}
	}
	return ""
}

func (s *libW) sides(t *libTrade) (assetP, assetR string) {
	if t.buy {
		return s.market.QuoteAsset, s.market.BaseAsset
	}
	return s.market.BaseAsset, s.market.QuoteAsset
}

func (s *libW) preview(op *Op) {
	w := s.w
	t := s.newTrade(op)
	var got *trade.PreviewResult
	typ := 1
	if t.buy {
		typ = 0
	}
	c := s.do(op, 0, "preview", func(ctx context.Context, d *Daemon) (err error) {
		got, err = d.X.(*libX).t.Preview(trade.PreviewOpts{Market: s.market, TradeType: typ, Amount: t.amount, Asset: t.asset})
		return
	})
	if c == nil || !c.done {
		return
	}
	w.Stat("previews.checked")
	if c.err != nil {
		if !t.foul {
			w.Violate("C25", "preview-fails", "a preview of an honest provider fails: %v", c.err)
		}
		return
	}
	aP, aR := s.sides(t)
	other := uint64(0)
	if len(t.prices.GetPrices()) > 0 {
		other = t.prices.Prices[0].Amount
	}
	send, recv := other, t.amount
	if t.asset == aP {
		send, recv = t.amount, other
	}
	if got.AssetToSend != aP || got.AssetToReceive != aR || got.AmountToSend != send || got.AmountToReceive != recv {
		w.Violate("C25", "preview-wrong", "a preview returns %d of %s for %d of %s", got.AmountToSend, short(got.AssetToSend), got.AmountToReceive, short(got.AssetToReceive))
	}
}

func (s *libW) trade(op *Op) {
	w := s.w
	t := s.newTrade(op)
	nf := s.faults()
	var acc []byte
	var txid string
	name := []string{"sell", "buy"}[b2u(t.buy)]
	if t.complete {
		name += "-and-complete"
	}
	c := s.do(op, 0, name, func(ctx context.Context, d *Daemon) (err error) {
		x := d.X.(*libX).t
		bk := append([]byte{}, t.key.blind.Serialize()...)
		if t.complete {
			o := trade.BuyOrSellAndCompleteOpts{Market: s.market, Amount: t.amount, Asset: t.asset, PrivateKey: t.key.priv.Serialize(), BlindingKey: bk}
			if t.buy {
				txid, err = x.BuyAndComplete(o)
			} else {
				txid, err = x.SellAndComplete(o)
			}
			return
		}
		o := trade.BuyOrSellOpts{Market: s.market, Amount: t.amount, Asset: t.asset, Address: t.key.addr, BlindingKey: bk}
		if t.buy {
			acc, err = x.Buy(o)
		} else {
			acc, err = x.Sell(o)
		}
		return
	})
	if c == nil || !c.done {
		return
	}
	t.c = c
	clean := s.faults() == nf
	w.Stat("trades.checked")
	if c.err == nil && t.req == nil {
		w.Violate("C25", "success-without-proposal", "%s succeeds and nothing was proposed", name)
		return
	}
	if c.err != nil {
		w.Stat("trades.failed")
		if !t.foul && clean && s.enough(t) {
			w.Violate("C25", "honest-fails", "%s with an honest provider, no fault and enough coins fails: %v", name, c.err)
		}
		return
	}
	if t.complete {
		if !t.answered {
			w.Violate("C25", "success-unanswered", "%s succeeds and the provider did not accept the completion", name)
		} else if txid == "" || txid != t.txid {
			w.Violate("C25", "success-txid", "%s succeeds with txid %q instead of %q", name, txid, t.txid)
		}
		w.Stat("trades.completed")
		return
	}
	// the caller signs what it got
	m := &pbswap.SwapAccept{}
	if t.accept == nil {
		w.Violate("C25", "success-unaccepted", "%s succeeds and the provider accepted nothing", name)
		return
	}
	if err := proto.Unmarshal(acc, m); err != nil || !proto.Equal(m, t.accept) {
		w.Violate("C25", "accept-altered", "%s returns another message than the provider's", name)
		return
	}
	w.Stat("trades.accepted")
	wl := trade.NewWalletFromKey(t.key.priv.Serialize(), t.key.blind.Serialize(), net)
	signed, err := wl.Sign(m.Transaction)
	if err != nil {
		if !t.foul {
			w.Violate("C25", "sign-fails", "the transaction of an honest provider cannot be signed: %v", err)
		}
		return
	}
	s.checkSigned(t, signed)
}

// enough tells if the trader surely had the coins for the trade it asked for.
func (s *libW) enough(t *libTrade) bool {
	aP, _ := s.sides(t)
	need := t.amount
	if t.asset != aP {
		if t.prices == nil {
			// not even the price was asked: some coin is enough
			need = 0
			aP = ""
		} else {
			need = t.prices.Prices[0].Amount
		}
	}
	sum, n := uint64(0), 0
	for _, o := range s.c.Scripts[t.key.scriptHex()] {
		m, ok := s.made[o.Op]
		sp, isp := s.spent[o.Op]
		if !ok || m > t.c.inv || isp && sp < t.c.ret {
			continue
		}
		n++
		if o.Asset == aP {
			sum += o.Value
		}
	}
	return n > 0 && sum >= need && need < 1<<62
}

// coin of the chain spent by an input.
func (s *libW) coinOf(in *transaction.TxInput) *simTxOut { return s.c.Utxo[inOutpoint(in)] }

// checkSigned judges what a transaction does to the trader that signed it.
func (s *libW) checkSigned(t *libTrade, txs string) {
	w := s.w
	p, err := pset.NewPsetFromBase64(txs)
	if err != nil {
		w.Stat("signed.unreadable")
		return
	}
	prop := map[outpoint]bool{}
	if pp, err := pset.NewPsetFromBase64(t.req.GetSwapRequest().GetTransaction()); err == nil {
		for _, in := range pp.UnsignedTx.Inputs {
			prop[inOutpoint(in)] = true
		}
	}
	bal := map[string]int64{}
	nsig := 0
	for i, in := range p.UnsignedTx.Inputs {
		co := s.coinOf(in)
		if co == nil || co.Script != t.key.scriptHex() {
			continue
		}
		sig := false
		for _, ps := range p.Inputs[i].PartialSigs {
			if !bytes.Equal(ps.PubKey, t.key.priv.PubKey().SerializeCompressed()) || len(ps.Signature) < 2 {
				continue
			}
			h := p.UnsignedTx.HashForWitnessV0(i, t.key.sigScript, co.Raw.Value, 1)
			if g, err := btcec.ParseDERSignature(ps.Signature[:len(ps.Signature)-1], btcec.S256()); err == nil && g.Verify(h[:], t.key.priv.PubKey()) {
				sig = true
			}
		}
		if !sig {
			continue
		}
		nsig++
		bal[co.Asset] -= int64(co.Value)
		if !prop[inOutpoint(in)] {
			w.Violate("C25", "signs-unproposed-coin", "the trader signs for a coin of its own that was not part of its proposal")
		}
	}
	w.Stat("signed.checked")
	if nsig == 0 {
		return
	}
	w.Stat("signed.real")
	for _, in := range p.UnsignedTx.Inputs {
		delete(prop, inOutpoint(in))
	}
	if len(prop) > 0 {
		w.Violate("C25", "signs-unlike-proposal", "the trader signs a transaction that does not spend %d of the coins of its proposal (provider: %s)", len(prop), t.kind)
	}
	for _, o := range p.UnsignedTx.Outputs {
		if !bytes.Equal(o.Script, t.key.script) {
			continue
		}
		a, v, conf, _, err := openOut(o)
		if err != nil {
			continue
		}
		if conf {
			if _, ok := transactionutil.UnblindOutput(o, t.key.blind.Serialize()); !ok {
				continue // the trader cannot spend it
			}
		}
		bal[a] += int64(v)
	}
	r := t.req.GetSwapRequest()
	bal[r.AssetP] += int64(r.AmountP)
	bal[r.AssetR] -= int64(r.AmountR)
	for a, v := range bal {
		if v < 0 {
			w.Violate("C25", "signs-loss", "the trader signs a transaction that leaves it with %d of %s less than agreed (provider: %s)", -v, short(a), t.kind)
		}
	}
}

// ---- the provider

type libProv struct{ s *libW }

var errProv = errors.New("rpc error: code = Unavailable desc = simulated provider failure")

func (p *libProv) enter(ctx context.Context, what string) (*libTrade, error) {
	s := p.s
	tg := rt.Cur()
	if tg == nil || s.trades[tg.Name] == nil {
		s.w.Violate("C25", "harness-tag", "call of %s from an unknown thread", what)
		return nil, errProv
	}
	t := s.trades[tg.Name]
	if err := wait(ctx, time.Duration(rt.Next(&t.r)%uint64(s.w.Cfg("lat_us")+1))*time.Microsecond); err != nil {
		return t, err
	}
	rt.Live()
	s.w.Stat("provider." + what)
	return t, nil
}

func (p *libProv) Markets(ctx context.Context, in *pbtrade.MarketsRequest, o ...grpc.CallOption) (*pbtrade.MarketsReply, error) {
	return &pbtrade.MarketsReply{}, nil
}
func (p *libProv) Balances(ctx context.Context, in *pbtrade.BalancesRequest, o ...grpc.CallOption) (*pbtrade.BalancesReply, error) {
	return &pbtrade.BalancesReply{}, nil
}

func (p *libProv) MarketPrice(ctx context.Context, in *pbtrade.MarketPriceRequest, _ ...grpc.CallOption) (*pbtrade.MarketPriceReply, error) {
	s := p.s
	t, err := p.enter(ctx, "price")
	if err != nil {
		return nil, err
	}
	s.checkMarket(t, in.GetMarket(), in.GetType())
	if in.Amount != t.amount || in.Asset != t.asset {
		s.w.Violate("C25", "price-request", "the price is asked for %d of %s instead of %d of %s", in.Amount, short(in.Asset), t.amount, short(t.asset))
	}
	// 1 base = 3 quote, with a fee
	other, amount := s.market.QuoteAsset, t.amount/1000*3003+t.amount%1000*3003/1000+1
	if t.asset == s.market.QuoteAsset {
		other, amount = s.market.BaseAsset, t.amount/3+1
	}
	switch s.foulNow(t, "noprices", "otherasset", "sameasset", "zeroamount", "hugeamount", "priceerr") {
	case "noprices":
		t.prices = &pbtrade.MarketPriceReply{}
		return t.prices, nil
	case "otherasset":
		other = assetN(1)
	case "sameasset":
		other = t.asset
	case "zeroamount":
		amount = 0
	case "hugeamount":
		amount = ^uint64(0) - rt.Next(&t.r)%3
	case "priceerr":
		return nil, errProv
	}
	t.prices = &pbtrade.MarketPriceReply{Prices: []*pbtypes.PriceWithFee{{Price: &pbtypes.Price{BasePrice: 1. / 3, QuotePrice: 3}, Fee: &pbtypes.Fee{BasisPoint: 10}, Asset: other, Amount: amount}}}
	return t.prices, nil
}

func (s *libW) checkMarket(t *libTrade, m *pbtypes.Market, typ pbtrade.TradeType) {
	if m.GetBaseAsset() != s.market.BaseAsset || m.GetQuoteAsset() != s.market.QuoteAsset {
		s.w.Violate("C25", "market", "a request is made for another market")
	}
	if (typ == pbtrade.TradeType_BUY) != t.buy {
		s.w.Violate("C25", "type", "a request is made with type %v", typ)
	}
}

type propStream struct {
	grpc.ClientStream
	r   *pbtrade.TradeProposeReply
	err error
}

func (x *propStream) Recv() (*pbtrade.TradeProposeReply, error) { return x.r, x.err }

type cmplStream struct {
	grpc.ClientStream
	r   *pbtrade.TradeCompleteReply
	err error
}

func (x *cmplStream) Recv() (*pbtrade.TradeCompleteReply, error) { return x.r, x.err }

func (p *libProv) TradePropose(ctx context.Context, in *pbtrade.TradeProposeRequest, _ ...grpc.CallOption) (pbtrade.Trade_TradeProposeClient, error) {
	s := p.s
	t, err := p.enter(ctx, "propose")
	if err != nil {
		return nil, err
	}
	if t.req != nil {
		s.w.Violate("C25", "proposed-twice", "one call makes two proposals")
	}
	t.req = proto.Clone(in).(*pbtrade.TradeProposeRequest)
	s.checkProposal(t)
	switch s.foulNow(t, "proposeerr", "recverr", "eof", "fail", "emptyfail", "nilaccept") {
	case "proposeerr":
		return nil, errProv
	case "recverr":
		return &propStream{err: errProv}, nil
	case "eof":
		return &propStream{err: io.EOF}, nil
	case "fail":
		return &propStream{r: &pbtrade.TradeProposeReply{SwapFail: &pbswap.SwapFail{FailureCode: 1, FailureMessage: "no"}}}, nil
	case "emptyfail":
		return &propStream{r: &pbtrade.TradeProposeReply{SwapFail: &pbswap.SwapFail{}}}, nil
	case "nilaccept":
		return &propStream{r: &pbtrade.TradeProposeReply{}}, nil
	}
	s.w.Quiet(func() { t.accept = s.buildAccept(t) })
	if err := wait(ctx, time.Duration(rt.Next(&t.r)%uint64(s.w.Cfg("lat_us")+1))*time.Microsecond); err != nil {
		return nil, err
	}
	rep := &pbtrade.TradeProposeReply{SwapAccept: proto.Clone(t.accept).(*pbswap.SwapAccept), ExpiryTimeUnix: 1}
	if s.foulNow(t, "both") != "" {
		rep.SwapFail = &pbswap.SwapFail{FailureMessage: "no"}
		t.accept = nil
	}
	return &propStream{r: rep}, nil
}

// checkProposal judges what the library proposes.
func (s *libW) checkProposal(t *libTrade) {
	w := s.w
	r := t.req.GetSwapRequest()
	s.checkMarket(t, t.req.GetMarket(), t.req.GetType())
	aP, aR := s.sides(t)
	if r.AssetP != aP || r.AssetR != aR {
		w.Violate("C25", "proposal-assets", "the proposal sends %s for %s", short(r.AssetP), short(r.AssetR))
	}
	fixed, other := r.AmountR, r.AmountP
	if t.asset == aP {
		fixed, other = r.AmountP, r.AmountR
	}
	if fixed != t.amount {
		w.Violate("C25", "proposal-amount", "the proposal is for %d instead of %d", fixed, t.amount)
	}
	if t.prices == nil || len(t.prices.Prices) == 0 || t.prices.Prices[0].Amount != other {
		w.Violate("C25", "proposal-price", "the proposal is at another price than the provider's")
	}
	if t.kind == "zeroamount" && t.foul {
		w.Violate("C25", "proposal-for-nothing", "the proposal is for nothing")
	}
	p, err := pset.NewPsetFromBase64(r.Transaction)
	if err != nil {
		w.Violate("C25", "proposal-tx", "the proposed transaction is unreadable: %v", err)
		return
	}
	bal := map[string]uint64{}
	seen := map[outpoint]bool{}
	for i, in := range p.UnsignedTx.Inputs {
		co := s.coinOf(in)
		if co == nil || co.Script != t.key.scriptHex() || co.Asset != aP || seen[inOutpoint(in)] {
			w.Violate("C25", "proposal-input", "the proposal spends a coin that is not fit")
			return
		}
		seen[inOutpoint(in)] = true
		bal[co.Asset] += co.Value
		wu := p.Inputs[i].WitnessUtxo
		if wu == nil || !bytes.Equal(wu.Value, co.Raw.Value) || !bytes.Equal(wu.Asset, co.Raw.Asset) || !bytes.Equal(wu.Script, co.Raw.Script) {
			w.Violate("C25", "proposal-prevout", "the proposal describes another coin than the one it spends")
		}
	}
	bal[aR] += r.AmountR
	bal[aP] -= r.AmountP
	for _, o := range p.UnsignedTx.Outputs {
		a, v, _, _, err := openOut(o)
		if err != nil || !bytes.Equal(o.Script, t.key.script) {
			w.Violate("C25", "proposal-output", "the proposal pays someone else: %v", err)
			return
		}
		bal[a] -= v
	}
	for a, v := range bal {
		if v != 0 {
			w.Violate("C25", "proposal-balance", "the outputs of the proposal do not match it: %d of %s", int64(v), short(a))
		}
	}
	k := hex.EncodeToString(t.key.script)
	if !bytes.Equal(r.InputBlindingKey[k], t.key.blind.Serialize()) || !bytes.Equal(r.OutputBlindingKey[k], t.key.blind.Serialize()) {
		w.Violate("C25", "proposal-keys", "the proposal carries other blinding keys than the trader's")
	}
	w.Stat("proposals.checked")
}

// buildAccept completes the proposed transaction.
func (s *libW) buildAccept(t *libTrade) *pbswap.SwapAccept {
	w := s.w
	r := t.req.GetSwapRequest()
	acc := &pbswap.SwapAccept{Id: "acc" + t.tag, RequestId: r.Id}
	pp, err := pset.NewPsetFromBase64(r.Transaction)
	if err != nil {
		return acc
	}
	var ins []*simTxOut
	var outs []outSpec
	for _, in := range pp.UnsignedTx.Inputs {
		co := s.coinOf(in)
		if co == nil {
			return acc
		}
		ins = append(ins, co)
	}
	for _, o := range pp.UnsignedTx.Outputs {
		a, v, _, _, err := openOut(o)
		if err != nil {
			return acc
		}
		outs = append(outs, outSpec{a, v, o.Script})
	}
	other := func() *simTxOut {
		for _, o := range s.c.Unspent(t.key.scriptHex()) {
			used := false
			for _, i := range ins {
				used = used || i == o
			}
			if !used {
				return o
			}
		}
		return nil
	}
	ri := 0
	for i := range outs {
		if outs[i].asset == r.AssetR && outs[i].value == r.AmountR {
			ri = i
		}
	}
	kind := s.foulNow(t, "short", "nochange", "redirect", "wrongasset", "steal", "swapcoin", "drop", "foreignkey", "split", "othertx",
		"garbage", "empty", "reqid", "witutxo", "nowit", "nonwit", "badsig", "nosig", "mutate", "locktime")
	x := rt.Next(&t.r)
	switch kind {
	case "short":
		i := int(x>>8) % len(outs)
		if d := 1 + x%3*(outs[i].value/3); outs[i].value > d {
			outs[i].value -= d
		} else {
			outs[i].value = 1
		}
	case "nochange":
		if len(outs) > 1 {
			outs = append(outs[:1-ri:1-ri], outs[2-ri:]...)
		}
	case "redirect":
		outs[int(x>>1)%len(outs)].script = s.prov.script
	case "wrongasset":
		outs[ri].asset = []string{assetN(1), r.AssetP}[x%2]
	case "steal":
		if o := other(); o != nil {
			ins = append(ins, o)
		}
	case "swapcoin":
		if o := other(); o != nil {
			ins[int(x>>1)%len(ins)] = o
		}
	case "drop":
		i := int(x>>1) % len(ins)
		ins = append(ins[:i:i], ins[i+1:]...)
		if len(ins) == 0 {
			outs = outs[:0]
		}
	case "split":
		if outs[ri].value > 1 {
			v := 1 + x%(outs[ri].value-1)
			outs[ri].value -= v
			outs = append(outs, outSpec{r.AssetR, v, t.key.script})
		}
	case "othertx":
		// what another one of its proposals was answered
		for i := 0; i < 8; i++ {
			if o := s.trades[fmt.Sprintf("op%d.0", (t.op.ID+i)%len(w.Plan.Ops))]; o != nil && o != t && o.accept != nil && o.key == t.key && o.accept.Transaction != "" {
				acc.Transaction = o.accept.Transaction
				return acc
			}
		}
	case "garbage":
		acc.Transaction = []string{"garbage", "cHNldP8=", "00", base64.StdEncoding.EncodeToString([]byte("pset\xff\x00"))}[x%4]
		return acc
	case "empty":
		return acc
	case "reqid":
		acc.RequestId = []string{"", "another", acc.Id}[x%3]
	}
	// the provider's side: whatever is missing it adds, whatever is left it takes
	in, out := map[string]uint64{}, map[string]uint64{}
	for _, i := range ins {
		in[i.Asset] += i.Value
	}
	const fee = 500
	out[LBTC] += fee
	for _, o := range outs {
		out[o.asset] += o.value
	}
	added := false
	for _, a := range []string{LBTC, assetN(0), assetN(1)} {
		if in[a] < out[a] {
			extra := x % 2 * 777
			o := s.c.Fund(s.prov.script, nil, a, out[a]-in[a]+extra)
			added = true
			ins = append(ins, o)
			in[a] += o.Value
		}
		if in[a] > out[a] {
			outs = append(outs, outSpec{a, in[a] - out[a], s.prov.script})
		}
	}
	if !added {
		o := s.c.Fund(s.prov.script, nil, LBTC, 1000)
		ins = append(ins, o)
		outs = append(outs, outSpec{LBTC, 1000, s.prov.script})
	}
	if x>>32%2 == 0 { // in another order
		for i, j := 0, len(outs)-1; i < j; i, j = i+1, j-1 {
			outs[i], outs[j] = outs[j], outs[i]
		}
	}
	if y := rt.HashString(w.Seed, "order/"+t.tag); y%2 == 0 { // the coins too
		for i := len(ins) - 1; i > 0; i-- {
			j := int(rt.Next(&y) % uint64(i+1))
			ins[i], ins[j] = ins[j], ins[i]
		}
	}
	b64 := buildPset(ins, outs)
	conf := false
	for _, i := range ins {
		conf = conf || i.Conf
	}
	if conf || x>>40%2 != 0 {
		p, err := pset.NewPsetFromBase64(b64)
		must(err)
		var data []pset.BlindingDataLike
		for _, i := range ins {
			data = append(data, pset.BlindingData{Value: i.Value, Asset: assetBytes(i.Asset)[1:], ValueBlindingFactor: pad32(i.Vbf), AssetBlindingFactor: pad32(i.Abf)})
		}
		pubs := map[int][]byte{}
		for i, o := range outs {
			pubs[i] = s.prov.blindPub()
			if bytes.Equal(o.script, t.key.script) {
				_, pk := btcec.PrivKeyFromBytes(btcec.S256(), r.OutputBlindingKey[hex.EncodeToString(o.script)])
				pubs[i] = pk.SerializeCompressed()
				if kind == "foreignkey" {
					pubs[i] = s.prov.blindPub()
				}
			}
		}
		bl, err := pset.NewBlinder(p, data, pubs, nil, nil)
		if err == nil {
			err = bl.Blind()
		}
		if err != nil {
			w.Stat("provider.blind-failed")
			w.Tracef("provider cannot blind: %v", err)
		} else {
			b64, err = p.ToBase64()
			must(err)
			w.Stat("provider.blinded")
		}
	}
	p, err := pset.NewPsetFromBase64(b64)
	must(err)
	u, err := pset.NewUpdater(p)
	must(err)
	u.AddOutput(plainOut(outSpec{LBTC, fee, nil}))
	switch kind {
	case "locktime":
		p.UnsignedTx.Locktime = uint32(x)
	case "witutxo":
		for i := range p.Inputs {
			if bytes.Equal(p.Inputs[i].WitnessUtxo.Script, t.key.script) {
				v, _ := elementsutil.SatoshiToElementsValue(1)
				wu := *p.Inputs[i].WitnessUtxo
				wu.Value = v
				p.Inputs[i].WitnessUtxo = &wu
				break
			}
		}
	}
	b64, err = p.ToBase64()
	must(err)
	if kind != "nosig" {
		b64, err = signPset(b64, s.prov)
		must(err)
	}
	if kind == "badsig" || kind == "nowit" || kind == "nonwit" {
		p, err = pset.NewPsetFromBase64(b64)
		must(err)
		i := int(x>>3) % len(p.Inputs)
		switch kind {
		case "badsig":
			for j := range p.Inputs {
				for _, ps := range p.Inputs[j].PartialSigs {
					k, _ := btcec.PrivKeyFromBytes(btcec.S256(), bytes.Repeat([]byte{9}, 32))
					var h [32]byte
					g, _ := k.Sign(h[:])
					ps.Signature = append(g.Serialize(), 1)
				}
			}
		case "nowit":
			p.Inputs[i].WitnessUtxo = nil
			if x>>60%2 == 0 {
				for j := range p.Inputs {
					p.Inputs[j].WitnessUtxo = nil
				}
			}
		case "nonwit":
			op := inOutpoint(p.UnsignedTx.Inputs[i])
			p.Inputs[i].WitnessUtxo = nil
			if tx := s.c.Txs[op.Txid]; tx != nil {
				p.Inputs[i].NonWitnessUtxo = tx.Tx
			}
		}
		if o, err := p.ToBase64(); err == nil {
			b64 = o
		}
	}
	if kind == "mutate" {
		b, _ := base64.StdEncoding.DecodeString(b64)
		for i := uint64(0); i <= x%4; i++ {
			b[rt.Next(&t.r)%uint64(len(b))] = byte(rt.Next(&t.r))
		}
		if x>>5%4 == 0 {
			b = b[:rt.Next(&t.r)%uint64(len(b))]
		}
		b64 = base64.StdEncoding.EncodeToString(b)
	}
	acc.Transaction = b64
	acc.InputBlindingKey, acc.OutputBlindingKey = map[string][]byte{}, map[string][]byte{}
	for k, v := range r.InputBlindingKey {
		acc.InputBlindingKey[k], acc.OutputBlindingKey[k] = v, v
	}
	acc.InputBlindingKey[s.prov.scriptHex()] = s.prov.blind.Serialize()
	acc.OutputBlindingKey[s.prov.scriptHex()] = s.prov.blind.Serialize()
	return acc
}

func pad32(b []byte) []byte {
	if len(b) == 32 {
		return b
	}
	return make([]byte, 32)
}

func (p *libProv) TradeComplete(ctx context.Context, in *pbtrade.TradeCompleteRequest, _ ...grpc.CallOption) (pbtrade.Trade_TradeCompleteClient, error) {
	s, w := p.s, p.s.w
	t, err := p.enter(ctx, "complete")
	if err != nil {
		return nil, err
	}
	if t.req == nil || t.accept == nil {
		w.Violate("C25", "complete-unaccepted", "a trade is completed that was not accepted")
		return nil, errProv
	}
	t.cmpl = proto.Clone(in).(*pbtrade.TradeCompleteRequest)
	m := in.GetSwapComplete()
	if m == nil {
		return &cmplStream{r: &pbtrade.TradeCompleteReply{SwapFail: &pbswap.SwapFail{FailureMessage: "no"}}}, nil
	}
	var reply *pbtrade.TradeCompleteReply
	w.Quiet(func() {
		s.checkSigned(t, m.Transaction)
		if m.AcceptId != t.accept.Id {
			w.Violate("C25", "complete-id", "the completion is for %q instead of %q", m.AcceptId, t.accept.Id)
		}
		hx, err := finalTx(m.Transaction)
		id := ""
		if err == nil {
			id, err = s.c.Broadcast(hx, "provider")
		}
		if err != nil {
			w.Tracef("%s cannot be settled: %v", t.tag, err)
			w.Stat("settle.failed")
			busy := false
			if pp, e := pset.NewPsetFromBase64(t.req.SwapRequest.Transaction); e == nil {
				for _, i := range pp.UnsignedTx.Inputs {
					busy = busy || s.coinOf(i).SpentBy != ""
				}
			}
			if !t.foul && !busy {
				w.Violate("C25", "complete-invalid", "the completed transaction of an honest trade is invalid: %v", err)
			}
			if !t.foul {
				t.foul = true // it fails for good
			}
			reply = &pbtrade.TradeCompleteReply{SwapFail: &pbswap.SwapFail{FailureMessage: "cannot be settled"}}
			return
		}
		w.Stat("settled")
		w.seq++
		for _, i := range s.c.Txs[id].Tx.Inputs {
			s.spent[inOutpoint(i)] = w.seq
		}
		for _, o := range s.c.Txs[id].Outs {
			s.made[o.Op] = w.seq
		}
		t.txid = id
		reply = &pbtrade.TradeCompleteReply{Txid: id}
	})
	switch s.foulNow(t, "cfail", "cerr", "crecverr", "ceof", "cempty") {
	case "cfail":
		return &cmplStream{r: &pbtrade.TradeCompleteReply{SwapFail: &pbswap.SwapFail{FailureMessage: "no"}}}, nil
	case "cerr":
		return nil, errProv
	case "crecverr":
		return &cmplStream{err: errProv}, nil
	case "ceof":
		return &cmplStream{err: io.EOF}, nil
	case "cempty":
		return &cmplStream{r: &pbtrade.TradeCompleteReply{}}, nil
	}
	if err := wait(ctx, time.Duration(rt.Next(&t.r)%uint64(w.Cfg("lat_us")+1))*time.Microsecond); err != nil {
		return nil, err
	}
	t.answered = reply.Txid != ""
	return &cmplStream{r: reply}, nil
}
