//go:build go1.22

package verifsim

import (
	"context"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	pbop "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	rt "github.com/tdex-network/tdex-daemon/verifsimrt"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	pbtrade "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Scenario "fuzz": every remote procedure is called with generated messages,
// from valid ones with some fields changed to plain nonsense, while the usual
// faults happen; the daemon must survive, answer, start again, and still serve
// a fresh market (C21).

func init() { scenarios["fuzz"] = scenario{gen: genFuzz, run: runFuzz} }

var fuzzReqs = map[string]reflect.Type{}
var fuzzNames []string

func init() {
	for svc, t := range map[string]reflect.Type{
		"Trade":  reflect.TypeOf((*pbtrade.TradeServer)(nil)).Elem(),
		"Oper":   reflect.TypeOf((*pbop.OperatorServer)(nil)).Elem(),
		"Wallet": reflect.TypeOf((*pbw.WalletServer)(nil)).Elem(),
	} {
		for i := 0; i < t.NumMethod(); i++ {
			m := t.Method(i)
			if m.PkgPath != "" {
				continue
			}
			in := 1
			if m.Type.NumOut() == 1 {
				in = 0
			}
			n := svc + "." + m.Name
			fuzzReqs[n] = m.Type.In(in).Elem()
			fuzzNames = append(fuzzNames, n)
		}
	}
	sort.Strings(fuzzNames)
}

func genFuzz(w *World) {
	c := w.Plan.Cfg
	for k, v := range map[string]int64{"nmarkets": 1, "ncoins": 2, "nfee": 4, "nwallet": 2} {
		if _, ok := c[k]; !ok {
			c[k] = v
		}
	}
	ops := w.Plan.Ops
	w.Plan.Ops = []Op{{}} // the configuration only
	genW1(w)
	w.Plan.Ops = ops
	if len(ops) > 0 {
		return
	}
	n := 20 + w.Intn(120)
	burst := 1 + w.Intn(4)
	hot := fuzzNames[w.Intn(len(fuzzNames))]
	var t int64
	for i := 0; i < n; i++ {
		name := fuzzNames[w.Intn(len(fuzzNames))]
		switch w.Intn(6) {
		case 0:
			name = hot
		case 1, 2:
			name = "Trade.TradePropose"
		case 3:
			name = []string{"Trade.TradeComplete", "Trade.MarketPrice", "Oper.ClaimMarketDeposit", "Oper.UpdateMarketPrice"}[w.Intn(4)]
		}
		op := Op{ID: i, T: t, K: "call", S: name, A: []int64{int64(w.R() >> 1)}}
		switch w.Intn(40) {
		case 0:
			op = Op{ID: i, T: t, K: "mine"}
		case 1:
			op = Op{ID: i, T: t, K: "crash", A: []int64{w.LogRange(100000)}}
		}
		w.Plan.Ops = append(w.Plan.Ops, op)
		if w.Intn(burst) == 0 {
			t += w.LogRange(3000)
		}
	}
}

type fuzzer struct {
	s  *w1
	r  uint64
	op *Op
	// mutation budget: with which probability (of 16) a field is replaced by nonsense
	wild     uint64
	reshaped bool
}

func (f *fuzzer) n(k int) int { return int(rt.Next(&f.r)>>1) % k }

func (f *fuzzer) str(name string) string {
	s := f.s
	n := strings.ToLower(name)
	junk := []string{"", "0", "zz", "é☃\x00", strings.Repeat("ab", 32), strings.Repeat("AB", 32), strings.Repeat("a", 63), strings.Repeat("f", 5000), "-1", "el1qq", "http://hook.sim/x", "%s%n", "\"'"}
	if uint64(f.n(16)) < f.wild {
		return junk[f.n(len(junk))]
	}
	switch {
	case strings.Contains(n, "asset"):
		return []string{LBTC, s.quotes[0], s.quotes[1], assetN(90)}[f.n(4)]
	case strings.Contains(n, "transaction"):
		return f.tx()
	case strings.Contains(n, "address"):
		ks := sortedKeys(s.owned)
		if len(ks) > 0 && f.n(2) == 0 {
			return s.owned[ks[f.n(len(ks))]].addr
		}
		return s.w.NewKey("fuzz").addr
	case strings.Contains(n, "hash"), strings.Contains(n, "txid"):
		if len(s.ch.order) > 0 {
			return s.ch.order[f.n(len(s.ch.order))]
		}
	case strings.Contains(n, "endpoint"):
		return []string{"http://hook.sim/1", "https://hook.sim/2", "ftp://x"}[f.n(3)]
	case n == "id" || strings.HasSuffix(n, "id"):
		if len(s.trades) > 0 {
			t := s.trades[f.n(len(s.trades))]
			return []string{t.acceptID, t.pr.req.Id}[f.n(2)]
		}
	case strings.Contains(n, "mnemonic"):
		return s.mnemonic[f.n(len(s.mnemonic))]
	}
	return junk[f.n(len(junk))]
}

// tx is a transaction or partial transaction, often damaged.
func (f *fuzzer) tx() string {
	s := f.s
	var b string
	switch f.n(4) {
	case 0:
		if len(s.ch.order) > 0 {
			b = s.ch.Txs[s.ch.order[f.n(len(s.ch.order))]].Hex
		}
	default:
		if len(s.trades) > 0 {
			t := s.trades[f.n(len(s.trades))]
			b = t.pr.req.Transaction
			if t.accTx != nil {
				b = s.pset(t, f.n(5))
			}
		} else {
			b = buildPset(nil, []outSpec{{LBTC, 1, nil}})
		}
	}
	return f.damage(b)
}

func (f *fuzzer) damage(b string) string {
	k := f.n(10)
	if k < 2 {
		return b
	}
	if k > 5 {
		f.reshaped = true
		return f.reshape(b)
	}
	raw, err := base64.StdEncoding.DecodeString(b)
	enc := base64.StdEncoding.EncodeToString
	if h, e := hex.DecodeString(b); e == nil {
		raw, err, enc = h, nil, hex.EncodeToString
	}
	if err != nil || len(raw) == 0 {
		return b
	}
	switch k {
	case 2:
		raw = raw[:f.n(len(raw))]
	case 3:
		i := f.n(len(raw))
		j := i + f.n(len(raw)-i)
		raw = append(raw[:i:i], raw[j:]...)
	default:
		for i := 0; i <= f.n(4); i++ {
			p := f.n(len(raw))
			if f.n(2) == 0 && len(raw) > 200 {
				p = f.n(200)
			}
			raw[p] = []byte{byte(f.n(256)), 0, 0xff, raw[p] + 1, raw[p] ^ 0x80}[f.n(5)]
		}
	}
	return enc(raw)
}

func (f *fuzzer) bytes(b []byte) []byte {
	switch f.n(9) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return []byte{byte(f.n(256))}
	case 3:
		return []byte{0}
	case 4:
		return []byte{0, byte(f.n(40))}
	case 5:
		if len(b) > 0 {
			return b[:f.n(len(b))]
		}
	case 6:
		return append(append([]byte{}, b...), byte(f.n(256)))
	case 7:
		if len(b) > 0 {
			c := append([]byte{}, b...)
			c[f.n(len(c))] ^= byte(1 + f.n(255))
			return c
		}
	}
	return make([]byte, []int{1, 9, 20, 22, 32, 33, 34, 100}[f.n(8)])
}

// again decodes what reshape made.
func (f *fuzzer) again(b string) *pset.Pset {
	if !f.reshaped || f.n(4) == 0 {
		return nil
	}
	return tryPset(b)
}

// tryPset decodes what may be damaged.
func tryPset(b string) (p *pset.Pset) {
	defer func() {
		if recover() != nil {
			p = nil
		}
	}()
	p, err := psetTx(b)
	if err != nil {
		return nil
	}
	return p
}

// reshape changes the parts of a partial transaction; it stays well-formed.
func (f *fuzzer) reshape(b string) (out string) {
	p := tryPset(b)
	if p == nil || len(p.Inputs) == 0 || len(p.Outputs) == 0 {
		return b
	}
	out = b
	defer func() { recover() }() // what cannot be encoded
	for k := f.n(3); k >= 0; k-- {
		i, o := f.n(len(p.Inputs)), f.n(len(p.Outputs))
		in, ti, to := &p.Inputs[i], p.UnsignedTx.Inputs[i], p.UnsignedTx.Outputs[o]
		utx := func(ut *transaction.TxOutput) {
			switch f.n(6) {
			case 0:
				ut.Script = f.bytes(ut.Script)
			case 1:
				ut.Value = f.bytes(ut.Value)
			case 2:
				ut.Asset = f.bytes(ut.Asset)
			case 3:
				ut.Nonce = f.bytes(ut.Nonce)
			case 4:
				ut.RangeProof = f.bytes(ut.RangeProof)
			case 5:
				ut.SurjectionProof = f.bytes(ut.SurjectionProof)
			}
		}
		switch f.n(18) {
		case 0:
			to.Script = f.bytes(to.Script)
		case 1:
			to.Script = nil
		case 2:
			to.Value = f.bytes(to.Value)
		case 3:
			to.Asset = f.bytes(to.Asset)
		case 4:
			to.Nonce = f.bytes(to.Nonce)
		case 5:
			in.WitnessUtxo = nil
		case 6, 7:
			if in.WitnessUtxo != nil {
				utx(in.WitnessUtxo)
			}
		case 8, 9:
			if len(f.s.ch.order) > 0 {
				in.WitnessUtxo = nil
				in.NonWitnessUtxo = f.s.ch.Txs[f.s.ch.order[f.n(len(f.s.ch.order))]].Tx
				if f.n(2) == 0 {
					ti.Index = uint32(f.n(4))
				}
			}
		case 10:
			ti.Index = []uint32{0, 1, 7, 1 << 30, 0xffffffff}[f.n(5)]
		case 11:
			ti.Hash = make([]byte, 32)
		case 12: // the same coin twice
			p.Inputs = append(p.Inputs, *in)
			c := *ti
			p.UnsignedTx.Inputs = append(p.UnsignedTx.Inputs, &c)
		case 13:
			p.Outputs = append(p.Outputs, p.Outputs[o])
			c := *to
			p.UnsignedTx.Outputs = append(p.UnsignedTx.Outputs, &c)
		case 14:
			in.RedeemScript = f.bytes([]byte{0x51, 0x21})
			if f.n(2) == 0 {
				in.WitnessScript = f.bytes([]byte{0x51, 0x21})
			}
		case 15:
			in.FinalScriptWitness = f.bytes([]byte{1, 1, 1})
		case 16:
			in.PartialSigs = nil
			in.FinalScriptSig = f.bytes([]byte{1, 1, 1})
		case 17:
			p.UnsignedTx.Locktime = uint32(rt.Next(&f.r))
			ti.Issuance = &transaction.TxIssuance{AssetBlindingNonce: make([]byte, 32), AssetEntropy: make([]byte, 32), AssetAmount: f.bytes([]byte{0}), TokenAmount: []byte{0}}
		}
	}
	if x, err := p.ToBase64(); err == nil {
		out = x
	}
	return
}

func (f *fuzzer) num(name string) int64 {
	n := strings.ToLower(name)
	v := []int64{0, 1, -1, 2, 5, 100, 10000, 1 << 31, -1 << 31, math.MaxInt64, math.MinInt64, 21e14, int64(rt.Next(&f.r) % 100000), int64(rt.Next(&f.r))}[f.n(14)]
	switch {
	case strings.Contains(n, "numof"), strings.Contains(n, "num_of"):
		// what the operator asks for is derived, one by one
		if v < -100 || v > 100 {
			v %= 100
		}
	case strings.Contains(n, "account") && f.n(2) == 0:
		v = int64(f.n(9))
	case strings.Contains(n, "basis") && f.n(2) == 0:
		v = int64(f.n(10000))
	case strings.Contains(n, "milli") && f.n(2) == 0:
		v = 100
	}
	return v
}

func (f *fuzzer) float() float64 {
	return []float64{0, 1, -1, 0.00001, 1e-40, 1e38, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat32, float64(f.n(1000)), 1.5}[f.n(12)]
}

func (f *fuzzer) scalar(fd protoreflect.FieldDescriptor) protoreflect.Value {
	name := string(fd.Name())
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(f.n(2) == 0)
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber([]int{0, 1, 2, 3, 4, -1, 99}[f.n(7)]))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(f.num(name)))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(f.num(name)))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(f.num(name))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(uint64(f.num(name)))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(f.float()))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(f.float())
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(strings.ToValidUTF8(f.str(name), "?"))
	case protoreflect.BytesKind:
		b := make([]byte, []int{0, 1, 31, 32, 33, 64}[f.n(6)])
		for i := range b {
			b[i] = byte(f.n(256))
		}
		return protoreflect.ValueOfBytes(b)
	}
	return fd.Default()
}

// fill changes fields of a message: all of them if p is 16.
func (f *fuzzer) fill(m protoreflect.Message, p uint64, depth int) {
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		change := uint64(f.n(16)) < p
		switch {
		case fd.IsMap():
			if !change {
				continue
			}
			if f.n(3) == 0 {
				m.Clear(fd)
				continue
			}
			mp := m.Mutable(fd).Map()
			for j := f.n(3); j > 0; j-- {
				if fd.MapValue().Kind() == protoreflect.MessageKind {
					continue
				}
				mp.Set(f.scalar(fd.MapKey()).MapKey(), f.scalar(fd.MapValue()))
			}
		case fd.IsList():
			if !change {
				l := m.Get(fd).List()
				for j := 0; j < l.Len() && fd.Kind() == protoreflect.MessageKind && depth < 4; j++ {
					f.fill(l.Get(j).Message(), p, depth+1)
				}
				continue
			}
			l := m.Mutable(fd).List()
			if f.n(2) == 0 {
				l.Truncate(0)
			}
			for j := f.n(4); j > 0; j-- {
				if fd.Kind() == protoreflect.MessageKind {
					e := l.AppendMutable().Message()
					f.fill(e, 14, depth+1)
					if f.n(4) == 0 { // twice the same
						l.Append(protoreflect.ValueOfMessage(proto.Clone(e.Interface()).ProtoReflect()))
					}
				} else {
					l.Append(f.scalar(fd))
				}
			}
		case fd.Kind() == protoreflect.MessageKind:
			if depth > 4 {
				continue
			}
			if change && f.n(6) == 0 {
				m.Clear(fd)
				continue
			}
			if m.Has(fd) {
				f.fill(m.Mutable(fd).Message(), p, depth+1)
			} else if change {
				f.fill(m.Mutable(fd).Message(), 14, depth+1)
			}
		default:
			if change {
				m.Set(fd, f.scalar(fd))
			}
		}
	}
}

// base is a meaningful request to start from, nil if there is none.
func (f *fuzzer) base(name string) proto.Message {
	s := f.s
	mk := s.base(0)
	switch name {
	case "Trade.TradePropose":
		buy := f.n(2) == 0
		amt := uint64(1000 + f.n(200000))
		var p uint64 = amt
		if pr, _ := s.price(f.op, 1, 0, buy, amt, LBTC); pr != nil {
			p = pr.Amount
		}
		aP, nP, aR, nR := s.quotes[0], p, LBTC, amt
		if !buy {
			aP, nP, aR, nR = LBTC, amt, s.quotes[0], p
		}
		if nP == 0 || nP > 1<<50 {
			nP = 1
		}
		if nR == 0 || nR > 1<<50 {
			nR = 1
		}
		pr := s.tr.propose(aP, nP, aR, nR, 1+f.n(3))
		pr.sell = !buy
		t := &w1trade{pr: pr, buy: buy, op: f.op}
		s.trades = append(s.trades, t)
		tt := pbtrade.TradeType_BUY
		if !buy {
			tt = pbtrade.TradeType_SELL
		}
		return &pbtrade.TradeProposeRequest{Market: mk, Type: tt, SwapRequest: pr.req}
	case "Trade.TradeComplete":
		for i := 0; i < 10 && len(s.trades) > 0; i++ {
			if t := s.trades[f.n(len(s.trades))]; t.accTx != nil {
				if f.n(4) == 0 {
					return &pbtrade.TradeCompleteRequest{SwapFail: &pbswap.SwapFail{Id: "f", MessageId: t.acceptID}}
				}
				return &pbtrade.TradeCompleteRequest{SwapComplete: &pbswap.SwapComplete{Id: "c", AcceptId: t.acceptID, Transaction: s.pset(t, f.n(3))}}
			}
		}
	case "Trade.MarketPrice":
		return &pbtrade.MarketPriceRequest{Market: mk, Amount: 1000, Asset: LBTC}
	case "Oper.ClaimMarketDeposit":
		return &pbop.ClaimMarketDepositRequest{Market: mk, Outpoints: f.points()}
	case "Oper.ClaimFeeDeposit":
		return &pbop.ClaimFeeDepositRequest{Outpoints: f.points()}
	case "Wallet.SendToMany":
		r := &pbw.SendToManyRequest{MillisatPerByte: 100}
		for i := f.n(4); i > 0; i-- {
			r.Outputs = append(r.Outputs, &pbw.TxOut{Asset: LBTC, Value: int64(1 + f.n(5000)), Address: s.w.NewKey("fuzz").addr})
		}
		return r
	case "Oper.WithdrawMarket":
		return &pbop.WithdrawMarketRequest{Market: mk, MillisatPerByte: 100, Address: s.w.NewKey("fuzz").addr}
	}
	return nil
}

func (f *fuzzer) points() (l []*pbop.TxOutpoint) {
	for i := f.n(3); i >= 0 && len(f.s.ch.order) > 0; i-- {
		l = append(l, &pbop.TxOutpoint{Hash: f.s.ch.order[f.n(len(f.s.ch.order))], Index: int32(f.n(3))})
	}
	return
}

func (s *w1) fuzzCall(op *Op) {
	w := s.w
	f := &fuzzer{s: s, r: rt.HashString(uint64(op.Arg(0)), "fuzz"), op: op}
	f.wild = uint64([]int{0, 1, 4}[f.n(3)])
	typ := fuzzReqs[op.S]
	if typ == nil {
		return
	}
	req := reflect.New(typ).Interface().(proto.Message)
	p := uint64([]int{0, 1, 2, 14, 16}[f.n(5)])
	b := f.base(op.S)
	if b != nil && f.n(5) != 0 {
		req = b
		p = uint64([]int{0, 0, 1, 1, 2, 4}[f.n(6)])
	}
	var prop *w1trade
	if x, ok := req.(*pbtrade.TradeProposeRequest); ok && b != nil && len(s.trades) > 0 {
		prop = s.trades[len(s.trades)-1]
		x.SwapRequest = proto.Clone(x.SwapRequest).(*pbswap.SwapRequest)
	}
	if b == nil && f.n(3) > 0 { // a request on the market that there is
		m := req.ProtoReflect()
		if fd := m.Descriptor().Fields().ByName("market"); fd != nil && fd.Message() != nil && fd.Message().Name() == "Market" {
			m.Set(fd, protoreflect.ValueOfMessage(s.base(0).ProtoReflect()))
			p = uint64([]int{0, 1, 2, 6}[f.n(4)])
			for i := 0; i < m.Descriptor().Fields().Len(); i++ {
				if x := m.Descriptor().Fields().Get(i); x != fd && f.n(4) > 0 && x.Kind() != protoreflect.MessageKind && !x.IsList() && !x.IsMap() {
					m.Set(x, f.scalar(x))
				} else if x != fd && f.n(4) > 0 && x.Kind() == protoreflect.MessageKind && !x.IsList() && !x.IsMap() {
					f.fill(m.Mutable(x).Message(), 16, 1)
				}
			}
		}
	}
	f.fill(req.ProtoReflect(), p, 0)
	if x, ok := req.(*pbtrade.TradeProposeRequest); ok && f.n(3) == 0 && x.SwapRequest != nil {
		x.SwapRequest.Transaction = f.damage(x.SwapRequest.Transaction)
		if q := f.again(x.SwapRequest.Transaction); q != nil && prop != nil && x.SwapRequest.InputBlindingKey != nil && x.SwapRequest.OutputBlindingKey != nil { // a key for every script
			k := prop.pr.key.blind.Serialize()
			for i, in := range q.Inputs {
				if in.WitnessUtxo != nil {
					x.SwapRequest.InputBlindingKey[hex.EncodeToString(in.WitnessUtxo.Script)] = k
				} else if n := in.NonWitnessUtxo; n != nil && int(q.UnsignedTx.Inputs[i].Index) < len(n.Outputs) {
					x.SwapRequest.InputBlindingKey[hex.EncodeToString(n.Outputs[q.UnsignedTx.Inputs[i].Index].Script)] = k
				}
			}
			for _, o := range q.UnsignedTx.Outputs {
				x.SwapRequest.OutputBlindingKey[hex.EncodeToString(o.Script)] = k
			}
		}
	}
	if x, ok := req.(*pbtrade.TradeCompleteRequest); ok && f.n(3) == 0 && x.SwapComplete != nil {
		x.SwapComplete.Transaction = f.damage(x.SwapComplete.Transaction)
	}
	switch x := req.(type) { // never the right passphrase
	case *pbw.UnlockWalletRequest:
		x.WalletPassword = append(x.WalletPassword, 'x')
	case *pbw.ChangePasswordRequest:
		x.CurrentPassword = append(x.CurrentPassword, 'x')
	}
	// as it comes out of the wire
	raw, err := proto.Marshal(req)
	if err != nil {
		return
	}
	req = reflect.New(typ).Interface().(proto.Message)
	must(proto.Unmarshal(raw, req))
	w.Tracef("%s %s", op.S, short80(fmt.Sprint(req)))
	i := strings.IndexByte(op.S, '.')
	svc, name := op.S[:i], op.S[i+1:]
	ps := &proposeStream{}
	c := s.api(op, 9, op.S, func(ctx context.Context, d *Daemon) error {
		var h reflect.Value
		switch svc {
		case "Trade":
			h = reflect.ValueOf(d.Trade)
		case "Oper":
			h = reflect.ValueOf(d.Oper)
		default:
			h = reflect.ValueOf(d.Wallet)
		}
		m := h.MethodByName(name)
		var out []reflect.Value
		if m.Type().NumOut() == 1 {
			ps.fakeStream = fakeStream{ctx: ctx}
			st := []reflect.Value{reflect.ValueOf(ps), reflect.ValueOf(&completeStream{fakeStream: fakeStream{ctx: ctx}}), reflect.ValueOf(&initStream{fakeStream: fakeStream{ctx: ctx}})}
			for _, v := range st {
				if v.Type().Implements(m.Type().In(1)) {
					out = m.Call([]reflect.Value{reflect.ValueOf(req), v})
				}
			}
			if out == nil {
				return nil
			}
		} else {
			out = m.Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(req)})
			if out[1].IsNil() && out[0].IsNil() {
				w.Violate("C21", "empty-answer", "%s answers neither a reply nor an error", op.S)
			}
		}
		if e := out[len(out)-1]; !e.IsNil() {
			return e.Interface().(error)
		}
		return nil
	})
	if c == nil {
		return
	}
	w.State("fuzz", op.S, fmt.Sprint(c.ok()))
	if c.ok() && prop != nil && ps.reply.GetSwapAccept() != nil {
		a := ps.reply.SwapAccept
		prop.acceptID, prop.pset = a.Id, a.Transaction
		if p, err := psetTx(a.Transaction); err == nil {
			if _, err := signPset(a.Transaction, prop.pr.key); err == nil {
				if hx, err := p.UnsignedTx.ToHex(); err == nil {
					prop.accTx, _ = decodeTx(hx)
				}
			}
		}
		w.Stat("fuzz.accepted")
	}
}

func runFuzz(w *World) {
	w.Only = "C21" // the model of W1 does not follow these calls
	s := newW1(w)
	s.prelude()
	if w.inconcl != "" {
		return
	}
	s.main = false
	w.FaultsOn = true
	w.Go("supervisor", s.supervise)
	start := w.Now()
	done := make(chan struct{}, len(w.Plan.Ops)+1)
	for i := range w.Plan.Ops {
		op := &w.Plan.Ops[i]
		w.Go(fmt.Sprintf("env%d", op.ID), func() {
			if d := start + time.Duration(op.T)*time.Millisecond - w.Now(); d > 0 {
				time.Sleep(d)
			}
			switch op.K {
			case "call":
				s.fuzzCall(op)
			case "mine":
				s.mine()
			default:
				s.exec(op)
			}
			done <- struct{}{}
		})
	}
	for range w.Plan.Ops {
		<-done
	}
	w.FaultsOn = false
	defer func() { s.mainEnd = true }()
	s.n.DownUntil = 0
	for i := 0; s.h.D == nil || s.locked() != 0; i++ {
		time.Sleep(time.Second)
		if i > 600 {
			w.Violate("C21", "down-for-good", "the daemon is not back 10 minutes after the last fault")
			return
		}
	}
	w.Stat("fuzz.survived")
	s.stopMine = true
	time.Sleep(2 * time.Minute)
	// it starts again on what it stored
	s.h.Crash()
	for i := 0; s.h.D == nil || s.locked() != 0; i++ {
		time.Sleep(time.Second)
		if i > 600 {
			w.Violate("C21", "restart-fails", "the daemon does not start again after the calls")
			return
		}
	}
	// and a fresh market works
	op := &Op{ID: 5000}
	var fee []string
	if c := s.mustFuzz(op, 1, "depositfee", func(ctx context.Context, d *Daemon) error {
		r, err := d.Oper.DepositFeeAccount(ctx, &pbop.DepositFeeAccountRequest{NumOfAddresses: 2})
		if err == nil {
			for _, a := range r.AddressWithBlindingKey {
				fee = append(fee, a.Address)
			}
		}
		return err
	}); c == nil {
		return
	}
	var pts []*pbop.TxOutpoint
	for _, a := range fee {
		o := s.fund(a, LBTC, 150000)
		pts = append(pts, &pbop.TxOutpoint{Hash: o.Op.Txid, Index: int32(o.Op.Vout)})
	}
	s.ch.Mine()
	if c := s.mustFuzz(op, 2, "claimfee", func(ctx context.Context, d *Daemon) error {
		_, err := d.Oper.ClaimFeeDeposit(ctx, &pbop.ClaimFeeDepositRequest{Outpoints: pts})
		return err
	}); c == nil {
		return
	}
	var addrs []string
	m := 5
	if c := s.mustFuzz(op, 3, "newmarket", func(ctx context.Context, d *Daemon) error {
		r, err := d.Oper.DepositMarket(ctx, &pbop.DepositMarketRequest{NumOfAddresses: 2})
		if err == nil {
			addrs = r.Addresses
		}
		return err
	}); c == nil {
		return
	}
	pts = nil
	for _, a := range addrs {
		for _, as := range []string{LBTC, s.quotes[m]} {
			o := s.fund(a, as, 5000000)
			pts = append(pts, &pbop.TxOutpoint{Hash: o.Op.Txid, Index: int32(o.Op.Vout)})
		}
	}
	s.ch.Mine()
	if c := s.mustFuzz(op, 4, "claimmarket", func(ctx context.Context, d *Daemon) error {
		_, err := d.Oper.ClaimMarketDeposit(ctx, &pbop.ClaimMarketDepositRequest{Market: s.base(m), Outpoints: pts})
		return err
	}); c == nil {
		return
	}
	if c := s.mustFuzz(op, 5, "open", func(ctx context.Context, d *Daemon) error {
		_, err := d.Oper.OpenMarket(ctx, &pbop.OpenMarketRequest{Market: s.base(m)})
		return err
	}); c == nil {
		return
	}
	w.Quiet(func() {
		if d := s.h.D; d != nil {
			mk, _, err := d.Repo.MarketRepository().GetMarketByAsset(context.Background(), s.quotes[m])
			if err != nil || mk == nil {
				w.Violate("C21", "fresh-market", "a fresh market is not stored: %v", err)
			}
			_ = domain.FeeAccount
		}
	})
	p, c := s.price(op, 6, m, true, 10000, LBTC)
	if p == nil {
		w.Violate("C21", "fresh-price", "a fresh market has no price: %s", callErr(c))
		return
	}
	r := rt.HashString(w.Seed, "fresh")
	t := s.proposeWith(&Op{ID: 5000, K: "trade", A: []int64{0, 0, 0, 1}}, 7, m, true, s.quotes[m], p.Amount, LBTC, 10000, vHonest, &r)
	if t.accTx == nil {
		w.Violate("C21", "fresh-trade", "an honest trade on a fresh market is refused: %s %s", t.reason, callErr(t.c))
		return
	}
	if !s.complete(op, 8, t, 0) {
		w.Violate("C21", "fresh-complete", "an honest trade on a fresh market is not completed: %s", t.reason)
	}
	w.Stat("fuzz.served")
}

func (s *w1) mustFuzz(op *Op, step int, name string, f func(ctx context.Context, d *Daemon) error) *call {
	c := s.api(op, step, name, f)
	if c == nil || !c.done || c.err != nil {
		s.w.Violate("C21", "after-"+name, "after the calls %s fails with no fault: %s", name, callErr(c))
		return nil
	}
	return c
}
