//go:build go1.22

package verifsim

import (
	"context"
	"time"

	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	rt "github.com/tdex-network/tdex-daemon/verifsimrt"
)

func init() { scenarios["smoke"] = scenario{run: runSmoke} }

func runSmoke(w *World) {
	n := newNet(w)
	_ = n
	h := NewHost(w, DaemonOpts{Expiry: 120 * time.Second, Slippage: 0.05, MarketsFee: 25, Interval: 5 * time.Second, Limit: 10, Burst: 1, FeeThreshold: 1000, Timeout: 15000})
	must(h.Boot())
	t := w.Tag("op1")
	done := make(chan error)
	go func() {
		rt.Set(t)
		r, err := h.D.Wallet.GenSeed(context.Background(), &pbw.GenSeedRequest{})
		if err != nil {
			done <- err
			return
		}
		s := &initStream{fakeStream: fakeStream{ctx: context.Background()}}
		err = h.D.Wallet.InitWallet(&pbw.InitWalletRequest{SeedMnemonic: r.SeedMnemonic, WalletPassword: []byte("pass")}, s)
		if err == nil {
			_, err = h.D.Wallet.UnlockWallet(context.Background(), &pbw.UnlockWalletRequest{WalletPassword: []byte("pass")})
		}
		done <- err
	}()
	err := <-done
	w.Tracef("init %v points %d", err, t.N)
}
