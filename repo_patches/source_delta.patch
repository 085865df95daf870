From a919b695aba36499bae874d72ec75cc4297990ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 01/36] fix: make updates of the badger repositories atomic

Read-modify-write updates made outside of a transaction lost concurrent
updates, a lock of an unspent could be granted to two trades, transactions
were never discarded, locks of unspents not in the (in-memory) set could not
be released, the prices transaction was used with the wrong store, a market
whose price was not stored made every listing fail and expired trades were
listed as completed.
---
 .../storage/db/badger/db_manager.go           |  51 +++++--
 .../db/badger/market_repository_impl.go       | 143 ++++++++++--------
 .../db/badger/trade_repository_impl.go        |  69 +++++----
 .../db/badger/unspent_repository_impl.go      | 103 ++++++++-----
 .../db/badger/vault_repository_impl.go        |  52 ++++---
 5 files changed, 241 insertions(+), 177 deletions(-)

diff --git a/internal/infrastructure/storage/db/badger/db_manager.go b/internal/infrastructure/storage/db/badger/db_manager.go
index 1bf012d..2eeefca 100644
--- a/internal/infrastructure/storage/db/badger/db_manager.go
+++ b/internal/infrastructure/storage/db/badger/db_manager.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"path/filepath"
 	"time"
@@ -178,31 +179,51 @@ func (d *repoManager) runTransaction(
 	for {
 		tx, ctx := args.ctxMaker()
 		res, err := args.handler(ctx)
-		if err != nil {
-			if args.readOnly && isTransactionConflict(err) {
-				time.Sleep(50 * time.Millisecond)
-				continue
-			}
+		if err == nil && !args.readOnly {
+			err = tx.Commit()
+		}
+		tx.Discard()
+		if err == nil {
+			return res, nil
+		}
+		if !isTransactionConflict(err) {
 			return nil, err
 		}
+		time.Sleep(50 * time.Millisecond)
+	}
+}
 
-		if !args.readOnly {
-			if err := tx.Commit(); err != nil {
-				if !isTransactionConflict(err) {
-					return nil, err
-				}
-				time.Sleep(50 * time.Millisecond)
-				continue
-			}
+// runAtomic runs the given function within the transaction of the context
+// identified by the given key, if any. Otherwise, it runs it within a new
+// transaction of the given store, that is retried in case of conflicts.
+func runAtomic(
+	ctx context.Context,
+	store *badgerhold.Store,
+	txKey string,
+	fn func(ctx context.Context) error,
+) error {
+	if ctx.Value(txKey) != nil {
+		return fn(ctx)
+	}
+
+	for {
+		tx := store.Badger().NewTransaction(true)
+		err := fn(context.WithValue(ctx, txKey, tx))
+		if err == nil {
+			err = tx.Commit()
+		}
+		tx.Discard()
+		if !isTransactionConflict(err) {
+			return err
 		}
-		return res, nil
+		time.Sleep(50 * time.Millisecond)
 	}
 }
 
 // isTransactionConflict returns wheter the error occured when commiting a
 // transacton is a conflict
 func isTransactionConflict(err error) bool {
-	return err == badger.ErrConflict
+	return errors.Is(err, badger.ErrConflict)
 }
 
 // JSONEncode is a custom JSON based encoder for badger
diff --git a/internal/infrastructure/storage/db/badger/market_repository_impl.go b/internal/infrastructure/storage/db/badger/market_repository_impl.go
index bdf23a9..b16e444 100644
--- a/internal/infrastructure/storage/db/badger/market_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/market_repository_impl.go
@@ -99,80 +99,86 @@ func (m marketRepositoryImpl) UpdateMarket(
 	accountIndex int,
 	updateFn func(m *domain.Market) (*domain.Market, error),
 ) error {
-	currentMarket, err := m.getMarket(ctx, accountIndex)
-	if err != nil {
-		return err
-	}
-	if currentMarket == nil {
-		return ErrMarketNotFound
-	}
+	return runAtomic(ctx, m.store, "tx", func(ctx context.Context) error {
+		currentMarket, err := m.getMarket(ctx, accountIndex)
+		if err != nil {
+			return err
+		}
+		if currentMarket == nil {
+			return ErrMarketNotFound
+		}
 
-	updatedMarket, err := updateFn(currentMarket)
-	if err != nil {
-		return err
-	}
+		updatedMarket, err := updateFn(currentMarket)
+		if err != nil {
+			return err
+		}
 
-	return m.updateMarket(ctx, accountIndex, *updatedMarket)
+		return m.updateMarket(ctx, accountIndex, *updatedMarket)
+	})
 }
 
 func (m marketRepositoryImpl) OpenMarket(
 	ctx context.Context,
 	quoteAsset string,
 ) error {
-	query := badgerhold.Where("QuoteAsset").Eq(quoteAsset)
-	markets, err := m.findMarkets(ctx, query)
-	if err != nil {
-		return err
-	}
-
-	if len(markets) > 0 {
-		market := markets[0]
-		if market.IsTradable() {
-			return nil
-		}
-
-		err = market.MakeTradable()
+	return runAtomic(ctx, m.store, "tx", func(ctx context.Context) error {
+		query := badgerhold.Where("QuoteAsset").Eq(quoteAsset)
+		markets, err := m.findMarkets(ctx, query)
 		if err != nil {
 			return err
 		}
 
-		err := m.updateMarket(ctx, market.AccountIndex, market)
-		if err != nil {
-			return err
+		if len(markets) > 0 {
+			market := markets[0]
+			if market.IsTradable() {
+				return nil
+			}
+
+			err = market.MakeTradable()
+			if err != nil {
+				return err
+			}
+
+			err := m.updateMarket(ctx, market.AccountIndex, market)
+			if err != nil {
+				return err
+			}
 		}
-	}
 
-	return nil
+		return nil
+	})
 }
 
 func (m marketRepositoryImpl) CloseMarket(
 	ctx context.Context,
 	quoteAsset string,
 ) error {
-	query := badgerhold.Where("QuoteAsset").Eq(quoteAsset)
-	markets, err := m.findMarkets(ctx, query)
-	if err != nil {
-		return err
-	}
-
-	if len(markets) > 0 {
-		market := markets[0]
-		if !market.IsTradable() {
-			return nil
-		}
-
-		err = market.MakeNotTradable()
+	return runAtomic(ctx, m.store, "tx", func(ctx context.Context) error {
+		query := badgerhold.Where("QuoteAsset").Eq(quoteAsset)
+		markets, err := m.findMarkets(ctx, query)
 		if err != nil {
 			return err
 		}
 
-		err := m.updateMarket(ctx, market.AccountIndex, market)
-		if err != nil {
-			return err
+		if len(markets) > 0 {
+			market := markets[0]
+			if !market.IsTradable() {
+				return nil
+			}
+
+			err = market.MakeNotTradable()
+			if err != nil {
+				return err
+			}
+
+			err := m.updateMarket(ctx, market.AccountIndex, market)
+			if err != nil {
+				return err
+			}
 		}
-	}
 
-	return nil
+		return nil
+	})
 }
 
 func (m marketRepositoryImpl) UpdatePrices(ctx context.Context, accountIndex int, prices domain.Prices) error {
@@ -192,24 +198,28 @@ func (m marketRepositoryImpl) getOrCreateMarket(
 		return nil, ErrMarketInvalidRequest
 	}
 
-	mkt, err := m.getMarket(ctx, market.AccountIndex)
-	if err != nil {
-		return nil, err
-	}
-
-	if mkt == nil {
-		accountIndex := market.AccountIndex
-		fee := market.Fee
-
-		mkt, err = domain.NewMarket(accountIndex, fee)
+	var mkt *domain.Market
+	if err := runAtomic(ctx, m.store, "tx", func(ctx context.Context) error {
+		var err error
+		mkt, err = m.getMarket(ctx, market.AccountIndex)
 		if err != nil {
-			return nil, err
+			return err
 		}
 
-		err = m.insertMarket(ctx, accountIndex, mkt)
-		if err != nil {
-			return nil, err
+		if mkt == nil {
+			accountIndex := market.AccountIndex
+			fee := market.Fee
+
+			mkt, err = domain.NewMarket(accountIndex, fee)
+			if err != nil {
+				return err
+			}
+
+			return m.insertMarket(ctx, accountIndex, mkt)
 		}
+		return nil
+	}); err != nil {
+		return nil, err
 	}
 
 	return mkt, nil
@@ -335,11 +345,16 @@ func (m marketRepositoryImpl) getPriceByAccountIndex(ctx context.Context, accoun
 
 	if ctx.Value("ptx") != nil {
 		tx := ctx.Value("ptx").(*badger.Txn)
-		err = m.store.TxGet(tx, accountIndex, &prices)
+		err = m.priceStore.TxGet(tx, accountIndex, &prices)
 	} else {
 		err = m.priceStore.Get(accountIndex, &prices)
 	}
 
+	if err == badgerhold.ErrNotFound {
+		// the markets and the prices are stored in different databases, therefore
+		// the latter may miss the (zero) price of a new market.
+		return &domain.Prices{}, nil
+	}
 	if err != nil {
 		return nil, fmt.Errorf("trying to get price for market with account %v: %w", accountIndex, err)
 	}
@@ -350,7 +365,7 @@ func (m marketRepositoryImpl) getPriceByAccountIndex(ctx context.Context, accoun
 func (m marketRepositoryImpl) updatePriceByAccountIndex(ctx context.Context, accountIndex int, prices domain.Prices) (err error) {
 	if ctx.Value("ptx") != nil {
 		tx := ctx.Value("ptx").(*badger.Txn)
-		err = m.store.TxUpsert(
+		err = m.priceStore.TxUpsert(
 			tx,
 			accountIndex,
 			prices,
diff --git a/internal/infrastructure/storage/db/badger/trade_repository_impl.go b/internal/infrastructure/storage/db/badger/trade_repository_impl.go
index 1230932..d92ce47 100644
--- a/internal/infrastructure/storage/db/badger/trade_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/trade_repository_impl.go
@@ -34,7 +34,7 @@ func (t tradeRepositoryImpl) GetOrCreateTrade(
 func (t tradeRepositoryImpl) GetAllTrades(
 	ctx context.Context,
 ) ([]*domain.Trade, error) {
-	return t.getAllTrades(ctx), nil
+	return t.getAllTrades(ctx)
 }
 
 func (t tradeRepositoryImpl) GetAllTradesByMarket(
@@ -52,6 +52,7 @@ func (t tradeRepositoryImpl) GetCompletedTradesByMarket(
 	query := badgerhold.
 		Where("MarketQuoteAsset").Eq(marketQuoteAsset).
 		And("Status.Code").Ge(domain.Completed).
+		And("Status.Code").Le(domain.Settled).
 		And("Status.Failed").Eq(false)
 	return t.findTrades(ctx, query)
 }
@@ -97,49 +98,48 @@ func (t tradeRepositoryImpl) UpdateTrade(
 	ID *uuid.UUID,
 	updateFn func(t *domain.Trade) (*domain.Trade, error),
 ) error {
-	txIsNotGiven := ctx.Value("tx") == nil
-
-	currentTrade, err := t.getTrade(ctx, *ID)
-	if err != nil {
-		return err
-	}
-
-	updatedTrade, err := updateFn(currentTrade)
-	if err != nil {
-		return err
-	}
+	return runAtomic(ctx, t.store, "tx", func(ctx context.Context) error {
+		currentTrade, err := t.getTrade(ctx, *ID)
+		if err != nil {
+			return err
+		}
+		if currentTrade == nil {
+			return ErrTradeNotFound
+		}
 
-	for {
-		err := t.updateTrade(ctx, updatedTrade.ID, *updatedTrade)
+		updatedTrade, err := updateFn(currentTrade)
 		if err != nil {
-			if txIsNotGiven && isTransactionConflict(err) {
-				continue
-			}
+			return err
 		}
-		return err
-	}
+
+		return t.updateTrade(ctx, updatedTrade.ID, *updatedTrade)
+	})
 }
 
 func (t tradeRepositoryImpl) getOrCreateTrade(
 	ctx context.Context,
 	ID *uuid.UUID,
 ) (*domain.Trade, error) {
-	if ID != nil {
-		tr, err := t.getTrade(ctx, *ID)
-		if err != nil {
-			return nil, err
-		}
-		if tr != nil {
-			return tr, nil
+	var trade *domain.Trade
+	if err := runAtomic(ctx, t.store, "tx", func(ctx context.Context) error {
+		if ID != nil {
+			tr, err := t.getTrade(ctx, *ID)
+			if err != nil {
+				return err
+			}
+			if tr != nil {
+				trade = tr
+				return nil
+			}
 		}
-	}
 
-	trade := domain.NewTrade()
-	if ID != nil {
-		trade.ID = *ID
-	}
+		trade = domain.NewTrade()
+		if ID != nil {
+			trade.ID = *ID
+		}
 
-	if err := t.insertTrade(ctx, *trade); err != nil {
+		return t.insertTrade(ctx, *trade)
+	}); err != nil {
 		return nil, err
 	}
 	return trade, nil
@@ -223,7 +223,6 @@ func (t tradeRepositoryImpl) insertTrade(
 	return nil
 }
 
-func (t tradeRepositoryImpl) getAllTrades(ctx context.Context) []*domain.Trade {
-	trades, _ := t.findTrades(ctx, nil)
-	return trades
+func (t tradeRepositoryImpl) getAllTrades(ctx context.Context) ([]*domain.Trade, error) {
+	return t.findTrades(ctx, nil)
 }
diff --git a/internal/infrastructure/storage/db/badger/unspent_repository_impl.go b/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
index 7d418e1..ac15c0c 100644
--- a/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
@@ -155,13 +155,14 @@ func (u unspentRepositoryImpl) addUnspents(
 	ctx context.Context,
 	unspents []domain.Unspent,
 ) error {
-	for _, v := range unspents {
-		if err := u.insertUnspent(ctx, v); err != nil {
-			return err
+	return runAtomic(ctx, u.store, "utx", func(ctx context.Context) error {
+		for _, v := range unspents {
+			if err := u.insertUnspent(ctx, v); err != nil {
+				return err
+			}
 		}
-	}
-
-	return nil
+		return nil
+	})
 }
 
 func (u unspentRepositoryImpl) getAllUnspents(ctx context.Context) []domain.Unspent {
@@ -203,14 +204,20 @@ func (u unspentRepositoryImpl) spendUnspents(
 	unspentKeys []domain.UnspentKey,
 ) (int, error) {
 	count := 0
-	for _, key := range unspentKeys {
-		done, err := u.spendUnspent(ctx, key)
-		if err != nil {
-			return -1, err
-		}
-		if done {
-			count++
+	if err := runAtomic(ctx, u.store, "utx", func(ctx context.Context) error {
+		count = 0
+		for _, key := range unspentKeys {
+			done, err := u.spendUnspent(ctx, key)
+			if err != nil {
+				return err
+			}
+			if done {
+				count++
+			}
 		}
+		return nil
+	}); err != nil {
+		return -1, err
 	}
 	return count, nil
 }
@@ -243,14 +250,20 @@ func (u unspentRepositoryImpl) confirmUnspents(
 	unspentKeys []domain.UnspentKey,
 ) (int, error) {
 	count := 0
-	for _, key := range unspentKeys {
-		done, err := u.confirmUnspent(ctx, key)
-		if err != nil {
-			return -1, err
-		}
-		if done {
-			count++
+	if err := runAtomic(ctx, u.store, "utx", func(ctx context.Context) error {
+		count = 0
+		for _, key := range unspentKeys {
+			done, err := u.confirmUnspent(ctx, key)
+			if err != nil {
+				return err
+			}
+			if done {
+				count++
+			}
 		}
+		return nil
+	}); err != nil {
+		return -1, err
 	}
 	return count, nil
 }
@@ -284,14 +297,20 @@ func (u unspentRepositoryImpl) lockUnspents(
 	tradeID uuid.UUID,
 ) (int, error) {
 	count := 0
-	for _, key := range unspentKeys {
-		done, err := u.lockUnspent(ctx, key, tradeID)
-		if err != nil {
-			return -1, err
-		}
-		if done {
-			count++
+	if err := runAtomic(ctx, u.lockStore, "tx", func(ctx context.Context) error {
+		count = 0
+		for _, key := range unspentKeys {
+			done, err := u.lockUnspent(ctx, key, tradeID)
+			if err != nil {
+				return err
+			}
+			if done {
+				count++
+			}
 		}
+		return nil
+	}); err != nil {
+		return -1, err
 	}
 	return count, nil
 }
@@ -326,14 +345,20 @@ func (u unspentRepositoryImpl) unlockUnspents(
 	unspentKeys []domain.UnspentKey,
 ) (int, error) {
 	count := 0
-	for _, key := range unspentKeys {
-		done, err := u.unlockUnspent(ctx, key)
-		if err != nil {
-			return -1, err
-		}
-		if done {
-			count++
+	if err := runAtomic(ctx, u.lockStore, "tx", func(ctx context.Context) error {
+		count = 0
+		for _, key := range unspentKeys {
+			done, err := u.unlockUnspent(ctx, key)
+			if err != nil {
+				return err
+			}
+			if done {
+				count++
+			}
 		}
+		return nil
+	}); err != nil {
+		return -1, err
 	}
 	return count, nil
 }
@@ -342,16 +367,14 @@ func (u unspentRepositoryImpl) unlockUnspent(
 	ctx context.Context,
 	key domain.UnspentKey,
 ) (bool, error) {
-	unspent, err := u.getUnspent(ctx, key)
+	// the lock must be released even if the unspent is not (yet) in the store,
+	// which is in-memory and reloaded at startup, while locks are persisted.
+	tradeID, err := u.getLock(ctx, key)
 	if err != nil {
 		return false, err
 	}
 
-	if unspent == nil {
-		return false, nil
-	}
-
-	if !unspent.IsLocked() {
+	if tradeID == nil {
 		return false, nil
 	}
 
diff --git a/internal/infrastructure/storage/db/badger/vault_repository_impl.go b/internal/infrastructure/storage/db/badger/vault_repository_impl.go
index 39611a4..0e0e71b 100644
--- a/internal/infrastructure/storage/db/badger/vault_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/vault_repository_impl.go
@@ -37,20 +37,22 @@ func (v vaultRepositoryImpl) UpdateVault(
 	ctx context.Context,
 	updateFn func(v *domain.Vault) (*domain.Vault, error),
 ) error {
-	vault, err := v.getVault(ctx)
-	if err != nil {
-		return err
-	}
-	if vault == nil {
-		return ErrVaultNotFound
-	}
+	return runAtomic(ctx, v.store, "tx", func(ctx context.Context) error {
+		vault, err := v.getVault(ctx)
+		if err != nil {
+			return err
+		}
+		if vault == nil {
+			return ErrVaultNotFound
+		}
 
-	updatedVault, err := updateFn(vault)
-	if err != nil {
-		return err
-	}
+		updatedVault, err := updateFn(vault)
+		if err != nil {
+			return err
+		}
 
-	return v.updateVault(ctx, *updatedVault)
+		return v.updateVault(ctx, *updatedVault)
+	})
 }
 
 func (v vaultRepositoryImpl) GetAccountByIndex(
@@ -170,21 +172,25 @@ func (v vaultRepositoryImpl) getOrCreateVault(
 	passphrase string,
 	net *network.Network,
 ) (*domain.Vault, error) {
-	vault, err := v.getVault(ctx)
-	if err != nil {
-		return nil, err
-	}
-
-	if vault == nil {
-		vault, err = domain.NewVault(mnemonic, passphrase, net)
+	var vault *domain.Vault
+	if err := runAtomic(ctx, v.store, "tx", func(ctx context.Context) error {
+		var err error
+		vault, err = v.getVault(ctx)
 		if err != nil {
-			return nil, err
+			return err
 		}
 
-		err = v.insertVault(ctx, *vault)
-		if err != nil {
-			return nil, err
+		if vault == nil {
+			vault, err = domain.NewVault(mnemonic, passphrase, net)
+			if err != nil {
+				return err
+			}
+
+			return v.insertVault(ctx, *vault)
 		}
+		return nil
+	}); err != nil {
+		return nil, err
 	}
 
 	return vault, nil
-- 
2.43.0


From 7a6a3c77e2f27696e0704393900294b0a44c931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:02 +0000
Subject: [PATCH 02/36] fix: accept only the signed tx of the swap accept as
 completion of a trade

A trade could be completed with any valid transaction, even if failed, and
completing an expired one succeeded. Proposals with null amounts panicked.
---
 internal/core/domain/trade_model.go   | 39 +++++++++++++++++++++++++--
 internal/core/domain/trade_service.go | 10 ++++++-
 2 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/internal/core/domain/trade_model.go b/internal/core/domain/trade_model.go
index 0487e38..7288286 100644
--- a/internal/core/domain/trade_model.go
+++ b/internal/core/domain/trade_model.go
@@ -2,6 +2,7 @@ package domain
 
 import (
 	"encoding/hex"
+	"errors"
 	"reflect"
 
 	"github.com/google/uuid"
@@ -9,6 +10,8 @@ import (
 	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
 	"github.com/tdex-network/tdex-daemon/pkg/wallet"
 	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
+	"github.com/vulpemventures/go-elements/pset"
+	"github.com/vulpemventures/go-elements/transaction"
 	"google.golang.org/protobuf/proto"
 )
 
@@ -140,17 +143,49 @@ func (p swapParser) SerializeComplete(accMsg []byte, tx string) (string, []byte,
 
 	// If the tx is not in hex format, let's make sure that the pset can be
 	// finalized  and the final raw transaction extracted.
+	txHex := tx
 	if _, err := hex.DecodeString(tx); err != nil {
-		if _, _, err := wallet.FinalizeAndExtractTransaction(wallet.FinalizeAndExtractTransactionOpts{
+		txHex, _, err = wallet.FinalizeAndExtractTransaction(wallet.FinalizeAndExtractTransactionOpts{
 			PsetBase64: tx,
-		}); err != nil {
+		})
+		if err != nil {
 			return "", nil, &SwapError{err, int(pkgswap.ErrCodeFailedToComplete)}
 		}
 	}
 
+	// The final transaction must be the one of the swap accept message, signed
+	// by both parties.
+	if err := p.checkIsAcceptedTx(accMsg, txHex); err != nil {
+		return "", nil, &SwapError{err, int(pkgswap.ErrCodeFailedToComplete)}
+	}
+
 	return id, msg, nil
 }
 
+func (p swapParser) checkIsAcceptedTx(accMsg []byte, txHex string) error {
+	swapAccept, err := p.DeserializeAccept(accMsg)
+	if err != nil {
+		return err
+	}
+	acceptedPset, err := pset.NewPsetFromBase64(swapAccept.GetTransaction())
+	if err != nil {
+		return err
+	}
+	tx, err := transaction.NewTxFromHex(txHex)
+	if err != nil {
+		return err
+	}
+	if tx.TxHash() != acceptedPset.UnsignedTx.TxHash() {
+		return errors.New("transaction does not match the one of the swap accept")
+	}
+	for _, in := range tx.Inputs {
+		if len(in.Witness) <= 0 && len(in.Script) <= 0 {
+			return errors.New("transaction is missing some signatures")
+		}
+	}
+	return nil
+}
+
 func (p swapParser) SerializeFail(id string, errCode int, errMsg string) (string, []byte) {
 	id, msg, _ := pkgswap.Fail(pkgswap.FailOpts{
 		MessageID:  id,
diff --git a/internal/core/domain/trade_service.go b/internal/core/domain/trade_service.go
index 4a488a0..72c2388 100644
--- a/internal/core/domain/trade_service.go
+++ b/internal/core/domain/trade_service.go
@@ -104,11 +104,15 @@ type CompleteResult struct {
 // be called before the trade expires, otherwise it won't be possible to
 // actually complete an accepted trade.
 func (t *Trade) Complete(tx string) (*CompleteResult, error) {
+	if t.Status.Code == Expired {
+		return nil, ErrTradeExpired
+	}
+
 	if t.Status.Code >= Completed {
 		return &CompleteResult{OK: true, TxHex: t.TxHex, TxID: t.TxID}, nil
 	}
 
-	if !t.IsAccepted() {
+	if !t.IsAccepted() || t.IsRejected() {
 		return nil, ErrTradeMustBeAccepted
 	}
 
@@ -295,6 +299,10 @@ func calculateMarketPrices(
 	swapRequest SwapRequest,
 	marketQuoteAsset string,
 ) (price Prices) {
+	if swapRequest.GetAmountP() == 0 || swapRequest.GetAmountR() == 0 {
+		return
+	}
+
 	pricePR := decimal.NewFromInt(int64(swapRequest.GetAmountP())).Div(
 		decimal.NewFromInt(int64(swapRequest.GetAmountR())),
 	).Truncate(8)
-- 
2.43.0


From af0bea8e9a143241c61de3e67369fdf4464698e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:02 +0000
Subject: [PATCH 03/36] fix: persist utxo, vault and trade changes atomically
 and before replying

- select, lock and persist the unspents, addresses and status of a trade in one
  step, and serialize the selection of unspents
- serialize completion, failure and expiration of a trade, and resume them at
  restart
- never overwrite vault and market with stale copies
- confirm and spend the unspents of all accounts for any confirmed tx, and
  reconcile those already known when reloading the utxo set
---
 .../core/application/blockchain_listener.go   |  85 +--
 internal/core/application/errors.go           |   5 +
 internal/core/application/operator_service.go | 334 +++++-----
 internal/core/application/trade_service.go    | 611 ++++++++++++------
 internal/core/application/types.go            |   7 +-
 internal/core/application/wallet_service.go   | 108 ++--
 .../db/badger/trade_repository_impl.go        |   2 +-
 7 files changed, 718 insertions(+), 434 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index 3ab7652..326c837 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -165,23 +165,30 @@ func (b *blockchainListener) listenToEventChannel() {
 			e := event.(crawler.TransactionEvent)
 			ctx := context.Background()
 
+			// the tx is not necessarily related to a trade, it might be any one
+			// including unconfirmed unspents.
 			trade, err := b.repoManager.TradeRepository().GetTradeByTxID(ctx, e.TxID)
 			if err != nil {
-				log.Warnf("unable to find trade with id %s: %v", e.TxID, err)
+				log.Warnf("unable to find trade with tx id %s: %v", e.TxID, err)
 				break
 			}
 
-			if err := b.settleTrade(&trade.ID, e); err != nil {
-				log.Warnf("trying to settle trade with id %s: %v", trade.ID, err)
-				break
+			if trade != nil {
+				if err := b.settleTrade(&trade.ID, e); err != nil {
+					log.Warnf("trying to settle trade with id %s: %v", trade.ID, err)
+					if err != domain.ErrTradeMustBeCompletedOrAccepted {
+						break
+					}
+					trade = nil
+				}
 			}
-			if err := b.confirmOrAddUnspents(e.TxHex, e.TxID, trade.MarketQuoteAsset); err != nil {
+			if err := b.confirmOrAddUnspents(e.TxHex); err != nil {
 				log.Warnf("trying to confirm or add unspents: %v", err)
 				break
 			}
 
 			// Publish message for topic TradeSettled to pubsub service.
-			if b.pubsubSvc != nil {
+			if trade != nil && b.pubsubSvc != nil {
 				go func() {
 					ctx := context.Background()
 					mkt, mktAccount, err := b.repoManager.MarketRepository().GetMarketByAsset(
@@ -191,6 +198,10 @@ func (b *blockchainListener) listenToEventChannel() {
 						log.WithError(err).Warn("an error occured while retrieving market")
 						return
 					}
+					if mkt == nil {
+						log.Warn("unable to find market of settled trade")
+						return
+					}
 
 					info, err := b.repoManager.VaultRepository().GetAllDerivedAddressesInfoForAccount(
 						ctx, mktAccount,
@@ -255,16 +266,15 @@ func (b *blockchainListener) listenToEventChannel() {
 }
 
 func (b *blockchainListener) startPendingObservables() {
-	if len(b.pendingObservables) <= 0 {
-		return
-	}
+	b.mutex.Lock()
+	pendingObservables := b.pendingObservables
+	b.pendingObservables = nil
+	b.mutex.Unlock()
 
-	for _, observable := range b.pendingObservables {
+	for _, observable := range pendingObservables {
 		b.crawlerSvc.AddObservable(observable)
 		time.Sleep(200 * time.Millisecond)
 	}
-
-	b.pendingObservables = nil
 }
 
 func (b *blockchainListener) settleTrade(tradeID *uuid.UUID, event crawler.TransactionEvent) error {
@@ -290,58 +300,31 @@ func (b *blockchainListener) settleTrade(tradeID *uuid.UUID, event crawler.Trans
 	return nil
 }
 
-func (b *blockchainListener) confirmOrAddUnspents(
-	txHex string,
-	txID string,
-	mktAsset string,
-) error {
-	ctx := context.Background()
-	_, accountIndex, err := b.repoManager.MarketRepository().GetMarketByAsset(ctx, mktAsset)
-	if err != nil {
-		return err
-	}
-
+// confirmOrAddUnspents updates the utxo set with a confirmed tx by making sure
+// that its outputs are all there and confirmed, and its inputs are spent.
+func (b *blockchainListener) confirmOrAddUnspents(txHex string) error {
 	unspentsToAdd, unspentsToSpend, err := extractUnspentsFromTx(
 		b.repoManager.VaultRepository(),
 		b.network,
 		txHex,
-		accountIndex,
 	)
 	if err != nil {
 		return err
 	}
 
-	uLen := len(unspentsToAdd)
-	unspentAddresses := make([]string, uLen, uLen)
-	for i, u := range unspentsToAdd {
-		unspentAddresses[i] = u.Address
+	for i := range unspentsToAdd {
+		unspentsToAdd[i].Confirmed = true
 	}
-
-	u, err := b.repoManager.UnspentRepository().GetAllUnspentsForAddresses(ctx, unspentAddresses)
+	count, err := addOrConfirmUnspents(b.repoManager.UnspentRepository(), unspentsToAdd)
 	if err != nil {
 		return err
 	}
-	if len(u) > 0 {
-		unspentKeys := make([]domain.UnspentKey, uLen, uLen)
-		for i, u := range unspentsToAdd {
-			unspentKeys[i] = u.Key()
-		}
-		count, err := b.repoManager.UnspentRepository().ConfirmUnspents(ctx, unspentKeys)
-		if err != nil {
-			return err
-		}
-		log.Debugf("confirmed %d unspents", count)
-		return nil
-	}
-
-	go func() {
-		// these unspents must be inserted already confirmed.
-		for i := range unspentsToAdd {
-			unspentsToAdd[i].Confirmed = true
-		}
-		addUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToAdd)
-		spendUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToSpend)
-	}()
+	log.Debugf("confirmed %d unspents", count)
 
+	count, err = spendUnspents(b.repoManager.UnspentRepository(), unspentsToSpend)
+	if err != nil {
+		return err
+	}
+	log.Debugf("spent %d unspents", count)
 	return nil
 }
diff --git a/internal/core/application/errors.go b/internal/core/application/errors.go
index a6defee..2b55207 100644
--- a/internal/core/application/errors.go
+++ b/internal/core/application/errors.go
@@ -45,4 +45,9 @@ var (
 	ErrWithdrawQuoteAmountTooBig = errors.New(
 		"quote amount to withdraw is too big",
 	)
+
+	// ErrMarketAlreadyExist ...
+	ErrMarketAlreadyExist = errors.New("a market with the same asset pair already exists")
+
+	errTradeRejected = errors.New("trade rejected")
 )
diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index e6e9192..e3ea5df 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -167,25 +167,80 @@ func (o *operatorService) DepositMarket(
 		accountIndex = accountOfExistentMarket
 	} else {
 		// Second case: base and quote asset are empty. this means we need to create a new market.
-		_, latestAccountIndex, err := o.repoManager.MarketRepository().GetLatestMarket(
-			ctx,
-		)
-		if err != nil {
-			return nil, err
-		}
-
-		nextAccountIndex := latestAccountIndex + 1
-		accountIndex = nextAccountIndex
+		// Its account is chosen when persisting the changes.
+		accountIndex = -1
 	}
 	if numOfAddresses == 0 {
 		numOfAddresses = 1
 	}
 
-	vault, err := o.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
+	res, err := o.repoManager.RunTransaction(ctx, false, func(ctx context.Context) (interface{}, error) {
+		var list []AddressAndBlindingKey
+		if err := o.repoManager.VaultRepository().UpdateVault(
+			ctx,
+			func(vault *domain.Vault) (*domain.Vault, error) {
+				marketAccount := accountIndex
+				if marketAccount < 0 {
+					nextAccount, err := o.nextMarketAccount(ctx, vault)
+					if err != nil {
+						return nil, err
+					}
+					marketAccount = nextAccount
+				}
+
+				var err error
+				list, err = deriveExternalAddresses(vault, marketAccount, numOfAddresses)
+				if err != nil {
+					return nil, err
+				}
+
+				// this makes sure that the market is created if it needs to. Otherwise,
+				// this does not commit any change to the marekt repo.
+				if _, err := o.repoManager.MarketRepository().GetOrCreateMarket(
+					ctx,
+					&domain.Market{
+						AccountIndex: marketAccount,
+						Fee:          o.marketFee,
+					},
+				); err != nil {
+					return nil, err
+				}
+				return vault, nil
+			},
+		); err != nil {
+			return nil, err
+		}
+		return list, nil
+	})
 	if err != nil {
 		return nil, err
 	}
 
+	return res.([]AddressAndBlindingKey), nil
+}
+
+// nextMarketAccount returns the first account that has never been used by any
+// market, including those eventually dropped.
+func (o *operatorService) nextMarketAccount(
+	ctx context.Context,
+	vault *domain.Vault,
+) (int, error) {
+	_, latestAccountIndex, err := o.repoManager.MarketRepository().GetLatestMarket(ctx)
+	if err != nil {
+		return -1, err
+	}
+	for accountIndex := range vault.Accounts {
+		if accountIndex > latestAccountIndex {
+			latestAccountIndex = accountIndex
+		}
+	}
+	return latestAccountIndex + 1, nil
+}
+
+func deriveExternalAddresses(
+	vault *domain.Vault,
+	accountIndex, numOfAddresses int,
+) ([]AddressAndBlindingKey, error) {
 	list := make([]AddressAndBlindingKey, numOfAddresses, numOfAddresses)
 	for i := 0; i < numOfAddresses; i++ {
 		info, err := vault.DeriveNextExternalAddressForAccount(accountIndex)
@@ -197,35 +252,6 @@ func (o *operatorService) DepositMarket(
 			BlindingKey: hex.EncodeToString(info.BlindingKey),
 		}
 	}
-
-	go func() {
-		if _, err := o.repoManager.RunTransaction(ctx, false, func(ctx context.Context) (interface{}, error) {
-			// this makes sure that the market is created if it needs to. Otherwise,
-			// this does not commit any change to the marekt repo.
-			if _, err := o.repoManager.MarketRepository().GetOrCreateMarket(
-				ctx,
-				&domain.Market{
-					AccountIndex: accountIndex,
-					Fee:          o.marketFee,
-				},
-			); err != nil {
-				return nil, err
-			}
-
-			if err := o.repoManager.VaultRepository().UpdateVault(
-				ctx,
-				func(_ *domain.Vault) (*domain.Vault, error) {
-					return vault, nil
-				}); err != nil {
-				return nil, err
-			}
-
-			return nil, nil
-		}); err != nil {
-			log.WithError(err).Warn("unable to persist changes")
-		}
-	}()
-
 	return list, nil
 }
 
@@ -237,35 +263,21 @@ func (o *operatorService) DepositFeeAccount(
 		numOfAddresses = 1
 	}
 
-	vault, err := o.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
-	if err != nil {
+	var list []AddressAndBlindingKey
+	if err := o.repoManager.VaultRepository().UpdateVault(
+		ctx,
+		func(vault *domain.Vault) (*domain.Vault, error) {
+			var err error
+			list, err = deriveExternalAddresses(vault, domain.FeeAccount, numOfAddresses)
+			if err != nil {
+				return nil, err
+			}
+			return vault, nil
+		},
+	); err != nil {
 		return nil, err
 	}
 
-	list := make([]AddressAndBlindingKey, numOfAddresses, numOfAddresses)
-	for i := 0; i < numOfAddresses; i++ {
-		info, err := vault.DeriveNextExternalAddressForAccount(domain.FeeAccount)
-		if err != nil {
-			return nil, err
-		}
-
-		list[i] = AddressAndBlindingKey{
-			Address:     info.Address,
-			BlindingKey: hex.EncodeToString(info.BlindingKey),
-		}
-	}
-
-	go func() {
-		if err := o.repoManager.VaultRepository().UpdateVault(
-			ctx,
-			func(_ *domain.Vault) (*domain.Vault, error) {
-				return vault, nil
-			},
-		); err != nil {
-			log.WithError(err).Warn("unable to update vault")
-		}
-	}()
-
 	return list, nil
 }
 
@@ -371,7 +383,7 @@ func (o *operatorService) UpdateMarketPercentageFee(
 		return nil, ErrMarketNotExist
 	}
 
-	mkt, accountIndex, err := o.repoManager.MarketRepository().GetMarketByAsset(
+	_, accountIndex, err := o.repoManager.MarketRepository().GetMarketByAsset(
 		ctx,
 		req.QuoteAsset,
 	)
@@ -382,15 +394,16 @@ func (o *operatorService) UpdateMarketPercentageFee(
 		return nil, ErrMarketNotExist
 	}
 
-	if err := mkt.ChangeFeeBasisPoint(req.BasisPoint); err != nil {
-		return nil, err
-	}
-
+	var mkt *domain.Market
 	if err := o.repoManager.MarketRepository().UpdateMarket(
 		ctx,
 		accountIndex,
-		func(_ *domain.Market) (*domain.Market, error) {
-			return mkt, nil
+		func(m *domain.Market) (*domain.Market, error) {
+			if err := m.ChangeFeeBasisPoint(req.BasisPoint); err != nil {
+				return nil, err
+			}
+			mkt = m
+			return m, nil
 		},
 	); err != nil {
 		return nil, err
@@ -427,7 +440,7 @@ func (o *operatorService) UpdateMarketFixedFee(
 		return nil, ErrMarketNotExist
 	}
 
-	mkt, accountIndex, err := o.repoManager.MarketRepository().GetMarketByAsset(
+	_, accountIndex, err := o.repoManager.MarketRepository().GetMarketByAsset(
 		ctx,
 		req.QuoteAsset,
 	)
@@ -438,15 +451,16 @@ func (o *operatorService) UpdateMarketFixedFee(
 		return nil, ErrMarketNotExist
 	}
 
-	if err := mkt.ChangeFixedFee(req.FixedBaseFee, req.FixedQuoteFee); err != nil {
-		return nil, err
-	}
-
+	var mkt *domain.Market
 	if err := o.repoManager.MarketRepository().UpdateMarket(
 		ctx,
 		accountIndex,
-		func(_ *domain.Market) (*domain.Market, error) {
-			return mkt, nil
+		func(m *domain.Market) (*domain.Market, error) {
+			if err := m.ChangeFixedFee(req.FixedBaseFee, req.FixedQuoteFee); err != nil {
+				return nil, err
+			}
+			mkt = m
+			return m, nil
 		},
 	); err != nil {
 		return nil, err
@@ -710,6 +724,10 @@ func (o *operatorService) WithdrawMarketFunds(
 		return nil, domain.ErrMarketInvalidBaseAsset
 	}
 
+	selectionLock := unspentsSelectionLock(o.repoManager)
+	selectionLock.Lock()
+	defer selectionLock.Unlock()
+
 	market, accountIndex, err := o.repoManager.MarketRepository().GetMarketByAsset(
 		ctx,
 		req.QuoteAsset,
@@ -791,48 +809,58 @@ func (o *operatorService) WithdrawMarketFunds(
 		return nil, err
 	}
 
-	marketAccount, err := vault.AccountByIndex(market.AccountIndex)
-	if err != nil {
-		return nil, err
-	}
-	feeAccount, err := vault.AccountByIndex(domain.FeeAccount)
-	if err != nil {
-		return nil, err
-	}
+	// the change addresses must be persisted before the tx is broadcasted.
+	var txHex string
+	if err := o.repoManager.VaultRepository().UpdateVault(
+		ctx,
+		func(vault *domain.Vault) (*domain.Vault, error) {
+			marketAccount, err := vault.AccountByIndex(market.AccountIndex)
+			if err != nil {
+				return nil, err
+			}
+			feeAccount, err := vault.AccountByIndex(domain.FeeAccount)
+			if err != nil {
+				return nil, err
+			}
 
-	changePathsByAsset := map[string]string{}
-	feeChangePathByAsset := map[string]string{}
-	for _, asset := range getAssetsOfOutputs(outputs) {
-		info, err := vault.DeriveNextInternalAddressForAccount(accountIndex)
-		if err != nil {
-			return nil, err
-		}
+			changePathsByAsset := map[string]string{}
+			feeChangePathByAsset := map[string]string{}
+			for _, asset := range getAssetsOfOutputs(outputs) {
+				info, err := vault.DeriveNextInternalAddressForAccount(accountIndex)
+				if err != nil {
+					return nil, err
+				}
 
-		derivationPath := marketAccount.DerivationPathByScript[info.Script]
-		changePathsByAsset[asset] = derivationPath
-	}
+				derivationPath := marketAccount.DerivationPathByScript[info.Script]
+				changePathsByAsset[asset] = derivationPath
+			}
 
-	feeInfo, err := vault.DeriveNextInternalAddressForAccount(domain.FeeAccount)
-	if err != nil {
-		return nil, err
-	}
-	feeChangePathByAsset[o.network.AssetID] =
-		feeAccount.DerivationPathByScript[feeInfo.Script]
-
-	txHex, err := sendToMany(sendToManyOpts{
-		mnemonic:              mnemonic,
-		unspents:              marketUnspents,
-		feeUnspents:           feeUnspents,
-		outputs:               outputs,
-		outputsBlindingKeys:   outputsBlindingKeys,
-		changePathsByAsset:    changePathsByAsset,
-		feeChangePathByAsset:  feeChangePathByAsset,
-		inputPathsByScript:    marketAccount.DerivationPathByScript,
-		feeInputPathsByScript: feeAccount.DerivationPathByScript,
-		milliSatPerByte:       int(req.MillisatPerByte),
-		network:               o.network,
-	})
-	if err != nil {
+			feeInfo, err := vault.DeriveNextInternalAddressForAccount(domain.FeeAccount)
+			if err != nil {
+				return nil, err
+			}
+			feeChangePathByAsset[o.network.AssetID] =
+				feeAccount.DerivationPathByScript[feeInfo.Script]
+
+			txHex, err = sendToMany(sendToManyOpts{
+				mnemonic:              mnemonic,
+				unspents:              marketUnspents,
+				feeUnspents:           feeUnspents,
+				outputs:               outputs,
+				outputsBlindingKeys:   outputsBlindingKeys,
+				changePathsByAsset:    changePathsByAsset,
+				feeChangePathByAsset:  feeChangePathByAsset,
+				inputPathsByScript:    marketAccount.DerivationPathByScript,
+				feeInputPathsByScript: feeAccount.DerivationPathByScript,
+				milliSatPerByte:       int(req.MillisatPerByte),
+				network:               o.network,
+			})
+			if err != nil {
+				return nil, err
+			}
+			return vault, nil
+		},
+	); err != nil {
 		return nil, err
 	}
 
@@ -844,21 +872,11 @@ func (o *operatorService) WithdrawMarketFunds(
 		}
 	}
 
-	if err := o.repoManager.VaultRepository().UpdateVault(
-		ctx,
-		func(_ *domain.Vault) (*domain.Vault, error) {
-			return vault, nil
-		},
-	); err != nil {
-		return nil, err
-	}
-
-	go extractUnspentsFromTxAndUpdateUtxoSet(
+	extractUnspentsFromTxAndUpdateUtxoSet(
 		o.repoManager.UnspentRepository(),
 		o.repoManager.VaultRepository(),
 		o.network,
 		txHex,
-		market.AccountIndex,
 	)
 
 	// Publish message for topic AccountWithdraw to pubsub service.
@@ -1157,7 +1175,7 @@ func (o *operatorService) claimDeposit(
 			return err
 		}
 
-		if len(tx.Outputs()) <= v.Index {
+		if v.Index < 0 || len(tx.Outputs()) <= v.Index {
 			return ErrInvalidOutpoint
 		}
 
@@ -1202,16 +1220,18 @@ func (o *operatorService) claimDeposit(
 				log.Infof("funded market with account %d", accountIndex)
 			}
 
-			go func() {
-				addUnspentsAsync(o.repoManager.UnspentRepository(), unspents)
-				if depositType == feeDeposit {
-					if err := o.checkAccountBalance(infoPerAccount[accountIndex]); err != nil {
-						log.Warn(err)
-						return
-					}
-					log.Info("fee account funded. Trades can be served")
+			if _, err := addOrConfirmUnspents(o.repoManager.UnspentRepository(), unspents); err != nil {
+				return err
+			}
+			log.Debugf("added %d unspents", len(unspents))
+
+			if depositType == feeDeposit {
+				if err := o.checkAccountBalance(infoPerAccount[accountIndex]); err != nil {
+					log.Warn(err)
+					return nil
 				}
-			}()
+				log.Info("fee account funded. Trades can be served")
+			}
 
 			return nil
 		}
@@ -1234,17 +1254,35 @@ func (o *operatorService) fundMarket(
 	}
 
 	// Update the market trying to funding attaching the newly found quote asset.
-	return o.repoManager.MarketRepository().UpdateMarket(
+	_, err := o.repoManager.RunTransaction(
 		context.Background(),
-		accountIndex,
-		func(m *domain.Market) (*domain.Market, error) {
-			if err := m.FundMarket(outpoints, o.marketBaseAsset); err != nil {
-				return nil, err
-			}
+		false,
+		func(ctx context.Context) (interface{}, error) {
+			return nil, o.repoManager.MarketRepository().UpdateMarket(
+				ctx,
+				accountIndex,
+				func(m *domain.Market) (*domain.Market, error) {
+					if err := m.FundMarket(outpoints, o.marketBaseAsset); err != nil {
+						return nil, err
+					}
 
-			return m, nil
+					// there can't be more markets with the same pair of assets.
+					existing, existingAccount, err := o.repoManager.MarketRepository().GetMarketByAsset(
+						ctx, m.QuoteAsset,
+					)
+					if err != nil {
+						return nil, err
+					}
+					if existing != nil && existingAccount != accountIndex {
+						return nil, ErrMarketAlreadyExist
+					}
+
+					return m, nil
+				},
+			)
 		},
 	)
+	return err
 }
 
 func (o *operatorService) checkAccountBalance(accountInfo domain.AddressesInfo) error {
@@ -1364,7 +1402,9 @@ func tradeToTradeInfo(
 				QuoteAsset: trade.MarketQuoteAsset,
 			},
 			Fee{
-				BasisPoint: trade.MarketFee,
+				BasisPoint:    trade.MarketFee,
+				FixedBaseFee:  trade.MarketFixedBaseFee,
+				FixedQuoteFee: trade.MarketFixedQuoteFee,
 			},
 		},
 		Price:            Price(trade.MarketPrice),
diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index f912673..457426d 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -5,8 +5,10 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"sync"
 	"time"
 
+	"github.com/google/uuid"
 	"github.com/shopspring/decimal"
 	log "github.com/sirupsen/logrus"
 	"github.com/tdex-network/tdex-daemon/internal/core/domain"
@@ -54,6 +56,9 @@ type tradeService struct {
 	expiryDuration     time.Duration
 	priceSlippage      decimal.Decimal
 	network            *network.Network
+
+	// locks by trade id, they serialize the changes of status of each trade
+	tradeLocks *sync.Map
 }
 
 func NewTradeService(
@@ -65,7 +70,7 @@ func NewTradeService(
 	priceSlippage decimal.Decimal,
 	net *network.Network,
 ) TradeService {
-	return newTradeService(
+	t := newTradeService(
 		repoManager,
 		explorerSvc,
 		bcListener,
@@ -74,6 +79,8 @@ func NewTradeService(
 		priceSlippage,
 		net,
 	)
+	t.resumePendingTrades()
+	return t
 }
 
 func newTradeService(
@@ -93,6 +100,7 @@ func newTradeService(
 		expiryDuration:     expiryDuration,
 		priceSlippage:      priceSlippage,
 		network:            net,
+		tradeLocks:         &sync.Map{},
 	}
 }
 
@@ -276,6 +284,10 @@ func (t *tradeService) TradePropose(
 		return nil, nil, 0, domain.ErrMarketInvalidQuoteAsset
 	}
 
+	if market.BaseAsset != t.marketBaseAsset {
+		return nil, nil, 0, ErrMarketNotExist
+	}
+
 	vault, err := t.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
 	if err != nil {
 		log.Debugf("error while retrieving vault: %s", err)
@@ -286,6 +298,11 @@ func (t *tradeService) TradePropose(
 		return nil, nil, 0, ErrServiceUnavailable
 	}
 
+	// nobody else can select unspents until those for this trade get locked.
+	selectionLock := unspentsSelectionLock(t.repoManager)
+	selectionLock.Lock()
+	defer selectionLock.Unlock()
+
 	mkt, marketAccountIndex, err := t.repoManager.MarketRepository().GetMarketByAsset(
 		ctx,
 		market.QuoteAsset,
@@ -297,6 +314,9 @@ func (t *tradeService) TradePropose(
 	if marketAccountIndex < 0 {
 		return nil, nil, 0, ErrMarketNotExist
 	}
+	if !mkt.IsTradable() {
+		return nil, nil, 0, domain.ErrMarketIsClosed
+	}
 
 	// get all unspents for market account (both as []domain.Unspents and as
 	// []explorer.Utxo)along with private blinding keys and signing derivation
@@ -326,16 +346,6 @@ func (t *tradeService) TradePropose(
 	}
 
 	// parse swap proposal and possibly accept
-	var swapAccept domain.SwapAccept
-	var swapFail domain.SwapFail
-	var swapExpiryTime uint64
-
-	var fillProposalResult *FillProposalResult
-	var outInfo *domain.AddressInfo
-	var changeInfo *domain.AddressInfo
-	var feeChangeInfo *domain.AddressInfo
-	var mnemonic []string
-
 	trade := domain.NewTrade()
 	if ok, _ := trade.Propose(
 		swapRequest,
@@ -345,118 +355,164 @@ func (t *tradeService) TradePropose(
 		mkt.FixedFee.QuoteFee,
 		nil,
 	); !ok {
-		swapFail = trade.SwapFailMessage()
-		goto end
+		return nil, t.rejectTrade(trade), 0, nil
 	}
 
-	if !isValidTradePrice(swapRequest, tradeType, mkt, marketUnspents, t.priceSlippage) {
+	if !isValidTradeDirection(swapRequest, tradeType, mkt) {
 		trade.Fail(
 			swapRequest.GetId(),
 			int(pkgswap.ErrCodeInvalidSwapRequest),
-			"bad pricing",
+			"assets do not match market pair and trade type",
 		)
-		swapFail = trade.SwapFailMessage()
-		goto end
-	}
-
-	// derive output and change address for market, and change address for fee account
-	outInfo, _ = vault.DeriveNextExternalAddressForAccount(marketAccountIndex)
-	changeInfo, _ = vault.DeriveNextInternalAddressForAccount(marketAccountIndex)
-	feeChangeInfo, _ = vault.DeriveNextInternalAddressForAccount(domain.FeeAccount)
-
-	mnemonic, _ = vault.GetMnemonicSafe()
-	fillProposalResult, err = TradeManager.FillProposal(FillProposalOpts{
-		Mnemonic:      mnemonic,
-		SwapRequest:   swapRequest,
-		MarketUtxos:   marketUnspents.ToUtxos(),
-		FeeUtxos:      feeUnspents.ToUtxos(),
-		MarketInfo:    marketInfo,
-		FeeInfo:       feeInfo,
-		OutputInfo:    *outInfo,
-		ChangeInfo:    *changeInfo,
-		FeeChangeInfo: *feeChangeInfo,
-		Network:       t.network,
-	})
-	if err != nil {
+		return nil, t.rejectTrade(trade), 0, nil
+	}
+
+	if !isValidTradePrice(swapRequest, tradeType, mkt, marketUnspents, t.priceSlippage) {
 		trade.Fail(
 			swapRequest.GetId(),
-			int(pkgswap.ErrCodeRejectedSwapRequest),
-			err.Error(),
+			int(pkgswap.ErrCodeInvalidSwapRequest),
+			"bad pricing",
 		)
-		swapFail = trade.SwapFailMessage()
-		goto end
+		return nil, t.rejectTrade(trade), 0, nil
 	}
 
-	if ok, _ := trade.Accept(
-		fillProposalResult.PsetBase64,
-		fillProposalResult.InputBlindingKeys,
-		fillProposalResult.OutputBlindingKeys,
-		uint64(t.expiryDuration.Seconds()),
-	); !ok {
-		swapFail = trade.SwapFailMessage()
-		goto end
+	mnemonic, err := vault.GetMnemonicSafe()
+	if err != nil {
+		log.Debugf("error while retrieving mnemonic: %s", err)
+		return nil, nil, 0, ErrServiceUnavailable
 	}
 
-	swapAccept = trade.SwapAcceptMessage()
-	swapExpiryTime = trade.ExpiryTime
+	// the addresses derived for the trade, the locks on the selected unspents and
+	// the accepted trade itself must all be persisted before replying.
+	proposedTrade := *trade
+	if _, err := t.repoManager.RunTransaction(
+		ctx,
+		false,
+		func(ctx context.Context) (interface{}, error) {
+			*trade = proposedTrade
+
+			// derive output and change address for market, and change address for fee account
+			var outInfo, changeInfo, feeChangeInfo *domain.AddressInfo
+			if err := t.repoManager.VaultRepository().UpdateVault(
+				ctx,
+				func(v *domain.Vault) (*domain.Vault, error) {
+					var err error
+					outInfo, err = v.DeriveNextExternalAddressForAccount(marketAccountIndex)
+					if err != nil {
+						return nil, err
+					}
+					changeInfo, err = v.DeriveNextInternalAddressForAccount(marketAccountIndex)
+					if err != nil {
+						return nil, err
+					}
+					feeChangeInfo, err = v.DeriveNextInternalAddressForAccount(domain.FeeAccount)
+					if err != nil {
+						return nil, err
+					}
+					return v, nil
+				},
+			); err != nil {
+				return nil, err
+			}
 
-end:
-	var selectedUnspentKeys []domain.UnspentKey
+			fillProposalResult, err := TradeManager.FillProposal(FillProposalOpts{
+				Mnemonic:      mnemonic,
+				SwapRequest:   swapRequest,
+				MarketUtxos:   marketUnspents.ToUtxos(),
+				FeeUtxos:      feeUnspents.ToUtxos(),
+				MarketInfo:    marketInfo,
+				FeeInfo:       feeInfo,
+				OutputInfo:    *outInfo,
+				ChangeInfo:    *changeInfo,
+				FeeChangeInfo: *feeChangeInfo,
+				Network:       t.network,
+			})
+			if err != nil {
+				trade.Fail(
+					swapRequest.GetId(),
+					int(pkgswap.ErrCodeRejectedSwapRequest),
+					err.Error(),
+				)
+				return nil, errTradeRejected
+			}
 
-	if swapAccept != nil {
-		log.Infof("trade with id %s accepted", trade.ID)
+			if ok, err := trade.Accept(
+				fillProposalResult.PsetBase64,
+				fillProposalResult.InputBlindingKeys,
+				fillProposalResult.OutputBlindingKeys,
+				uint64(t.expiryDuration.Seconds()),
+			); err != nil {
+				return nil, err
+			} else if !ok {
+				return nil, errTradeRejected
+			}
 
-		selectedUnspentKeys = getUnspentKeys(fillProposalResult.SelectedUnspents)
-		lockedUnspents, _ := t.repoManager.UnspentRepository().LockUnspents(
-			ctx,
-			selectedUnspentKeys,
-			trade.ID,
-		)
-		log.Debugf("locked %d unspents", lockedUnspents)
-
-		// set timer for trade expiration
-		go func() {
-			// admit a tollerance of 1 minute past the expiration time.
-			time.Sleep(t.expiryDuration + time.Minute)
-			t.checkTradeExpiration(trade.TxID, selectedUnspentKeys)
-		}()
-	} else {
-		log.WithField("reason", swapFail.GetFailureMessage()).Infof("trade with id %s rejected", trade.ID)
-	}
-
-	go func() {
-		if _, err := t.repoManager.RunTransaction(
-			context.Background(),
-			false,
-			func(ctx context.Context) (interface{}, error) {
-				if _, err := t.repoManager.TradeRepository().GetOrCreateTrade(ctx, &trade.ID); err != nil {
-					return nil, err
-				}
-				if err := t.repoManager.TradeRepository().UpdateTrade(ctx, &trade.ID, func(_ *domain.Trade) (*domain.Trade, error) {
-					return trade, nil
-				}); err != nil {
-					return nil, err
-				}
-
-				if swapAccept != nil {
-					if err := t.repoManager.VaultRepository().UpdateVault(ctx, func(_ *domain.Vault) (*domain.Vault, error) {
-						return vault, nil
-					}); err != nil {
-						return nil, err
-					}
-				}
-				return nil, nil
-			},
-		); err != nil {
-			log.WithError(err).Warn("unable to persist changes after trade is accepted")
-		}
+			lockedUnspents, err := t.repoManager.UnspentRepository().LockUnspents(
+				ctx,
+				getUnspentKeys(fillProposalResult.SelectedUnspents),
+				trade.ID,
+			)
+			if err != nil {
+				return nil, err
+			}
+			log.Debugf("locked %d unspents", lockedUnspents)
 
-		if swapAccept != nil {
-			t.blockchainListener.StartObserveTx(trade.TxID)
+			return nil, t.storeTrade(ctx, trade)
+		},
+	); err != nil {
+		if err == errTradeRejected {
+			return nil, t.rejectTrade(trade), 0, nil
 		}
-	}()
+		log.WithError(err).Warn("unable to persist accepted trade")
+		return nil, nil, 0, ErrServiceUnavailable
+	}
+	log.Infof("trade with id %s accepted", trade.ID)
+
+	go t.watchAcceptedTrade(*trade)
+
+	return trade.SwapAcceptMessage(), nil, trade.ExpiryTime, nil
+}
+
+// rejectTrade persists a trade that failed before being accepted, and returns
+// its fail message.
+func (t *tradeService) rejectTrade(trade *domain.Trade) domain.SwapFail {
+	swapFail := trade.SwapFailMessage()
+	log.WithField("reason", swapFail.GetFailureMessage()).Infof("trade with id %s rejected", trade.ID)
+
+	if _, err := t.repoManager.RunTransaction(
+		context.Background(),
+		false,
+		func(ctx context.Context) (interface{}, error) {
+			return nil, t.storeTrade(ctx, trade)
+		},
+	); err != nil {
+		log.WithError(err).Warn("unable to persist rejected trade")
+	}
+	return swapFail
+}
+
+func (t *tradeService) storeTrade(ctx context.Context, trade *domain.Trade) error {
+	if _, err := t.repoManager.TradeRepository().GetOrCreateTrade(ctx, &trade.ID); err != nil {
+		return err
+	}
+	return t.repoManager.TradeRepository().UpdateTrade(
+		ctx,
+		&trade.ID,
+		func(_ *domain.Trade) (*domain.Trade, error) {
+			return trade, nil
+		},
+	)
+}
+
+// watchAcceptedTrade starts observing the blockchain for the tx of the given
+// accepted trade and checks for its expiration as soon as the time comes.
+func (t *tradeService) watchAcceptedTrade(trade domain.Trade) {
+	t.blockchainListener.StartObserveTx(trade.TxID)
 
-	return swapAccept, swapFail, swapExpiryTime, nil
+	// admit a tollerance of 1 minute past the expiration time.
+	expiration := time.Unix(int64(trade.ExpiryTime), 0).Add(time.Minute)
+	time.Sleep(time.Until(expiration))
+	t.checkTradeExpiration(trade.ID)
 }
 
 // TradeComplete is the domain controller for the TradeComplete RPC
@@ -473,6 +529,9 @@ func (t *tradeService) TradeComplete(
 		}
 		return "", swapFailMsg, nil
 	}
+	if swapComplete == nil {
+		return "", nil, errors.New("missing either swap complete or swap fail message")
+	}
 
 	return t.tradeComplete(ctx, *swapComplete)
 }
@@ -481,14 +540,11 @@ func (t *tradeService) tradeComplete(
 	ctx context.Context,
 	swapComplete domain.SwapComplete,
 ) (txID string, swapFail domain.SwapFail, err error) {
-	trade, err := t.repoManager.TradeRepository().GetTradeBySwapAcceptID(ctx, swapComplete.GetAcceptId())
+	trade, unlock, err := t.lockTradeBySwapAcceptID(ctx, swapComplete.GetAcceptId())
 	if err != nil {
 		return
 	}
-	if trade == nil {
-		err = fmt.Errorf("trade with swap id %s not found", swapComplete.GetAcceptId())
-		return
-	}
+	defer unlock()
 
 	tx := swapComplete.GetTransaction()
 
@@ -515,33 +571,30 @@ func (t *tradeService) tradeComplete(
 	txID = res.TxID
 	log.Infof("trade with id %s broadcasted: %s", trade.ID, txID)
 
-	// we make sure that any problem happening at this point
-	// is not influencing the trade therefore we run as goroutine
-	// this method will take care to retry to handle potential
-	// datastore conflicts (if any) at repository level
-	go func() {
-		if err := t.repoManager.TradeRepository().UpdateTrade(
-			ctx,
-			&trade.ID,
-			func(previousTrade *domain.Trade) (*domain.Trade, error) { return trade, nil },
-		); err != nil {
-			log.Error("unable to persist completed trade with id ", trade.ID, " : ", err.Error())
-		}
+	// from now on the trade is completed even if a problem happens while
+	// persisting its new status, since the transaction has been broadcasted.
+	// Once this is confirmed, the trade is settled anyway.
+	if err := t.repoManager.TradeRepository().UpdateTrade(
+		ctx,
+		&trade.ID,
+		func(currentTrade *domain.Trade) (*domain.Trade, error) {
+			if currentTrade.IsSettled() {
+				return currentTrade, nil
+			}
+			return trade, nil
+		},
+	); err != nil {
+		log.Error("unable to persist completed trade with id ", trade.ID, " : ", err.Error())
+	}
 
-		_, accountIndex, _ := t.repoManager.MarketRepository().GetMarketByAsset(
-			ctx,
-			trade.MarketQuoteAsset,
-		)
-		extractUnspentsFromTxAndUpdateUtxoSet(
-			t.repoManager.UnspentRepository(),
-			t.repoManager.VaultRepository(),
-			t.network,
-			res.TxHex,
-			accountIndex,
-		)
-	}()
+	extractUnspentsFromTxAndUpdateUtxoSet(
+		t.repoManager.UnspentRepository(),
+		t.repoManager.VaultRepository(),
+		t.network,
+		res.TxHex,
+	)
 
-	return
+	return txID, nil, nil
 }
 
 func (t *tradeService) tradeFail(
@@ -549,33 +602,79 @@ func (t *tradeService) tradeFail(
 	swapFail domain.SwapFail,
 ) (domain.SwapFail, error) {
 	swapID := swapFail.GetMessageId()
-	trade, err := t.repoManager.TradeRepository().GetTradeBySwapAcceptID(ctx, swapID)
+	trade, unlock, err := t.lockTradeBySwapAcceptID(ctx, swapID)
 	if err != nil {
 		return nil, err
 	}
+	defer unlock()
 
 	tradeID := trade.ID
-	if err := t.repoManager.TradeRepository().UpdateTrade(
+	if _, err := t.repoManager.RunTransaction(
 		ctx,
-		&tradeID,
-		func(trade *domain.Trade) (*domain.Trade, error) {
-			trade.Fail(
-				swapID,
-				int(pkgswap.ErrCodeFailedToComplete),
-				"set failed by counter-party",
-			)
-			return trade, nil
+		false,
+		func(ctx context.Context) (interface{}, error) {
+			if err := t.repoManager.TradeRepository().UpdateTrade(
+				ctx,
+				&tradeID,
+				func(trade *domain.Trade) (*domain.Trade, error) {
+					if !trade.IsAccepted() {
+						return nil, domain.ErrTradeMustBeAccepted
+					}
+					trade.Fail(
+						swapID,
+						int(pkgswap.ErrCodeFailedToComplete),
+						"set failed by counter-party",
+					)
+					return trade, nil
+				},
+			); err != nil {
+				return nil, err
+			}
+			return nil, t.unlockUnspentsForTrade(ctx, trade)
 		},
 	); err != nil {
 		return nil, err
 	}
 
-	go t.unlockUnspentsForTrade(trade)
 	go t.blockchainListener.StopObserveTx(trade.TxID)
 
 	return swapFail, nil
 }
 
+// lockTradeBySwapAcceptID returns the trade identified by the given swap accept
+// id and prevents any concurrent attempt to complete, fail or expire it until
+// the returned function is called.
+func (t *tradeService) lockTradeBySwapAcceptID(
+	ctx context.Context,
+	swapAcceptID string,
+) (*domain.Trade, func(), error) {
+	trade, err := t.repoManager.TradeRepository().GetTradeBySwapAcceptID(ctx, swapAcceptID)
+	if err != nil {
+		return nil, nil, err
+	}
+	if trade == nil {
+		return nil, nil, fmt.Errorf("trade with swap id %s not found", swapAcceptID)
+	}
+
+	unlock := t.lockTrade(trade.ID)
+	// now that nobody else can change it, make sure to use the latest version.
+	trade, err = t.repoManager.TradeRepository().GetTradeBySwapAcceptID(ctx, swapAcceptID)
+	if err == nil && trade == nil {
+		err = fmt.Errorf("trade with swap id %s not found", swapAcceptID)
+	}
+	if err != nil {
+		unlock()
+		return nil, nil, err
+	}
+	return trade, unlock, nil
+}
+
+func (t *tradeService) lockTrade(tradeID uuid.UUID) func() {
+	lock, _ := t.tradeLocks.LoadOrStore(tradeID, &sync.Mutex{})
+	lock.(*sync.Mutex).Lock()
+	return lock.(*sync.Mutex).Unlock
+}
+
 func (t *tradeService) getInfoAndUnspentsForAccount(
 	ctx context.Context,
 	account int,
@@ -597,74 +696,162 @@ func (t *tradeService) getInfoAndUnspentsForAccount(
 	return info, Unspents(unspents), nil
 }
 
-func (t *tradeService) unlockUnspentsForTrade(trade *domain.Trade) {
-	p, _ := pset.NewPsetFromBase64(trade.PsetBase64)
-	keyLen := len(p.Inputs)
-	unspentKeys := make([]domain.UnspentKey, keyLen, keyLen)
+// unlockUnspentsForTrade unlocks those inputs of the tx of the given trade that
+// are locked by it.
+func (t *tradeService) unlockUnspentsForTrade(
+	ctx context.Context,
+	trade *domain.Trade,
+) error {
+	p, err := pset.NewPsetFromBase64(trade.PsetBase64)
+	if err != nil {
+		return err
+	}
 
-	for i, in := range p.UnsignedTx.Inputs {
-		unspentKeys[i] = domain.UnspentKey{
+	unspentKeys := make([]domain.UnspentKey, 0, len(p.Inputs))
+	for _, in := range p.UnsignedTx.Inputs {
+		key := domain.UnspentKey{
 			TxID: bufferutil.TxIDFromBytes(in.Hash),
 			VOut: in.Index,
 		}
+		unspent, err := t.repoManager.UnspentRepository().GetUnspentWithKey(ctx, key)
+		if err != nil {
+			return err
+		}
+		if unspent != nil && unspent.IsLocked() && *unspent.LockedBy != trade.ID {
+			continue
+		}
+		unspentKeys = append(unspentKeys, key)
 	}
 
-	count, err := t.repoManager.UnspentRepository().UnlockUnspents(
-		context.Background(),
-		unspentKeys,
-	)
+	count, err := t.repoManager.UnspentRepository().UnlockUnspents(ctx, unspentKeys)
 	if err != nil {
-		log.Warnf(
-			"unable to unlock unspents for trade with id %s. You must run "+
-				"ReloadUtxo RPC as soon as possible to restore the utxo set of the "+
-				"internal wallet. Error: %v", trade.ID, err,
-		)
+		return err
 	}
 
 	log.Debugf("unlocked %d unspents", count)
+	return nil
 }
 
-func (t *tradeService) checkTradeExpiration(
-	tradeTxID string,
-	selectedUnspentKeys []domain.UnspentKey,
-) {
-	ctx := context.Background()
+// checkTradeExpiration brings an accepted trade to the expired status and
+// unlocks the unspents used as inputs of its tx if this is unknown by the
+// explorer. Any failure is retried until the trade is completed or expired.
+func (t *tradeService) checkTradeExpiration(tradeID uuid.UUID) {
+	for {
+		err := t.expireTrade(context.Background(), tradeID)
+		if err == nil {
+			return
+		}
+		log.WithError(err).Warnf("unable to expire trade with id %s", tradeID)
+		time.Sleep(time.Minute)
+	}
+}
+
+func (t *tradeService) expireTrade(ctx context.Context, tradeID uuid.UUID) error {
+	unlock := t.lockTrade(tradeID)
+	defer unlock()
 
-	// if the trade is expired it's required to unlock the unspents used as input
-	// and to bring the trade to failed status
-	trade, _ := t.repoManager.TradeRepository().GetTradeByTxID(ctx, tradeTxID)
+	trade, err := t.repoManager.TradeRepository().GetOrCreateTrade(ctx, &tradeID)
+	if err != nil {
+		return err
+	}
+	if !trade.IsAccepted() || !trade.IsExpired() {
+		return nil
+	}
 
-	if trade.IsExpired() {
-		t.blockchainListener.StopObserveTx(trade.TxID)
+	// the counter-party might have broadcasted the tx on its own.
+	isBroadcasted, err := t.isTradeTxBroadcasted(trade)
+	if err != nil {
+		return err
+	}
+	if isBroadcasted {
+		return nil
+	}
 
-		count, err := t.repoManager.UnspentRepository().UnlockUnspents(ctx, selectedUnspentKeys)
+	if _, err := t.repoManager.RunTransaction(
+		ctx,
+		false,
+		func(ctx context.Context) (interface{}, error) {
+			if err := t.repoManager.TradeRepository().UpdateTrade(
+				ctx,
+				&tradeID,
+				func(tt *domain.Trade) (*domain.Trade, error) {
+					if !tt.IsAccepted() {
+						return tt, nil
+					}
+					if _, err := tt.Expire(); err != nil {
+						return nil, err
+					}
+					return tt, nil
+				},
+			); err != nil {
+				return nil, err
+			}
+			return nil, t.unlockUnspentsForTrade(ctx, trade)
+		},
+	); err != nil {
+		return err
+	}
+
+	t.blockchainListener.StopObserveTx(trade.TxID)
+	log.Infof("trade with id %s expired", trade.ID)
+	return nil
+}
+
+// isTradeTxBroadcasted returns whether the explorer knows the tx of the given
+// trade by looking for it among those of the addresses owned by the daemon.
+func (t *tradeService) isTradeTxBroadcasted(trade *domain.Trade) (bool, error) {
+	p, err := pset.NewPsetFromBase64(trade.PsetBase64)
+	if err != nil {
+		return false, err
+	}
+	vault, err := t.repoManager.VaultRepository().GetOrCreateVault(
+		context.Background(), nil, "", nil,
+	)
+	if err != nil {
+		return false, err
+	}
+	infoByScript := groupAddressesInfoByScript(vault.AllDerivedAddressesInfo())
+
+	for _, out := range p.UnsignedTx.Outputs {
+		info, ok := infoByScript[hex.EncodeToString(out.Script)]
+		if !ok {
+			continue
+		}
+		txs, err := t.explorerSvc.GetTransactionsForAddress(info.Address, info.BlindingKey)
 		if err != nil {
-			log.WithError(err).Warnf(
-				"trade with id %s has expired but an error occured while "+
-					"unlocking its unspents. You must run ReloadUtxo RPC as soon as "+
-					"possible to restore the utxo set of the internal wallet",
-				trade.ID,
-			)
-			return
+			return false, err
 		}
-		log.Debugf("unlocked %d unspents", count)
-
-		if err := t.repoManager.TradeRepository().UpdateTrade(
-			ctx,
-			&trade.ID,
-			func(tt *domain.Trade) (*domain.Trade, error) {
-				if _, err := tt.Expire(); err != nil {
-					return nil, err
-				}
-				return tt, nil
-			},
-		); err != nil {
-			log.Warnf("unable to persist expiration of trade with id %s", trade.ID)
-			return
+		for _, tx := range txs {
+			if tx.Hash() == trade.TxID {
+				return true, nil
+			}
 		}
-		log.Infof("trade with id %s expired", trade.ID)
+		return false, nil
+	}
+	return false, nil
+}
+
+// resumePendingTrades makes sure that the trades that were not in a final status
+// when the service was stopped are brought to completion.
+func (t *tradeService) resumePendingTrades() {
+	ctx := context.Background()
+	trades, err := t.repoManager.TradeRepository().GetAllTrades(ctx)
+	if err != nil {
+		log.WithError(err).Warn("unable to resume pending trades")
 		return
 	}
+
+	for _, trade := range trades {
+		if trade.IsRejected() {
+			continue
+		}
+		if trade.IsAccepted() {
+			go t.watchAcceptedTrade(*trade)
+		}
+		if trade.IsCompleted() {
+			t.blockchainListener.StartObserveTx(trade.TxID)
+		}
+	}
 }
 
 func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
@@ -713,11 +900,17 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	// swap in order to get the full list of selected inputs
 	selectedUnspents := append(selectedUnspentsForSwap, psetWithFeesResult.SelectedUnspents...)
 
-	inputBlindingData, _, _ := wallet.ExtractBlindingDataFromTx(
+	inputBlindingData, _, err := wallet.ExtractBlindingDataFromTx(
 		opts.SwapRequest.GetTransaction(),
 		opts.SwapRequest.GetInputBlindingKey(),
 		nil,
 	)
+	if err != nil {
+		return nil, fmt.Errorf("failed to unblind inputs: %s", err)
+	}
+	if len(inputBlindingData) <= 0 {
+		return nil, errors.New("missing input blinding keys")
+	}
 
 	// get the indexes of the inputs of the tx to sign
 	existingInputs := len(inputBlindingData)
@@ -732,7 +925,7 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 		}
 	}
 
-	outputBlindingKeys := opts.SwapRequest.GetOutputBlindingKey()
+	outputBlindingKeys := copyBlindingKeys(opts.SwapRequest.GetOutputBlindingKey())
 	outputBlindingKeys[opts.OutputInfo.Script] = opts.OutputInfo.BlindingKey
 	outputBlindingKeys[opts.ChangeInfo.Script] = opts.ChangeInfo.BlindingKey
 	for script, blindKey := range psetWithFeesResult.ChangeOutputsBlindingKeys {
@@ -777,7 +970,7 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	}
 
 	// get blinding private keys for selected inputs
-	inputBlindingKeys := opts.SwapRequest.GetInputBlindingKey()
+	inputBlindingKeys := copyBlindingKeys(opts.SwapRequest.GetInputBlindingKey())
 	for _, info := range selectedInfo {
 		inputBlindingKeys[info.Script] = info.BlindingKey
 	}
@@ -790,6 +983,14 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	}, nil
 }
 
+func copyBlindingKeys(keys map[string][]byte) map[string][]byte {
+	copied := make(map[string][]byte)
+	for script, key := range keys {
+		copied[script] = key
+	}
+	return copied
+}
+
 func getSelectedInfo(allInfo domain.AddressesInfo, utxos []explorer.Utxo) domain.AddressesInfo {
 	contains := func(script string) *domain.AddressInfo {
 		for _, info := range allInfo {
@@ -881,6 +1082,24 @@ func getBalanceByAsset(unspents []domain.Unspent) map[string]uint64 {
 	return balances
 }
 
+// isValidTradeDirection checks that the assets of the swap are those of the
+// market and that they're sent and received according to the trade type.
+func isValidTradeDirection(
+	swapRequest domain.SwapRequest,
+	tradeType int,
+	market *domain.Market,
+) bool {
+	assetP, assetR := swapRequest.GetAssetP(), swapRequest.GetAssetR()
+	switch tradeType {
+	case TradeBuy:
+		return assetP == market.QuoteAsset && assetR == market.BaseAsset
+	case TradeSell:
+		return assetP == market.BaseAsset && assetR == market.QuoteAsset
+	default:
+		return false
+	}
+}
+
 // isValidPrice checks that the amounts of the trade are valid by
 // making a preview of each counter amounts of the swap given the
 // current price of the market.
diff --git a/internal/core/application/types.go b/internal/core/application/types.go
index e31cb5a..5fbe695 100644
--- a/internal/core/application/types.go
+++ b/internal/core/application/types.go
@@ -261,8 +261,11 @@ func (t transactionManager) ExtractUnspents(
 
 	for _, in := range tx.Inputs {
 		// our unspents are native-segiwt only
-		if len(in.Witness) > 0 {
-			pubkey, _ := btcec.ParsePubKey(in.Witness[1], btcec.S256())
+		if len(in.Witness) == 2 {
+			pubkey, err := btcec.ParsePubKey(in.Witness[1], btcec.S256())
+			if err != nil {
+				continue
+			}
 			p := payment.FromPublicKey(pubkey, network, nil)
 
 			script := hex.EncodeToString(p.WitnessScript)
diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 27e69d5..39fb213 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -303,15 +303,6 @@ func (w *walletService) UnlockWallet(
 		return err
 	}
 
-	if err := w.repoManager.VaultRepository().UpdateVault(
-		ctx,
-		func(_ *domain.Vault) (*domain.Vault, error) {
-			return vault, nil
-		},
-	); err != nil {
-		return err
-	}
-
 	if w.blockchainListener.PubSubService() != nil {
 		go func() {
 			// For backward compatibility, check if the pubsub store has been
@@ -478,6 +469,10 @@ func (w *walletService) SendToMany(
 		return nil, err
 	}
 
+	selectionLock := unspentsSelectionLock(w.repoManager)
+	selectionLock.Lock()
+	defer selectionLock.Unlock()
+
 	walletUnspents, err := w.getAllUnspentsForAccount(ctx, domain.WalletAccount, true)
 	if err != nil {
 		return nil, err
@@ -548,28 +543,25 @@ func (w *walletService) SendToMany(
 
 			txHex = _txHex
 
-			if !req.Push {
-				return v, nil
-			}
-
-			txid, err := w.explorerService.BroadcastTransaction(txHex)
-			if err != nil {
-				return nil, err
-			}
-			log.Debugf("wallet account tx broadcasted with id: %s", txid)
-
 			return v, nil
 		},
 	); err != nil {
 		return nil, err
 	}
 
-	go extractUnspentsFromTxAndUpdateUtxoSet(
+	if req.Push {
+		txid, err := w.explorerService.BroadcastTransaction(txHex)
+		if err != nil {
+			return nil, err
+		}
+		log.Debugf("wallet account tx broadcasted with id: %s", txid)
+	}
+
+	extractUnspentsFromTxAndUpdateUtxoSet(
 		w.repoManager.UnspentRepository(),
 		w.repoManager.VaultRepository(),
 		w.network,
 		txHex,
-		domain.FeeAccount,
 	)
 
 	rawTx, _ := hex.DecodeString(txHex)
@@ -919,6 +911,17 @@ func (w *walletService) restoreUnspentsForAddress(
 	chUnspent <- unspentInfo{info: info, unspents: unspents}
 }
 
+// unspentsSelectionLocks holds a lock for each utxo set.
+var unspentsSelectionLocks sync.Map
+
+// unspentsSelectionLock returns the lock to be held by whoever selects unspents
+// from the utxo set of the given repo manager until they are either locked or
+// marked as spent, so that the same unspent can't be selected more than once.
+func unspentsSelectionLock(repoManager ports.RepoManager) *sync.Mutex {
+	lock, _ := unspentsSelectionLocks.LoadOrStore(repoManager, &sync.Mutex{})
+	return lock.(*sync.Mutex)
+}
+
 func parseRequestOutputs(reqOutputs []TxOut) (
 	[]*transaction.TxOutput,
 	[][]byte,
@@ -1215,6 +1218,25 @@ func fetchUnspents(explorerSvc explorer.Service, info domain.AddressesInfo) ([]d
 	return unspents, nil
 }
 
+// addOrConfirmUnspents adds to the utxo set those of the given unspents that are
+// missing, and confirms those that are confirmed.
+func addOrConfirmUnspents(
+	unspentRepo domain.UnspentRepository,
+	unspents []domain.Unspent,
+) (int, error) {
+	if err := addUnspents(unspentRepo, unspents); err != nil {
+		return -1, err
+	}
+
+	confirmedKeys := make([]domain.UnspentKey, 0, len(unspents))
+	for _, u := range unspents {
+		if u.IsConfirmed() {
+			confirmedKeys = append(confirmedKeys, u.Key())
+		}
+	}
+	return unspentRepo.ConfirmUnspents(context.Background(), confirmedKeys)
+}
+
 func addUnspents(unspentRepo domain.UnspentRepository, unspents []domain.Unspent) error {
 	return unspentRepo.AddUnspents(context.Background(), unspents)
 }
@@ -1235,6 +1257,15 @@ func fetchAndAddUnspents(
 		log.Debugf("Restore took: %.2fs", elapsed.Seconds())
 	}()
 
+	// the unspents already known that won't be found by the explorer have been
+	// spent by some tx the daemon is not aware of.
+	knownUnspents, err := unspentRepo.GetAllUnspentsForAddresses(
+		context.Background(), info.Addresses(),
+	)
+	if err != nil {
+		return err
+	}
+
 	unspents, err = fetchUnspents(explorerSvc, info)
 	if err != nil {
 		return err
@@ -1242,8 +1273,24 @@ func fetchAndAddUnspents(
 	if unspents == nil {
 		return nil
 	}
+
 	go startObserveUnconfirmedUnspents(bcListener, unspents)
-	return addUnspents(unspentRepo, unspents)
+	if _, err := addOrConfirmUnspents(unspentRepo, unspents); err != nil {
+		return err
+	}
+
+	isUnspent := make(map[domain.UnspentKey]bool)
+	for _, u := range unspents {
+		isUnspent[u.Key()] = true
+	}
+	spentKeys := make([]domain.UnspentKey, 0)
+	for _, u := range knownUnspents {
+		if !u.IsSpent() && !isUnspent[u.Key()] {
+			spentKeys = append(spentKeys, u.Key())
+		}
+	}
+	_, err = spendUnspents(unspentRepo, spentKeys)
+	return err
 }
 
 func spendUnspents(
@@ -1300,25 +1347,14 @@ func extractUnspentsFromTx(
 	vaultRepo domain.VaultRepository,
 	network *network.Network,
 	txHex string,
-	accountIndex int,
 ) ([]domain.Unspent, []domain.UnspentKey, error) {
 	vault, err := vaultRepo.GetOrCreateVault(context.Background(), nil, "", nil)
 	if err != nil {
 		return nil, nil, err
 	}
 
-	info, err := vault.AllDerivedAddressesInfoForAccount(accountIndex)
-	if err != nil {
-		return nil, nil, err
-	}
-	infoByScript := groupAddressesInfoByScript(info)
-
-	if accountIndex != domain.FeeAccount {
-		info, _ = vault.AllDerivedAddressesInfoForAccount(domain.FeeAccount)
-		for script, in := range groupAddressesInfoByScript(info) {
-			infoByScript[script] = in
-		}
-	}
+	// a tx might involve more than one account, so look for all addresses.
+	infoByScript := groupAddressesInfoByScript(vault.AllDerivedAddressesInfo())
 
 	return TransactionManager.ExtractUnspents(txHex, infoByScript, network)
 }
@@ -1328,13 +1364,11 @@ func extractUnspentsFromTxAndUpdateUtxoSet(
 	vaultRepo domain.VaultRepository,
 	net *network.Network,
 	txHex string,
-	accountIndex int,
 ) {
 	unspentsToAdd, unspentsToSpend, err := extractUnspentsFromTx(
 		vaultRepo,
 		net,
 		txHex,
-		accountIndex,
 	)
 	if err != nil {
 		log.Warnf(
diff --git a/internal/infrastructure/storage/db/badger/trade_repository_impl.go b/internal/infrastructure/storage/db/badger/trade_repository_impl.go
index d92ce47..e4d7325 100644
--- a/internal/infrastructure/storage/db/badger/trade_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/trade_repository_impl.go
@@ -87,7 +87,7 @@ func (t tradeRepositoryImpl) GetTradeByTxID(
 	}
 
 	if len(trades) <= 0 {
-		return nil, ErrTradeNotFound
+		return nil, nil
 	}
 
 	return trades[0], nil
-- 
2.43.0


From 20d493045448d526faec73489afce41acdefe814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 04/36] fix: keep observing after explorer errors and stop the
 crawler safely

---
 pkg/crawler/crawler.go    |  5 +++
 pkg/crawler/observable.go | 77 +++++++++++++++++++++++++++------------
 pkg/crawler/service.go    | 34 +++++++++++------
 3 files changed, 81 insertions(+), 35 deletions(-)

diff --git a/pkg/crawler/crawler.go b/pkg/crawler/crawler.go
index ce7f4a2..212dfbd 100644
--- a/pkg/crawler/crawler.go
+++ b/pkg/crawler/crawler.go
@@ -1,6 +1,8 @@
 package crawler
 
 import (
+	"context"
+
 	"github.com/tdex-network/tdex-daemon/pkg/explorer"
 	"golang.org/x/time/rate"
 )
@@ -12,7 +14,10 @@ type Event interface {
 
 // Observable represent object that can be observe on the blockchain.
 type Observable interface {
+	// Observe must return as soon as possible, without emitting anything else,
+	// once the context is done.
 	Observe(
+		ctx context.Context,
 		explorerSvc explorer.Service,
 		errChan chan error,
 		eventChan chan Event,
diff --git a/pkg/crawler/observable.go b/pkg/crawler/observable.go
index 2add166..ca1ff78 100644
--- a/pkg/crawler/observable.go
+++ b/pkg/crawler/observable.go
@@ -39,6 +39,7 @@ func NewAddressObservable(
 }
 
 func (a *AddressObservable) Observe(
+	ctx context.Context,
 	explorerSvc explorer.Service,
 	errChan chan error,
 	eventChan chan Event,
@@ -50,8 +51,11 @@ func (a *AddressObservable) Observe(
 	}
 
 	observableStatus.Set(Waiting)
-	if err := rateLimiter.Wait(context.Background()); err != nil {
-		errChan <- err
+	// whatever happens the object must be observed again at next tick.
+	defer observableStatus.Set(Processed)
+
+	if err := rateLimiter.Wait(ctx); err != nil {
+		sendError(ctx, errChan, err)
 		return
 	}
 
@@ -59,13 +63,11 @@ func (a *AddressObservable) Observe(
 		return explorerSvc.GetUnspents(a.Address, [][]byte{a.BlindingKey})
 	})
 	if err != nil {
-		errChan <- err
+		sendError(ctx, errChan, err)
 		return
 	}
 	unspents := iUnspents.([]explorer.Utxo)
 
-	observableStatus.Set(Processed)
-
 	var eventType EventType
 	switch a.AccountIndex {
 	case domain.FeeAccount:
@@ -79,7 +81,7 @@ func (a *AddressObservable) Observe(
 		Address:      a.Address,
 		Utxos:        unspents,
 	}
-	eventChan <- event
+	sendEvent(ctx, eventChan, event)
 }
 
 func (a *AddressObservable) Key() string {
@@ -100,6 +102,7 @@ func NewTransactionObservable(txid string) Observable {
 }
 
 func (t *TransactionObservable) Observe(
+	ctx context.Context,
 	explorerSvc explorer.Service,
 	errChan chan error,
 	eventChan chan Event,
@@ -111,8 +114,11 @@ func (t *TransactionObservable) Observe(
 	}
 
 	observableStatus.Set(Waiting)
-	if err := rateLimiter.Wait(context.Background()); err != nil {
-		errChan <- err
+	// whatever happens the object must be observed again at next tick.
+	defer observableStatus.Set(Processed)
+
+	if err := rateLimiter.Wait(ctx); err != nil {
+		sendError(ctx, errChan, err)
 		return
 	}
 
@@ -120,7 +126,7 @@ func (t *TransactionObservable) Observe(
 		return explorerSvc.GetTransactionStatus(t.TxID)
 	})
 	if err != nil {
-		errChan <- err
+		sendError(ctx, errChan, err)
 		return
 	}
 	txStatus := iTxStatus.(map[string]interface{})
@@ -135,8 +141,6 @@ func (t *TransactionObservable) Observe(
 		}
 	}
 
-	observableStatus.Set(Processed)
-
 	var confirmed bool
 	var blockHash string
 	var blockTime float64
@@ -172,13 +176,37 @@ func (t *TransactionObservable) Observe(
 		BlockTime: blockTime,
 	}
 
-	eventChan <- event
+	sendEvent(ctx, eventChan, event)
 }
 
 func (t *TransactionObservable) Key() string {
 	return t.TxID
 }
 
+// sendError sends the given error through the given channel unless the
+// observation is stopped.
+func sendError(ctx context.Context, errChan chan error, err error) {
+	if ctx.Err() != nil {
+		return
+	}
+	select {
+	case errChan <- err:
+	case <-ctx.Done():
+	}
+}
+
+// sendEvent sends the given event through the given channel unless the
+// observation is stopped.
+func sendEvent(ctx context.Context, eventChan chan Event, event Event) {
+	if ctx.Err() != nil {
+		return
+	}
+	select {
+	case eventChan <- event:
+	case <-ctx.Done():
+	}
+}
+
 type Status string
 
 type observableStatus struct {
@@ -207,11 +235,11 @@ func (o *observableStatus) Set(status Status) {
 type observableHandler struct {
 	observable       Observable
 	explorerSvc      explorer.Service
-	wg               *sync.WaitGroup
 	ticker           *time.Ticker
 	eventChan        chan Event
 	errChan          chan error
-	stopChan         chan int
+	ctx              context.Context
+	cancel           context.CancelFunc
 	observableStatus *observableStatus
 	rateLimiter      *rate.Limiter
 }
@@ -219,23 +247,22 @@ type observableHandler struct {
 func newObservableHandler(
 	observable Observable,
 	explorerSvc explorer.Service,
-	wg *sync.WaitGroup,
 	interval time.Duration,
 	eventChan chan Event,
 	errChan chan error,
 	rateLimiter *rate.Limiter,
 ) *observableHandler {
 	ticker := time.NewTicker(interval)
-	stopChan := make(chan int, 1)
+	ctx, cancel := context.WithCancel(context.Background())
 
 	return &observableHandler{
 		observable,
 		explorerSvc,
-		wg,
 		ticker,
 		eventChan,
 		errChan,
-		stopChan,
+		ctx,
+		cancel,
 		newObservableStatus(),
 		rateLimiter,
 	}
@@ -243,12 +270,17 @@ func newObservableHandler(
 
 func (oh *observableHandler) start() {
 	oh.logAction("start")
-	oh.wg.Add(1)
+	defer oh.ticker.Stop()
 	for {
+		// the observation could have been stopped while a tick was pending
+		if oh.ctx.Err() != nil {
+			return
+		}
 		select {
 		case <-oh.ticker.C:
 			if oh.observableStatus.Get() != Waiting {
 				oh.observable.Observe(
+					oh.ctx,
 					oh.explorerSvc,
 					oh.errChan,
 					oh.eventChan,
@@ -256,9 +288,7 @@ func (oh *observableHandler) start() {
 					oh.rateLimiter,
 				)
 			}
-		case <-oh.stopChan:
-			oh.ticker.Stop()
-			close(oh.stopChan)
+		case <-oh.ctx.Done():
 			return
 		}
 	}
@@ -266,8 +296,7 @@ func (oh *observableHandler) start() {
 
 func (oh *observableHandler) stop() {
 	oh.logAction("stop")
-	oh.stopChan <- 1
-	oh.wg.Done()
+	oh.cancel()
 }
 
 func (oh *observableHandler) logAction(action string) {
diff --git a/pkg/crawler/service.go b/pkg/crawler/service.go
index fed4295..8222755 100644
--- a/pkg/crawler/service.go
+++ b/pkg/crawler/service.go
@@ -21,8 +21,9 @@ type blockchainCrawler struct {
 	observables  map[string]*observableHandler
 	errorHandler func(err error)
 	mutex        *sync.RWMutex
-	wg           *sync.WaitGroup
 	rateLimiter  *rate.Limiter
+	stopChan     chan struct{}
+	stopped      bool
 }
 
 // Opts defines the parameters needed for creating a crawler service with NewService method
@@ -52,8 +53,8 @@ func NewService(opts Opts) Service {
 		observables:  map[string]*observableHandler{},
 		errorHandler: opts.ErrorHandler,
 		mutex:        &sync.RWMutex{},
-		wg:           &sync.WaitGroup{},
 		rateLimiter:  rateLimiter,
+		stopChan:     make(chan struct{}),
 	}
 }
 
@@ -61,25 +62,33 @@ func NewService(opts Opts) Service {
 // events/Observable object
 func (bc *blockchainCrawler) Start() {
 	for {
-		err, more := <-bc.errChan
-		if !more {
+		select {
+		case err := <-bc.errChan:
+			go bc.errorHandler(err)
+		case <-bc.stopChan:
 			return
 		}
-		go bc.errorHandler(err)
 	}
 }
 
 // Stop stops crawler
 func (bc *blockchainCrawler) Stop() {
 	bc.mutex.Lock()
-	defer bc.mutex.Unlock()
+	if bc.stopped {
+		bc.mutex.Unlock()
+		return
+	}
+	bc.stopped = true
 	for _, obsHandler := range bc.observables {
-		go obsHandler.stop()
+		obsHandler.stop()
 	}
-	bc.wg.Wait()
+	bc.observables = map[string]*observableHandler{}
+	// the lock can't be held while notifying the listener of the events because
+	// the latter might need it to make room in the queue.
+	bc.mutex.Unlock()
+
+	close(bc.stopChan)
 	bc.eventChan <- CloseEvent{}
-	close(bc.errChan)
-	return
 }
 
 // GetEventChannel returns Event channel which can be used to "listen" to
@@ -96,11 +105,14 @@ func (bc *blockchainCrawler) AddObservable(observable Observable) {
 	bc.mutex.Lock()
 	defer bc.mutex.Unlock()
 
+	if bc.stopped {
+		return
+	}
+
 	if _, ok := bc.observables[observable.Key()]; !ok {
 		obsHandler := newObservableHandler(
 			observable,
 			bc.explorerSvc,
-			bc.wg,
 			bc.interval,
 			bc.eventChan,
 			bc.errChan,
-- 
2.43.0


From 3114c712cdd3b4f85191c2b0ac0c984df50152dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 05/36] fix: build withdrawals and sends that can be blinded by
 the wallet

---
 internal/core/application/operator_service.go |  4 ++
 internal/core/application/wallet_service.go   | 48 +++++++++++++++----
 2 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index e3ea5df..1db61d5 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -804,6 +804,10 @@ func (o *operatorService) WithdrawMarketFunds(
 		return nil, err
 	}
 
+	if len(feeUnspents) <= 0 {
+		return nil, ErrFeeAccountNotFunded
+	}
+
 	mnemonic, err := vault.GetMnemonicSafe()
 	if err != nil {
 		return nil, err
diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 39fb213..920697a 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -20,6 +20,7 @@ import (
 	"github.com/tdex-network/tdex-daemon/pkg/wallet"
 	"github.com/vulpemventures/go-elements/address"
 	"github.com/vulpemventures/go-elements/network"
+	"github.com/vulpemventures/go-elements/pset"
 	"github.com/vulpemventures/go-elements/transaction"
 )
 
@@ -1031,12 +1032,6 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 		return "", err
 	}
 
-	// update the list of output blinding keys with those of the eventual changes
-	outputsBlindingKeys := opts.outputsBlindingKeys
-	for _, v := range updateResult.ChangeOutputsBlindingKeys {
-		outputsBlindingKeys = append(outputsBlindingKeys, v)
-	}
-
 	// add inputs for paying network fees
 	feeUpdateResult, err := w.UpdateTx(wallet.UpdateTxOpts{
 		PsetBase64:         updateResult.PsetBase64,
@@ -1050,14 +1045,47 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 		return "", err
 	}
 
-	// again, add changes' blinding keys to the list of those of the outputs
-	for _, v := range feeUpdateResult.ChangeOutputsBlindingKeys {
-		outputsBlindingKeys = append(outputsBlindingKeys, v)
+	ptx, err := pset.NewPsetFromBase64(feeUpdateResult.PsetBase64)
+	if err != nil {
+		return "", err
+	}
+
+	// update the list of output blinding keys with those of the eventual changes,
+	// in the same order of the outputs
+	outputsBlindingKeys := opts.outputsBlindingKeys
+	for _, out := range ptx.UnsignedTx.Outputs[len(outputsBlindingKeys):] {
+		script := hex.EncodeToString(out.Script)
+		key, ok := updateResult.ChangeOutputsBlindingKeys[script]
+		if !ok {
+			key = feeUpdateResult.ChangeOutputsBlindingKeys[script]
+		}
+		outputsBlindingKeys = append(outputsBlindingKeys, key)
+	}
+
+	// the inputs must be blinded with their data because the proofs required to
+	// unblind them with the keys are not stored in the utxo set
+	selectedUnspents := append(
+		append([]explorer.Utxo{}, updateResult.SelectedUnspents...),
+		feeUpdateResult.SelectedUnspents...,
+	)
+	inputBlindingData := make(map[int]wallet.BlindingData)
+	for i, u := range selectedUnspents {
+		assetBlinder, amountBlinder := u.AssetBlinder(), u.ValueBlinder()
+		if !u.IsConfidential() {
+			assetBlinder, amountBlinder = make([]byte, 32), make([]byte, 32)
+		}
+		inputBlindingData[i] = wallet.BlindingData{
+			Asset:         u.Asset(),
+			Amount:        u.Value(),
+			AssetBlinder:  assetBlinder,
+			AmountBlinder: amountBlinder,
+		}
 	}
 
 	// blind the transaction
-	blindedPset, err := w.BlindTransactionWithKeys(wallet.BlindTransactionWithKeysOpts{
+	blindedPset, err := w.BlindTransactionWithData(wallet.BlindTransactionWithDataOpts{
 		PsetBase64:         feeUpdateResult.PsetBase64,
+		InputBlindingData:  inputBlindingData,
 		OutputBlindingKeys: outputsBlindingKeys,
 	})
 	if err != nil {
-- 
2.43.0


From 16c151c4de78d32e78669eb96f884c11f004c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 06/36] fix: discard the incomplete writes left in the database
 by a crash

---
 internal/infrastructure/storage/db/badger/db_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/infrastructure/storage/db/badger/db_manager.go b/internal/infrastructure/storage/db/badger/db_manager.go
index 2eeefca..bcaeae3 100644
--- a/internal/infrastructure/storage/db/badger/db_manager.go
+++ b/internal/infrastructure/storage/db/badger/db_manager.go
@@ -275,6 +275,9 @@ func createDb(dbDir string, logger badger.Logger) (*badgerhold.Store, error) {
 	} else {
 		opts.ValueLogLoadingMode = options.FileIO
 		opts.Compression = options.ZSTD
+		// a crash can leave an incomplete write at the end of the value log, it must
+		// be discarded or the db can't be opened anymore.
+		opts.Truncate = true
 	}
 
 	db, err := badgerhold.Open(badgerhold.Options{
-- 
2.43.0


From ec122df3f4d5dbdd6328c71f6ab23f79fa4e0c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 07/36] fix: parse the transactions returned by esplora

---
 pkg/explorer/esplora/types.go | 144 ++++++++++++++++++++++++----------
 1 file changed, 104 insertions(+), 40 deletions(-)

diff --git a/pkg/explorer/esplora/types.go b/pkg/explorer/esplora/types.go
index 5dd87ff..e94602d 100644
--- a/pkg/explorer/esplora/types.go
+++ b/pkg/explorer/esplora/types.go
@@ -84,63 +84,127 @@ func (t *tx) Confirmed() bool {
 	return t.TxConfirmed
 }
 
-func parseInput(i interface{}) *transaction.TxInput {
-	m := i.(map[string]interface{})
+// UnmarshalJSON implements the json.Unmarshaler interface for the format used
+// by the electrs REST API.
+func (t *tx) UnmarshalJSON(data []byte) error {
+	var txJSON struct {
+		Hash     string       `json:"txid"`
+		Version  int          `json:"version"`
+		Locktime int          `json:"locktime"`
+		Inputs   []inputJSON  `json:"vin"`
+		Outputs  []outputJSON `json:"vout"`
+		Size     int          `json:"size"`
+		Weight   int          `json:"weight"`
+		Status   status       `json:"status"`
+	}
+	if err := json.Unmarshal(data, &txJSON); err != nil {
+		return err
+	}
+	if len(txJSON.Hash) <= 0 {
+		return fmt.Errorf("missing txid")
+	}
+
+	inputs := make([]*transaction.TxInput, 0, len(txJSON.Inputs))
+	for _, in := range txJSON.Inputs {
+		input, err := in.parse()
+		if err != nil {
+			return err
+		}
+		inputs = append(inputs, input)
+	}
+	outputs := make([]*transaction.TxOutput, 0, len(txJSON.Outputs))
+	for _, out := range txJSON.Outputs {
+		output, err := out.parse()
+		if err != nil {
+			return err
+		}
+		outputs = append(outputs, output)
+	}
 
-	txid := interfaceToBytes(m["txid"])
-	vout := uint32(m["vout"].(float64))
-	in := transaction.NewTxInput(elementsutil.ReverseBytes(txid), vout)
+	*t = tx{
+		TxHash:      txJSON.Hash,
+		TxVersion:   txJSON.Version,
+		TxLocktime:  txJSON.Locktime,
+		TxInputs:    inputs,
+		TxOutputs:   outputs,
+		TxSize:      txJSON.Size,
+		TxWeight:    txJSON.Weight,
+		TxConfirmed: txJSON.Status.Confirmed,
+	}
+	return nil
+}
 
-	in.Script = interfaceToBytes(m["scriptsig"])
+type inputJSON struct {
+	Txid      string   `json:"txid"`
+	Vout      uint32   `json:"vout"`
+	ScriptSig string   `json:"scriptsig"`
+	Witness   []string `json:"witness"`
+	Sequence  uint32   `json:"sequence"`
+	IsPegin   bool     `json:"is_pegin"`
+}
 
-	if m["witness"] != nil {
-		in.Witness = parseWitness(m["witness"])
+func (i inputJSON) parse() (*transaction.TxInput, error) {
+	txid, err := hex.DecodeString(i.Txid)
+	if err != nil {
+		return nil, err
 	}
+	in := transaction.NewTxInput(elementsutil.ReverseBytes(txid), i.Vout)
 
-	in.Sequence = uint32(m["sequence"].(float64))
-	in.IsPegin = m["is_pegin"].(bool)
+	if in.Script, err = hex.DecodeString(i.ScriptSig); err != nil {
+		return nil, err
+	}
+	if len(i.Witness) > 0 {
+		in.Witness = make(transaction.TxWitness, 0, len(i.Witness))
+		for _, w := range i.Witness {
+			wit, err := hex.DecodeString(w)
+			if err != nil {
+				return nil, err
+			}
+			in.Witness = append(in.Witness, wit)
+		}
+	}
+	in.Sequence = i.Sequence
+	in.IsPegin = i.IsPegin
 
 	// TODO: parse issuance
-	return in
+	return in, nil
 }
 
-func parseOutput(i interface{}) *transaction.TxOutput {
-	m := i.(map[string]interface{})
+type outputJSON struct {
+	Script          string  `json:"scriptpubkey"`
+	Asset           string  `json:"asset"`
+	AssetCommitment string  `json:"assetcommitment"`
+	Value           *uint64 `json:"value"`
+	ValueCommitment string  `json:"valuecommitment"`
+}
 
-	asset := make([]byte, 33)
-	if m["asset"] != nil {
-		asset, _ = bufferutil.AssetHashToBytes(m["asset"].(string))
+func (o outputJSON) parse() (*transaction.TxOutput, error) {
+	var asset, value []byte
+	var err error
+	if len(o.Asset) > 0 {
+		asset, err = bufferutil.AssetHashToBytes(o.Asset)
 	} else {
-		asset = interfaceToBytes(m["assetcommitment"])
+		asset, err = hex.DecodeString(o.AssetCommitment)
 	}
-
-	value := make([]byte, 0)
-	if m["value"] != nil {
-		value, _ = bufferutil.ValueToBytes(uint64(m["value"].(float64)))
+	if err != nil {
+		return nil, err
+	}
+	if o.Value != nil {
+		value, err = bufferutil.ValueToBytes(*o.Value)
 	} else {
-		value = interfaceToBytes(m["valuecommitment"])
+		value, err = hex.DecodeString(o.ValueCommitment)
+	}
+	if err != nil {
+		return nil, err
+	}
+	script, err := hex.DecodeString(o.Script)
+	if err != nil {
+		return nil, err
 	}
-	script := interfaceToBytes(m["scriptpubkey"])
 
 	// TODO: parse nonce and proof; these values must be retrieved by parsing the
 	// hex of the transaction like done in getUtxoDetails
-	return transaction.NewTxOutput(asset, value, script)
-}
-
-func interfaceToBytes(i interface{}) []byte {
-	s := i.(string)
-	buf, _ := hex.DecodeString(s)
-	return buf
-}
-
-func parseWitness(i interface{}) transaction.TxWitness {
-	witnesses := i.([]interface{})
-	buf := make(transaction.TxWitness, 0, len(witnesses))
-	for _, wit := range witnesses {
-		b := interfaceToBytes(wit)
-		buf = append(buf, b)
-	}
-	return buf
+	return transaction.NewTxOutput(asset, value, script), nil
 }
 
 /**** UTXO *****/
-- 
2.43.0


From f320869094d522e6305a32dbbb37993bdb72abb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:36 +0000
Subject: [PATCH 08/36] fix: cover the network fees whatever the number of
 inputs

---
 pkg/wallet/transaction.go | 61 ++++++++++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/pkg/wallet/transaction.go b/pkg/wallet/transaction.go
index 328bca4..96a7c3c 100644
--- a/pkg/wallet/transaction.go
+++ b/pkg/wallet/transaction.go
@@ -396,20 +396,24 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(changeAmount - feeAmount)
 				} else {
 					unspents := getRemainingUnspents(opts.Unspents, inputsToAdd)
-					selectedUnspents, change, err := explorer.SelectUnspents(
+					numInputs := len(inputsToAdd)
+					selectedUnspents, change, fees, err := selectUnspentsForFees(
 						unspents,
-						DummyFeeAmount,
 						opts.Network.AssetID,
+						changeAmount,
+						func(numSelected int) uint64 {
+							return calcFeeAmount(
+								ptx, numInputs+numSelected, len(outputsToAdd), opts.MilliSatsPerBytes,
+							)
+						},
 					)
 					if err != nil {
 						return nil, err
 					}
 					inputsToAdd = append(inputsToAdd, selectedUnspents...)
 
-					feeAmount = calcFeeAmount(ptx, len(inputsToAdd), len(outputsToAdd), opts.MilliSatsPerBytes)
-					change += DummyFeeAmount - feeAmount
-					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(changeAmount + change)
-
+					feeAmount = fees
+					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(change)
 				}
 			} else {
 				// In case there's no LBTC change, it's necessary to choose some other
@@ -417,18 +421,22 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 				// inputs to add to the tx and add another output for the eventual change
 				// returned by the coin selection
 				unspents := getRemainingUnspents(opts.Unspents, inputsToAdd)
-				selectedUnspents, change, err := explorer.SelectUnspents(
+				numInputs := len(inputsToAdd)
+				selectedUnspents, change, fees, err := selectUnspentsForFees(
 					unspents,
-					DummyFeeAmount,
 					opts.Network.AssetID,
+					0,
+					func(numSelected int) uint64 {
+						return calcFeeAmount(
+							ptx, numInputs+numSelected, len(outputsToAdd)+1, opts.MilliSatsPerBytes,
+						)
+					},
 				)
 				if err != nil {
 					return nil, err
 				}
 				inputsToAdd = append(inputsToAdd, selectedUnspents...)
-
-				feeAmount = calcFeeAmount(ptx, len(inputsToAdd), len(outputsToAdd)+1, opts.MilliSatsPerBytes)
-				change += DummyFeeAmount - feeAmount
+				feeAmount = fees
 
 				lbtcChangeOutput, _ := newTxOutput(
 					opts.Network.AssetID,
@@ -467,6 +475,37 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 	}, nil
 }
 
+// selectUnspentsForFees selects the unspents required to cover, along with the
+// eventual given amount, the network fees returned by the given function for a
+// number of selected unspents. It returns also the (never null) change and the
+// amount of the fees.
+func selectUnspentsForFees(
+	unspents []explorer.Utxo,
+	asset string,
+	amount uint64,
+	feesFor func(numSelected int) uint64,
+) ([]explorer.Utxo, uint64, uint64, error) {
+	target := DummyFeeAmount
+	for {
+		selectedUnspents, change, err := explorer.SelectUnspents(
+			unspents,
+			target,
+			asset,
+		)
+		if err != nil {
+			return nil, 0, 0, err
+		}
+
+		total := amount + target + change
+		fees := feesFor(len(selectedUnspents))
+		if total > fees {
+			return selectedUnspents, total - fees, fees, nil
+		}
+		// what's selected isn't enough, target is higher than the previous one.
+		target = fees - amount + 1
+	}
+}
+
 // FinalizeAndExtractTransactionOpts is the struct given to FinalizeAndExtractTransaction method
 type FinalizeAndExtractTransactionOpts struct {
 	PsetBase64 string
-- 
2.43.0


From bfd2476b93b0dd8822d4347c69a75584fc3005ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 09/36] fix: make the encrypted store consistent under
 concurrency, errors and crashes

---
 pkg/securestore/bolt/store.go | 232 +++++++++++++++++-----------------
 1 file changed, 117 insertions(+), 115 deletions(-)

diff --git a/pkg/securestore/bolt/store.go b/pkg/securestore/bolt/store.go
index 6a85c2a..17fd046 100644
--- a/pkg/securestore/bolt/store.go
+++ b/pkg/securestore/bolt/store.go
@@ -2,10 +2,8 @@ package boltsecurestore
 
 import (
 	"bytes"
-	"fmt"
 	"os"
 	"path/filepath"
-	"strings"
 	"sync"
 
 	"github.com/btcsuite/btcwallet/snacl"
@@ -67,12 +65,28 @@ func NewSecureStorage(datadir, filename string) (securestore.SecureStorage, erro
 // IsLocked returns whether the store is locked by checking if the encryption
 // key is stored in-memory.
 func (s *boltSecureStorage) IsLocked() bool {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	return s.isLocked()
+}
+
+// isLocked must be called with encKeyMtx held.
+func (s *boltSecureStorage) isLocked() bool {
 	return s.encKey == nil
 }
 
 // Lock eventually locks the store by flushing the in-memory encryption key.
 func (s *boltSecureStorage) Lock() {
-	if !s.IsLocked() {
+	s.encKeyMtx.Lock()
+	defer s.encKeyMtx.Unlock()
+
+	s.lock()
+}
+
+// lock must be called with encKeyMtx held.
+func (s *boltSecureStorage) lock() {
+	if !s.isLocked() {
 		s.encKey.Zero()
 		s.encKey = nil
 	}
@@ -81,8 +95,11 @@ func (s *boltSecureStorage) Lock() {
 // CreateUnlock sets an encryption key if one is not already set, otherwise it
 // checks if the password is correct for the stored encryption key.
 func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
+	s.encKeyMtx.Lock()
+	defer s.encKeyMtx.Unlock()
+
 	// Is the store is already unlocked there's nothing to do here.
-	if !s.IsLocked() {
+	if !s.isLocked() {
 		return nil
 	}
 
@@ -90,10 +107,8 @@ func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
 		return ErrPasswordRequired
 	}
 
-	s.encKeyMtx.Lock()
-	defer s.encKeyMtx.Unlock()
-
-	return kvdb.Update(s.db, func(tx kvdb.RwTx) error {
+	var key *snacl.SecretKey
+	if err := kvdb.Update(s.db, func(tx kvdb.RwTx) error {
 		bucket := tx.ReadWriteBucket(RootKeyBucketName)
 		if bucket == nil {
 			return ErrRootKeyBucketNotFound
@@ -111,7 +126,7 @@ func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
 				return ErrInvalidPassword
 			}
 
-			s.encKey = encKey
+			key = encKey
 			return nil
 		}
 
@@ -127,17 +142,26 @@ func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
 			return err
 		}
 
-		s.encKey = encKey
+		key = encKey
 		return nil
-	}, func() {})
+	}, func() {}); err != nil {
+		return err
+	}
+
+	// The key is used only once it is safely stored.
+	s.encKey = key
+	return nil
 }
 
 // ChangePassword decrypts the store (included the root key) with the old
 // password and then encrypts it again with the new password.
 func (s *boltSecureStorage) ChangePassword(oldPw, newPw []byte) error {
+	s.encKeyMtx.Lock()
+	defer s.encKeyMtx.Unlock()
+
 	// The store must be already unlocked. This ensures that there already is a
 	// key in the DB.
-	if s.IsLocked() {
+	if s.isLocked() {
 		return ErrStoreLocked
 	}
 
@@ -152,9 +176,10 @@ func (s *boltSecureStorage) ChangePassword(oldPw, newPw []byte) error {
 		return err
 	}
 
-	// Check that old password is correct.
-	if err := kvdb.View(s.db, func(tx kvdb.RTx) error {
-		bucket := tx.ReadBucket(RootKeyBucketName)
+	// The data and the encryption key are replaced within one transaction, so
+	// that they always match even if the change is interrupted at any point.
+	if err := kvdb.Update(s.db, func(tx kvdb.RwTx) error {
+		bucket := tx.ReadWriteBucket(RootKeyBucketName)
 		if bucket == nil {
 			return ErrRootKeyBucketNotFound
 		}
@@ -165,42 +190,37 @@ func (s *boltSecureStorage) ChangePassword(oldPw, newPw []byte) error {
 			return ErrEncKeyNotFound
 		}
 
+		// Check that old password is correct.
 		encKeyOld := &snacl.SecretKey{}
 		if err := encKeyOld.Unmarshal(dbKey); err != nil {
 			return err
 		}
-
-		return encKeyOld.DeriveKey(&oldPw)
-	}, func() {}); err != nil {
-		return err
-	}
-
-	// Efficiently decrypt DB with old password and encrypt is again with the
-	// new one.
-	if err := s.updateEncryptedDb(encKeyNew); err != nil {
-		return err
-	}
-
-	// Finally, store the new encryption key parameters in the DB
-	// as well.
-	return kvdb.Update(s.db, func(tx kvdb.RwTx) error {
-		bucket := tx.ReadWriteBucket(RootKeyBucketName)
-		if bucket == nil {
-			return ErrRootKeyBucketNotFound
+		if err := encKeyOld.DeriveKey(&oldPw); err != nil {
+			return err
 		}
 
-		if err := bucket.Put(encryptionKeyID, encKeyNew.Marshal()); err != nil {
+		// Decrypt the DB with the old key and encrypt it again with the new one.
+		if err := s.reencryptBucket(bucket, encKeyNew); err != nil {
 			return err
 		}
 
-		s.encKey = encKeyNew
-		return nil
-	}, func() {})
+		// Finally, store the new encryption key parameters in the DB
+		// as well.
+		return bucket.Put(encryptionKeyID, encKeyNew.Marshal())
+	}, func() {}); err != nil {
+		return err
+	}
+
+	s.encKey = encKeyNew
+	return nil
 }
 
 // CreateBucket creates a nested bucket into the root one.
 func (s *boltSecureStorage) CreateBucket(key []byte) error {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return ErrStoreLocked
 	}
 
@@ -224,7 +244,10 @@ func (s *boltSecureStorage) CreateBucket(key []byte) error {
 // AddToBucket stores the provided data encrypted into the given bucket.
 // If the bucket key is nil, the key/value entry is added to the root one.
 func (s *boltSecureStorage) AddToBucket(bucketKey, key, value []byte) error {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return ErrStoreLocked
 	}
 
@@ -265,7 +288,10 @@ func (s *boltSecureStorage) AddToBucket(bucketKey, key, value []byte) error {
 // GetFromBucket retrieves data for the given key and bucket. If the bucket key
 // is nil, data is retrieved from the root bucket.
 func (s *boltSecureStorage) GetFromBucket(bucketKey, key []byte) ([]byte, error) {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return nil, ErrStoreLocked
 	}
 
@@ -313,7 +339,10 @@ func (s *boltSecureStorage) GetFromBucket(bucketKey, key []byte) ([]byte, error)
 // GetAllFromBucket returns all data stored in the given bucket.
 // If the bucket key is nil
 func (s *boltSecureStorage) GetAllFromBucket(bucketKey []byte) (map[string][]byte, error) {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return nil, ErrStoreLocked
 	}
 
@@ -350,7 +379,10 @@ func (s *boltSecureStorage) GetAllFromBucket(bucketKey []byte) (map[string][]byt
 }
 
 func (s *boltSecureStorage) ListBuckets() ([][]byte, error) {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return nil, ErrStoreLocked
 	}
 
@@ -382,7 +414,7 @@ func (s *boltSecureStorage) Close() error {
 	s.encKeyMtx.Lock()
 	defer s.encKeyMtx.Unlock()
 
-	s.Lock()
+	s.lock()
 
 	return s.db.Close()
 }
@@ -390,7 +422,10 @@ func (s *boltSecureStorage) Close() error {
 // RemoveFromBucket removes the entry identified by the given key for the given
 // bucket. If bucket key is nil, the entry is removed from the root bucket.
 func (s *boltSecureStorage) RemoveFromBucket(bucketKey, key []byte) error {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return ErrStoreLocked
 	}
 
@@ -419,7 +454,10 @@ func (s *boltSecureStorage) RemoveFromBucket(bucketKey, key []byte) error {
 }
 
 func (s *boltSecureStorage) RemoveBucket(key []byte) error {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return ErrStoreLocked
 	}
 
@@ -440,84 +478,48 @@ func (s *boltSecureStorage) RemoveBucket(key []byte) error {
 	}, func() {})
 }
 
-type bucketData struct {
-	bucketKey []byte
-	data      map[string][]byte
-	err       error
-}
-
-func (s *boltSecureStorage) updateEncryptedDb(newKey *snacl.SecretKey) error {
-	buckets, err := s.ListBuckets()
-	if err != nil {
+// reencryptBucket encrypts with the given key all the data of the given bucket
+// and of those nested into it.
+func (s *boltSecureStorage) reencryptBucket(
+	bucket walletdb.ReadWriteBucket, newKey *snacl.SecretKey,
+) error {
+	var bucketKeys [][]byte
+	data := make(map[string][]byte)
+	if err := bucket.ForEach(func(k, v []byte) error {
+		// nil value is used for nested buckets
+		if v == nil {
+			bucketKeys = append(bucketKeys, append([]byte{}, k...))
+			return nil
+		}
+		if bytes.Equal(k, encryptionKeyID) {
+			return nil
+		}
+		value, err := s.encKey.Decrypt(v)
+		if err != nil {
+			return err
+		}
+		data[string(k)] = value
+		return nil
+	}); err != nil {
 		return err
 	}
-	// nil key is used for the top level bucket
-	buckets = append(buckets, nil)
-
-	wg := &sync.WaitGroup{}
-	wg.Add(len(buckets))
-	chData := make(chan bucketData)
-
-	go func() {
-		wg.Wait()
-		close(chData)
-	}()
-
-	for _, bucketKey := range buckets {
-		go s.getAllFromBucket(bucketKey, wg, chData)
-	}
 
-	allBucketData := make(map[string][]byte)
-	for d := range chData {
-		if d.err != nil {
+	for k, v := range data {
+		encryptedValue, err := newKey.Encrypt(v)
+		if err != nil {
 			return err
 		}
-
-		for k, v := range d.data {
-			key := fmt.Sprintf("%s_%s", string(d.bucketKey), k)
-			allBucketData[key] = v
+		if err := bucket.Put([]byte(k), encryptedValue); err != nil {
+			return err
 		}
 	}
 
-	wg = &sync.WaitGroup{}
-	wg.Add(len(allBucketData))
-
-	for k := range allBucketData {
-		k := k
-		v := allBucketData[k]
-		go func() {
-			defer wg.Done()
-			kk := strings.Split(k, "_")
-			bucketKey := []byte(kk[0])
-			key := []byte(kk[1])
-
-			kvdb.Batch(s.db, func(tx kvdb.RwTx) error {
-				bucket := tx.ReadWriteBucket(RootKeyBucketName)
-				if len(bucketKey) > 0 {
-					bucket = bucket.NestedReadWriteBucket(bucketKey)
-				}
-
-				encryptedValue, _ := newKey.Encrypt(v)
-				bucket.Put(key, encryptedValue)
-				return nil
-			})
-		}()
+	for _, key := range bucketKeys {
+		if err := s.reencryptBucket(
+			bucket.NestedReadWriteBucket(key), newKey,
+		); err != nil {
+			return err
+		}
 	}
-
-	wg.Wait()
-
 	return nil
 }
-
-func (s *boltSecureStorage) getAllFromBucket(
-	key []byte, wg *sync.WaitGroup, chData chan bucketData,
-) {
-	defer wg.Done()
-
-	data, err := s.GetAllFromBucket(key)
-	if err != nil {
-		chData <- bucketData{err: err}
-		return
-	}
-	chData <- bucketData{bucketKey: key, data: data}
-}
-- 
2.43.0


From 15c22b7920b2fafd003bfca07c33c2160265054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 10/36] fix: keep the registered webhooks consistent under
 concurrency and errors

---
 .../infrastructure/pubsub/webhook/service.go  | 80 ++++++++++++-------
 1 file changed, 52 insertions(+), 28 deletions(-)

diff --git a/internal/infrastructure/pubsub/webhook/service.go b/internal/infrastructure/pubsub/webhook/service.go
index c3f30d5..78f725a 100644
--- a/internal/infrastructure/pubsub/webhook/service.go
+++ b/internal/infrastructure/pubsub/webhook/service.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"net/http"
+	"sync"
 
 	"github.com/dgrijalva/jwt-go"
 	"github.com/sony/gobreaker"
@@ -18,6 +19,9 @@ type webhookService struct {
 	store      webhookStore
 	httpClient *esplora.Client
 	cb         *gobreaker.CircuitBreaker
+
+	// hooksMtx serializes the updates of the registered webhooks.
+	hooksMtx sync.Mutex
 }
 
 func NewWebhookPubSubService(
@@ -109,6 +113,9 @@ func (ws *webhookService) TopicsByLabel() map[string]ports.Topic {
 // NOTE: The generation of the hook ID can be assumed enough random to infer
 // that if 2 hooks have the same id, then they are the same.
 func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
+	ws.hooksMtx.Lock()
+	defer ws.hooksMtx.Unlock()
+
 	hookID := []byte(hook.ID)
 	hh, err := ws.store.db().GetFromBucket(hooksBucket, hookID)
 	if err != nil {
@@ -122,7 +129,9 @@ func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
 	if err := ws.store.db().AddToBucket(hooksBucket, hookID, hook.Serialize()); err != nil {
 		return "", err
 	}
-	ws.addHookByAction(hook)
+	if err := ws.addHookByAction(hook); err != nil {
+		return "", err
+	}
 	return hook.ID, nil
 }
 
@@ -130,6 +139,9 @@ func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
 // managed by the handler. Nothing is done in case the hook does not actually
 // exist in the handler's store.db().
 func (ws *webhookService) removeWebhook(hookID string) error {
+	ws.hooksMtx.Lock()
+	defer ws.hooksMtx.Unlock()
+
 	buf, err := ws.store.db().GetFromBucket(hooksBucket, []byte(hookID))
 	if err != nil {
 		return err
@@ -138,13 +150,17 @@ func (ws *webhookService) removeWebhook(hookID string) error {
 		return nil
 	}
 
-	if err := ws.store.db().RemoveFromBucket(hooksBucket, []byte(hookID)); err != nil {
+	hook, err := NewWebhookFromBytes(buf)
+	if err != nil {
 		return err
 	}
 
-	hook, _ := NewWebhookFromBytes(buf)
-	ws.removeHookByAction(hook)
-	return nil
+	// The hook is removed from its main bucket last, so that the removal can be
+	// repeated if it gets interrupted.
+	if err := ws.removeHookByAction(hook); err != nil {
+		return err
+	}
+	return ws.store.db().RemoveFromBucket(hooksBucket, []byte(hookID))
 }
 
 func (ws *webhookService) listWebhooksForAction(actionType WebhookAction) []ports.Subscription {
@@ -179,40 +195,45 @@ func (ws *webhookService) invokeWebhooksForAction(actionType WebhookAction, mess
 	return eg.Wait()
 }
 
-func (ws *webhookService) addHookByAction(hook *Webhook) {
+func (ws *webhookService) addHookByAction(hook *Webhook) error {
 	key := []byte{byte(hook.ActionType)}
-	hooks := ws.getSerializedHooks(hook.ActionType)
+	hooks, err := ws.getSerializedHooks(hook.ActionType)
+	if err != nil {
+		return err
+	}
 	hooks = append(hooks, hook.Serialize())
 	updatedHooks := bytes.Join(hooks, separator)
-	ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
+	return ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
 }
 
-func (ws *webhookService) removeHookByAction(hook *Webhook) {
-	rawHooks := ws.getSerializedHooks(hook.ActionType)
+func (ws *webhookService) removeHookByAction(hook *Webhook) error {
+	rawHooks, err := ws.getSerializedHooks(hook.ActionType)
+	if err != nil {
+		return err
+	}
 
-	var index int
-	for i, buf := range rawHooks {
-		hh, _ := NewWebhookFromBytes(buf)
-		if hh.ID == hook.ID {
-			index = i
-			break
+	remainingHooks := make([][]byte, 0, len(rawHooks))
+	for _, buf := range rawHooks {
+		hh, err := NewWebhookFromBytes(buf)
+		if err != nil {
+			return err
+		}
+		if hh.ID != hook.ID {
+			remainingHooks = append(remainingHooks, buf)
 		}
 	}
 
 	key := []byte{byte(hook.ActionType)}
-	rawHooks = append(rawHooks[:index], rawHooks[index+1:]...)
-
-	if len(rawHooks) <= 0 {
-		ws.store.db().RemoveFromBucket(hooksByActionBucket, key)
-		return
+	if len(remainingHooks) <= 0 {
+		return ws.store.db().RemoveFromBucket(hooksByActionBucket, key)
 	}
 
-	updatedHooks := bytes.Join(rawHooks, separator)
-	ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
+	updatedHooks := bytes.Join(remainingHooks, separator)
+	return ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
 }
 
 func (ws *webhookService) getHooksByAction(actionType WebhookAction) []*Webhook {
-	rawHooks := ws.getSerializedHooks(actionType)
+	rawHooks, _ := ws.getSerializedHooks(actionType)
 	hooks := make([]*Webhook, 0, len(rawHooks))
 	for _, buf := range rawHooks {
 		hook, _ := NewWebhookFromBytes(buf)
@@ -221,13 +242,16 @@ func (ws *webhookService) getHooksByAction(actionType WebhookAction) []*Webhook
 	return hooks
 }
 
-func (ws *webhookService) getSerializedHooks(actionType WebhookAction) [][]byte {
+func (ws *webhookService) getSerializedHooks(actionType WebhookAction) ([][]byte, error) {
 	key := []byte{byte(actionType)}
-	hooks, _ := ws.store.db().GetFromBucket(hooksByActionBucket, key)
+	hooks, err := ws.store.db().GetFromBucket(hooksByActionBucket, key)
+	if err != nil {
+		return nil, err
+	}
 	if len(hooks) <= 0 {
-		return nil
+		return nil, nil
 	}
-	return bytes.Split(hooks, separator)
+	return bytes.Split(hooks, separator), nil
 }
 
 func (ws *webhookService) doRequest(hook *Webhook, payload string) error {
-- 
2.43.0


From c4401d87fce52c3abebd078dc10fa6010f36dcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 11/36] fix: select coins without shared state and in linear
 time

---
 pkg/explorer/coinselection.go | 61 +++++++++--------------------------
 1 file changed, 15 insertions(+), 46 deletions(-)

diff --git a/pkg/explorer/coinselection.go b/pkg/explorer/coinselection.go
index da9b4ca..9edf136 100644
--- a/pkg/explorer/coinselection.go
+++ b/pkg/explorer/coinselection.go
@@ -105,56 +105,25 @@ func isIndexOccupied(i int, list []int) bool {
 	return false
 }
 
-var combination = []uint64{}
-
-//getCombination is calculating all combinations for 'size' the elements of src array
-// number of combination formula -> len(src)! / size! * (len(src) - size)!
-func getCombination(src []uint64, size int, offset int) [][]uint64 {
-	result := [][]uint64{}
-	if size == 0 {
-		temp := make([]uint64, len(combination))
-		copy(temp, combination)
-		return append(result, temp)
-	}
-	for i := offset; i <= len(src)-size; i++ {
-		combination = append(combination, src[i])
-		temp := getCombination(src, size-1, i+1)
-		result = append(result, temp...)
-		combination = combination[:len(combination)-1]
-	}
-	return result[:]
-}
-func sum(items []uint64) uint64 {
-	var total uint64
-	for _, v := range items {
-		total += v
-	}
-	return total
-}
-
 //getBestCombination method implement strategy of selecting as less as possible
 //elements from items slice so that sum of elements is equal or greater than
-//target, with 10x ratio
+//target, with 10x ratio. The items are expected in descending order.
 //It uses bellow logic:
-//1. set size = 1
-//2. uses Recursion (getCombination) to get all combinations for size elements in the input Array.
-//3. check each combination if meet the requirements from 0 -> i, if yes, return it (finish)
-//4. if none of combination matches, then size++ and go to Step 2.
+//1. discard those items that exceed by themselves the 10x ratio.
+//2. take the first (greatest) ones until the target is reached: no smaller
+//group of items can cover it, and their sum can't exceed the 10x ratio.
+//3. if the target can't be reached, return the first item which is greater.
 func getBestCombination(items []uint64, target uint64) []uint64 {
-	result := [][]uint64{}
-	for i := 1; i < len(items)+1; i++ {
-		result = append(result, getCombination(items, i, 0)...)
-		for j := 0; j < len(result); j++ {
-			total := sum(result[j])
-			if total < target {
-				continue
-			}
-			if total == target {
-				return result[j]
-			}
-			if total <= target*10 {
-				return result[j]
-			}
+	result := []uint64{}
+	total := uint64(0)
+	for _, v := range items {
+		if v > target*10 {
+			continue
+		}
+		result = append(result, v)
+		total += v
+		if total >= target {
+			return result
 		}
 	}
 
-- 
2.43.0


From 63f79934d3324878ad2f7272718cdbfd678f1639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 12/36] fix: report malformed answers of esplora and leave no
 goroutine behind

---
 pkg/explorer/esplora/transaction.go | 13 +++++--------
 pkg/explorer/esplora/unspents.go    | 18 ++++++++++++++----
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/pkg/explorer/esplora/transaction.go b/pkg/explorer/esplora/transaction.go
index 22fc37c..6571b5b 100644
--- a/pkg/explorer/esplora/transaction.go
+++ b/pkg/explorer/esplora/transaction.go
@@ -141,13 +141,7 @@ func (e *esplora) isTransactionConfirmed(hash string) (bool, error) {
 		return false, err
 	}
 
-	var isConfirmed bool
-	switch confirmed := trxStatus["confirmed"].(type) {
-	case bool:
-		isConfirmed = confirmed
-	}
-
-	return isConfirmed, nil
+	return trxStatus["confirmed"].(bool), nil
 }
 
 func (e *esplora) getTransactionStatus(hash string) (map[string]interface{}, error) {
@@ -169,6 +163,9 @@ func (e *esplora) getTransactionStatus(hash string) (map[string]interface{}, err
 	if err != nil {
 		return nil, err
 	}
+	if _, ok := trxStatus["confirmed"].(bool); !ok {
+		return nil, fmt.Errorf("invalid transaction status")
+	}
 
 	return trxStatus, nil
 }
@@ -185,7 +182,7 @@ func parseTransactions(txList string) ([]explorer.Transaction, error) {
 	}
 
 	txs := make([]explorer.Transaction, 0, len(txInterfaces))
-	chRes := make(chan txResult)
+	chRes := make(chan txResult, len(txInterfaces))
 	wg := &sync.WaitGroup{}
 	wg.Add(len(txInterfaces))
 
diff --git a/pkg/explorer/esplora/unspents.go b/pkg/explorer/esplora/unspents.go
index f8a5082..64640c0 100644
--- a/pkg/explorer/esplora/unspents.go
+++ b/pkg/explorer/esplora/unspents.go
@@ -26,7 +26,9 @@ func (e *esplora) GetUnspentsForAddresses(
 	addresses []string,
 	blindingKeys [][]byte,
 ) ([]explorer.Utxo, error) {
-	chRes := make(chan utxosResult)
+	// the channel has room for all results so that no goroutine is left behind
+	// in case of error.
+	chRes := make(chan utxosResult, len(addresses))
 	utxos := make([]explorer.Utxo, 0)
 	wg := &sync.WaitGroup{}
 	wg.Add(len(addresses))
@@ -78,7 +80,7 @@ func (e *esplora) getUtxos(addr string, blindingKeys [][]byte) ([]explorer.Utxo,
 	}
 
 	utxos := make([]explorer.Utxo, 0, len(witnessOuts))
-	chRes := make(chan utxoResult)
+	chRes := make(chan utxoResult, len(witnessOuts))
 	wg := &sync.WaitGroup{}
 	wg.Add(len(witnessOuts))
 
@@ -106,7 +108,7 @@ func (e *esplora) getUtxos(addr string, blindingKeys [][]byte) ([]explorer.Utxo,
 	}
 
 	if len(utxosToUnblind) > 0 {
-		chRes := make(chan utxoResult)
+		chRes := make(chan utxoResult, len(utxosToUnblind))
 		wg.Add(len(utxosToUnblind))
 
 		go func() {
@@ -161,7 +163,15 @@ func (e *esplora) getUtxoDetails(
 		chRes <- utxoResult{err: err}
 		return
 	}
-	trx, _ := transaction.NewTxFromHex(prevoutTxHex)
+	trx, err := transaction.NewTxFromHex(prevoutTxHex)
+	if err != nil {
+		chRes <- utxoResult{err: fmt.Errorf("invalid prevout tx: %s", err)}
+		return
+	}
+	if int(utxo.Index()) >= len(trx.Outputs) {
+		chRes <- utxoResult{err: fmt.Errorf("prevout index out of range")}
+		return
+	}
 	prevout := trx.Outputs[utxo.Index()]
 
 	if utxo.IsConfidential() {
-- 
2.43.0


From fb3e579c822ce9991087e98ef693500dd29c5c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 13/36] fix: reject negative numbers of addresses and not
 finite prices instead of panicking

---
 internal/interfaces/grpc/handler/operator.go | 21 ++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/internal/interfaces/grpc/handler/operator.go b/internal/interfaces/grpc/handler/operator.go
index 5a4e361..bf4e6aa 100644
--- a/internal/interfaces/grpc/handler/operator.go
+++ b/internal/interfaces/grpc/handler/operator.go
@@ -3,6 +3,7 @@ package grpchandler
 import (
 	"context"
 	"errors"
+	"math"
 	"time"
 
 	"github.com/shopspring/decimal"
@@ -277,6 +278,10 @@ func (o operatorHandler) depositMarket(
 	ctx context.Context,
 	req *pb.DepositMarketRequest,
 ) (*pb.DepositMarketReply, error) {
+	if err := validateNumOfAddresses(req.GetNumOfAddresses()); err != nil {
+		return nil, status.Error(codes.InvalidArgument, err.Error())
+	}
+
 	addressesAndKeys, err := o.operatorSvc.DepositMarket(
 		ctx,
 		req.GetMarket().GetBaseAsset(),
@@ -299,6 +304,10 @@ func (o operatorHandler) depositFeeAccount(
 	ctx context.Context,
 	req *pb.DepositFeeAccountRequest,
 ) (*pb.DepositFeeAccountReply, error) {
+	if err := validateNumOfAddresses(req.GetNumOfAddresses()); err != nil {
+		return nil, status.Error(codes.InvalidArgument, err.Error())
+	}
+
 	deposits, err := o.operatorSvc.DepositFeeAccount(
 		ctx,
 		int(req.GetNumOfAddresses()),
@@ -847,12 +856,24 @@ func validatePrice(price *pbtypes.Price) error {
 	if price == nil {
 		return errors.New("price is null")
 	}
+	for _, p := range []float32{price.GetBasePrice(), price.GetQuotePrice()} {
+		if math.IsNaN(float64(p)) || math.IsInf(float64(p), 0) {
+			return errors.New("base or quote price are not finite numbers")
+		}
+	}
 	if price.GetBasePrice() <= 0 || price.GetQuotePrice() <= 0 {
 		return errors.New("base or quote price are too low")
 	}
 	return nil
 }
 
+func validateNumOfAddresses(num int64) error {
+	if num < 0 {
+		return errors.New("number of addresses must not be a negative number")
+	}
+	return nil
+}
+
 func validateStrategyType(sType pb.StrategyType) error {
 	if domain.StrategyType(sType) < domain.StrategyTypePluggable ||
 		domain.StrategyType(sType) > domain.StrategyTypeUnbalanced {
-- 
2.43.0


From bb75f0a8b2ac0ea1b294a1d0078b9aeab0c24586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 14/36] fix: check the sizes declared by a counterparty's
 transaction before decoding it

---
 pkg/swap/complete.go |   4 +
 pkg/swap/request.go  |   6 ++
 pkg/swap/sizes.go    | 220 +++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 230 insertions(+)
 create mode 100644 pkg/swap/sizes.go

diff --git a/pkg/swap/complete.go b/pkg/swap/complete.go
index 1888bcd..5ffab19 100644
--- a/pkg/swap/complete.go
+++ b/pkg/swap/complete.go
@@ -26,6 +26,10 @@ func Complete(complete CompleteOpts) (string, []byte, error) {
 		return "", nil, fmt.Errorf("unmarshal swap accept %w", err)
 	}
 
+	if err := CheckTransactionSizes(complete.Transaction); err != nil {
+		return "", nil, err
+	}
+
 	if !isHex(complete.Transaction) {
 		ptx, err := pset.NewPsetFromBase64(complete.Transaction)
 		if err != nil {
diff --git a/pkg/swap/request.go b/pkg/swap/request.go
index 9f40cd1..5709bea 100644
--- a/pkg/swap/request.go
+++ b/pkg/swap/request.go
@@ -63,6 +63,9 @@ func checkTxAndBlindKeys(
 	psetBase64 string,
 	inBlindKeys, outBlindKeys map[string][]byte,
 ) error {
+	if err := CheckTransactionSizes(psetBase64); err != nil {
+		return fmt.Errorf("pset is not in a valid base64 format")
+	}
 	ptx, err := pset.NewPsetFromBase64(psetBase64)
 	if err != nil {
 		return fmt.Errorf("pset is not in a valid base64 format")
@@ -78,6 +81,9 @@ func checkTxAndBlindKeys(
 			prevout = in.WitnessUtxo
 		} else {
 			txinIndex := ptx.UnsignedTx.Inputs[i].Index
+			if in.NonWitnessUtxo == nil || int(txinIndex) >= len(in.NonWitnessUtxo.Outputs) {
+				return fmt.Errorf("missing prevout of input %d", i)
+			}
 			prevout = in.NonWitnessUtxo.Outputs[txinIndex]
 		}
 		if checkInputKeys {
diff --git a/pkg/swap/sizes.go b/pkg/swap/sizes.go
new file mode 100644
index 0000000..3105a9e
--- /dev/null
+++ b/pkg/swap/sizes.go
@@ -0,0 +1,220 @@
+package swap
+
+import (
+	"encoding/base64"
+	"encoding/binary"
+	"encoding/hex"
+	"errors"
+)
+
+// ErrTruncatedTransaction is returned if a (partial) transaction declares
+// fields that are longer than the transaction itself.
+var ErrTruncatedTransaction = errors.New("transaction is truncated or malformed")
+
+const (
+	psetMagicLen = 5
+
+	globalUnsignedTxKey        = 0x00
+	inputNonWitnessUtxoKey     = 0x00
+	inputWitnessUtxoKey        = 0x01
+	inputFinalScriptWitnessKey = 0x08
+
+	txNoIndex      = 0xffffffff
+	txIssuanceFlag = 1 << 31
+)
+
+// CheckTransactionSizes makes sure that a transaction in hex format or a
+// partial one in base64 format, is at least as long as the fields it's made of
+// declare to be. The sizes must be verified before decoding a transaction
+// received from a counterparty, because the decoder blindly allocates as much
+// memory as they tell, and panics if that's not possible.
+func CheckTransactionSizes(transaction string) error {
+	if isHex(transaction) {
+		buf, err := hex.DecodeString(transaction)
+		if err != nil {
+			return err
+		}
+		return checkTx(buf)
+	}
+
+	buf, err := base64.StdEncoding.DecodeString(transaction)
+	if err != nil {
+		return err
+	}
+	return checkPset(buf)
+}
+
+func checkPset(buf []byte) error {
+	r := &sizeReader{buf: buf}
+	r.skip(psetMagicLen)
+
+	// the first map is the global one, then there's one for each input, finally
+	// those of the outputs, that don't need to be checked.
+	numOfInputs := 0
+	for i := 0; i <= numOfInputs && !r.truncated; {
+		key := r.varSlice()
+		if len(key) == 0 {
+			i++
+			continue
+		}
+		value := &sizeReader{buf: r.varSlice()}
+		switch {
+		case i == 0 && key[0] == globalUnsignedTxKey:
+			numOfInputs = value.tx()
+		case i > 0 && key[0] == inputNonWitnessUtxoKey:
+			value.tx()
+		case i > 0 && key[0] == inputWitnessUtxoKey:
+			value.txOutput()
+			if len(value.buf) > 0 {
+				value.varSlice()
+				value.varSlice()
+			}
+		case i > 0 && key[0] == inputFinalScriptWitnessKey:
+			value.vector()
+		}
+		if value.truncated {
+			return ErrTruncatedTransaction
+		}
+	}
+	if r.truncated {
+		return ErrTruncatedTransaction
+	}
+	return nil
+}
+
+func checkTx(buf []byte) error {
+	r := &sizeReader{buf: buf}
+	if r.tx(); r.truncated {
+		return ErrTruncatedTransaction
+	}
+	return nil
+}
+
+// sizeReader walks through the fields of a serialized transaction without
+// decoding them.
+type sizeReader struct {
+	buf       []byte
+	truncated bool
+}
+
+func (r *sizeReader) next(n uint64) []byte {
+	if r.truncated || n > uint64(len(r.buf)) {
+		r.truncated, r.buf = true, nil
+		return nil
+	}
+	b := r.buf[:n]
+	r.buf = r.buf[n:]
+	return b
+}
+
+func (r *sizeReader) skip(n uint64) {
+	r.next(n)
+}
+
+func (r *sizeReader) byte() byte {
+	if b := r.next(1); b != nil {
+		return b[0]
+	}
+	return 0
+}
+
+func (r *sizeReader) uint32() uint32 {
+	if b := r.next(4); b != nil {
+		return binary.LittleEndian.Uint32(b)
+	}
+	return 0
+}
+
+func (r *sizeReader) varInt() uint64 {
+	var size uint64
+	switch b := r.byte(); b {
+	case 0xfd:
+		size = 2
+	case 0xfe:
+		size = 4
+	case 0xff:
+		size = 8
+	default:
+		return uint64(b)
+	}
+	n := make([]byte, 8)
+	copy(n, r.next(size))
+	return binary.LittleEndian.Uint64(n)
+}
+
+func (r *sizeReader) varSlice() []byte {
+	return r.next(r.varInt())
+}
+
+func (r *sizeReader) vector() {
+	for n := r.varInt(); n > 0 && !r.truncated; n-- {
+		r.varSlice()
+	}
+}
+
+// value skips an amount, that is one byte for the prefix followed by a number
+// of bytes that depends on it. Those not valid are left to the decoder.
+func (r *sizeReader) value() {
+	switch r.byte() {
+	case 0:
+	case 1:
+		r.skip(8)
+	default:
+		r.skip(32)
+	}
+}
+
+func (r *sizeReader) nonce() {
+	if b := r.byte(); b >= 1 && b <= 3 {
+		r.skip(32)
+	}
+}
+
+// tx skips a whole transaction and returns the number of its inputs
+func (r *sizeReader) tx() int {
+	r.skip(4)
+	hasWitness := r.byte() == 1
+
+	numOfInputs := r.varInt()
+	for i := uint64(0); i < numOfInputs && !r.truncated; i++ {
+		r.skip(32)
+		index := r.uint32()
+		r.varSlice()
+		r.skip(4)
+		if index != txNoIndex && index&txIssuanceFlag != 0 {
+			r.skip(64)
+			r.value()
+			r.value()
+		}
+	}
+
+	numOfOutputs := r.varInt()
+	for i := uint64(0); i < numOfOutputs && !r.truncated; i++ {
+		r.txOutput()
+	}
+	r.skip(4)
+
+	if hasWitness {
+		for i := uint64(0); i < numOfInputs && !r.truncated; i++ {
+			r.varSlice()
+			r.varSlice()
+			r.vector()
+			r.vector()
+		}
+		for i := uint64(0); i < numOfOutputs && !r.truncated; i++ {
+			r.varSlice()
+			r.varSlice()
+		}
+	}
+	if r.truncated {
+		return 0
+	}
+	return int(numOfInputs)
+}
+
+func (r *sizeReader) txOutput() {
+	r.skip(33)
+	r.value()
+	r.nonce()
+	r.varSlice()
+}
-- 
2.43.0


From 518532a8ef15144f74b2c808f99f9332b3106873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 15/36] fix: let the trader library sign and complete only what
 it proposed

---
 pkg/trade/accept.go  | 97 ++++++++++++++++++++++++++++++++++++++++++++
 pkg/trade/buy.go     | 18 +++++++-
 pkg/trade/preview.go | 20 +++++++++
 pkg/trade/wallet.go  |  3 ++
 4 files changed, 137 insertions(+), 1 deletion(-)
 create mode 100644 pkg/trade/accept.go

diff --git a/pkg/trade/accept.go b/pkg/trade/accept.go
new file mode 100644
index 0000000..48a9c54
--- /dev/null
+++ b/pkg/trade/accept.go
@@ -0,0 +1,97 @@
+package trade
+
+import (
+	"bytes"
+	"errors"
+
+	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
+	"github.com/tdex-network/tdex-daemon/pkg/swap"
+	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
+	pb "github.com/tdex-network/tdex-protobuf/generated/go/swap"
+	"github.com/vulpemventures/go-elements/pset"
+	"github.com/vulpemventures/go-elements/transaction"
+	"google.golang.org/protobuf/proto"
+)
+
+// validateSwapAccept makes sure that the transaction of the given SwapAccept
+// message is the one of the given SwapRequest, eventually completed by the
+// counter-party, ie. that it spends all the inputs of the proposal and no other
+// one locked by the proposer's script, and that it includes all the outputs of
+// the proposal. The outputs can be blinded with the proposer's blinding key.
+func validateSwapAccept(
+	swapRequestMsg []byte,
+	swapAccept *pb.SwapAccept,
+	script, blindingKey []byte,
+) error {
+	if swapAccept == nil {
+		return errors.New("message must not be null")
+	}
+	swapRequest := &pb.SwapRequest{}
+	if err := proto.Unmarshal(swapRequestMsg, swapRequest); err != nil {
+		return err
+	}
+	if swapAccept.GetRequestId() != swapRequest.GetId() {
+		return errors.New("request id mismatch")
+	}
+
+	proposed, err := pset.NewPsetFromBase64(swapRequest.GetTransaction())
+	if err != nil {
+		return err
+	}
+	if err := swap.CheckTransactionSizes(swapAccept.GetTransaction()); err != nil {
+		return err
+	}
+	accepted, err := pset.NewPsetFromBase64(swapAccept.GetTransaction())
+	if err != nil {
+		return err
+	}
+
+	missingInputs := append([]*transaction.TxInput{}, proposed.UnsignedTx.Inputs...)
+	for i, in := range accepted.UnsignedTx.Inputs {
+		isProposed := false
+		for j, p := range missingInputs {
+			if bytes.Equal(in.Hash, p.Hash) && in.Index == p.Index {
+				missingInputs = append(missingInputs[:j], missingInputs[j+1:]...)
+				isProposed = true
+				break
+			}
+		}
+		if isProposed {
+			continue
+		}
+
+		prevout := accepted.Inputs[i].WitnessUtxo
+		if prevout == nil {
+			return errors.New("missing prevout of input added by counter-party")
+		}
+		if bytes.Equal(prevout.Script, script) {
+			return errors.New("transaction spends coins that are not part of the proposal")
+		}
+	}
+	if len(missingInputs) > 0 {
+		return errors.New("transaction does not spend all inputs of the proposal")
+	}
+
+	missingOutputs := append([]*transaction.TxOutput{}, proposed.UnsignedTx.Outputs...)
+	for _, out := range accepted.UnsignedTx.Outputs {
+		if !bytes.Equal(out.Script, script) {
+			continue
+		}
+		revealed, ok := transactionutil.UnblindOutput(out, blindingKey)
+		if !ok {
+			continue
+		}
+		for j, p := range missingOutputs {
+			if revealed.AssetHash == bufferutil.AssetHashFromBytes(p.Asset) &&
+				revealed.Value == bufferutil.ValueFromBytes(p.Value) {
+				missingOutputs = append(missingOutputs[:j], missingOutputs[j+1:]...)
+				break
+			}
+		}
+	}
+	if len(missingOutputs) > 0 {
+		return errors.New("transaction does not include all outputs of the proposal")
+	}
+
+	return nil
+}
diff --git a/pkg/trade/buy.go b/pkg/trade/buy.go
index 75f6891..bd1203a 100644
--- a/pkg/trade/buy.go
+++ b/pkg/trade/buy.go
@@ -26,6 +26,8 @@ var (
 	ErrNullPrivateKey = errors.New("private key must not be null")
 	// ErrNullBlindingKey ...
 	ErrNullBlindingKey = errors.New("blinding key must not be null")
+	// ErrNullTxid ...
+	ErrNullTxid = errors.New("completed trade has no transaction id")
 )
 
 // BuyOrSellOpts is the struct given to Buy/Sell method
@@ -193,17 +195,28 @@ func (t *Trade) marketOrderRequest(
 		SwapRequest: swapRequestMsg,
 		TradeType:   tradeType,
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	if fail := reply.GetSwapFail(); fail != nil {
 		return nil, fmt.Errorf("trade proposal has been rejected for reason: %s", fail.GetFailureMessage())
 	}
 
+	if err := validateSwapAccept(
+		swapRequestMsg, reply.GetSwapAccept(), outputScript, blindingKey,
+	); err != nil {
+		return nil, fmt.Errorf("invalid swap accept: %w", err)
+	}
+
 	return proto.Marshal(reply.GetSwapAccept())
 }
 
 func (t *Trade) marketOrderComplete(swapAcceptMsg []byte, w *Wallet) (string, error) {
 	swapAccept := &pb.SwapAccept{}
-	proto.Unmarshal(swapAcceptMsg, swapAccept)
+	if err := proto.Unmarshal(swapAcceptMsg, swapAccept); err != nil {
+		return "", err
+	}
 
 	psetBase64 := swapAccept.GetTransaction()
 	signedPset, err := w.Sign(psetBase64)
@@ -228,6 +241,9 @@ func (t *Trade) marketOrderComplete(swapAcceptMsg []byte, w *Wallet) (string, er
 	if swapFail := reply.GetSwapFail(); swapFail != nil {
 		return "", errors.New(swapFail.GetFailureMessage())
 	}
+	if len(reply.GetTxid()) <= 0 {
+		return "", ErrNullTxid
+	}
 
 	return reply.GetTxid(), nil
 }
diff --git a/pkg/trade/preview.go b/pkg/trade/preview.go
index c2d7d18..f6c0925 100644
--- a/pkg/trade/preview.go
+++ b/pkg/trade/preview.go
@@ -18,6 +18,12 @@ var (
 	ErrInvalidTradeType = errors.New("trade type must be either BUY or SELL")
 	// ErrInvalidAmount ...
 	ErrInvalidAmount = errors.New("amount must be a positive satoshi amount")
+	// ErrInvalidMarketAsset ...
+	ErrInvalidMarketAsset = errors.New(
+		"asset must be either the base or the quote one of the market",
+	)
+	// ErrInvalidPreview ...
+	ErrInvalidPreview = errors.New("counter-party returned an invalid preview")
 )
 
 // PreviewOpts is the struct given to Preview method
@@ -41,6 +47,9 @@ func (o PreviewOpts) validate() error {
 	if buf, err := hex.DecodeString(o.Asset); err != nil || len(buf) != 32 {
 		return ErrInvalidAsset
 	}
+	if o.Asset != o.Market.BaseAsset && o.Asset != o.Market.QuoteAsset {
+		return ErrInvalidMarketAsset
+	}
 	return nil
 }
 
@@ -69,8 +78,19 @@ func (t *Trade) Preview(opts PreviewOpts) (*PreviewResult, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(reply.GetPrices()) <= 0 {
+		return nil, ErrInvalidPreview
+	}
 	preview := reply.GetPrices()[0]
 
+	otherAsset := opts.Market.BaseAsset
+	if opts.Asset == opts.Market.BaseAsset {
+		otherAsset = opts.Market.QuoteAsset
+	}
+	if preview.GetAsset() != otherAsset || preview.GetAmount() <= 0 {
+		return nil, ErrInvalidPreview
+	}
+
 	assetToSend := preview.GetAsset()
 	amountToSend := preview.GetAmount()
 	assetToReceive := opts.Asset
diff --git a/pkg/trade/wallet.go b/pkg/trade/wallet.go
index ffcb7a7..daf0f8a 100644
--- a/pkg/trade/wallet.go
+++ b/pkg/trade/wallet.go
@@ -112,6 +112,9 @@ func (w *Wallet) Sign(psetBase64 string) (string, error) {
 	}
 
 	for i, in := range ptx.Inputs {
+		if in.WitnessUtxo == nil {
+			continue
+		}
 		script, witnessScript := w.Script()
 		if bytes.Equal(in.WitnessUtxo.Script, witnessScript) {
 			hashForSignature := ptx.UnsignedTx.HashForWitnessV0(
-- 
2.43.0


From 2f0b77117b2a30455709ae86ca1d2bf79024621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:31 +0000
Subject: [PATCH 16/36] fix: estimate the size of transactions with empty
 scripts instead of panicking

---
 pkg/wallet/util.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/wallet/util.go b/pkg/wallet/util.go
index 61a0086..4ef3537 100644
--- a/pkg/wallet/util.go
+++ b/pkg/wallet/util.go
@@ -174,7 +174,7 @@ func extractScriptTypesFromPset(ptx *pset.Pset) ([]int, []int, []int, []int, []i
 			prevout = in.NonWitnessUtxo.Outputs[prevoutIndex]
 		}
 
-		sType := address.GetScriptType(prevout.Script)
+		sType := getScriptType(prevout.Script)
 		switch sType {
 		case address.P2ShScript:
 			if in.WitnessScript != nil {
@@ -214,7 +214,7 @@ func extractScriptTypesFromPset(ptx *pset.Pset) ([]int, []int, []int, []int, []i
 	outScriptTypes := make([]int, len(ptx.Outputs), len(ptx.Outputs))
 	outAuxiliaryRedeemScriptSize := make([]int, 0)
 	for i, out := range ptx.UnsignedTx.Outputs {
-		sType := address.GetScriptType(out.Script)
+		sType := getScriptType(out.Script)
 		switch sType {
 		case address.P2PkhScript:
 			outScriptTypes[i] = P2PKH
@@ -234,6 +234,16 @@ func extractScriptTypesFromPset(ptx *pset.Pset) ([]int, []int, []int, []int, []i
 		outScriptTypes, outAuxiliaryRedeemScriptSize
 }
 
+// getScriptType returns the type of the given script. Those too short to be any
+// of the known ones (including the empty script of fee outputs) are treated as
+// bare scripts.
+func getScriptType(script []byte) int {
+	if len(script) < 3 {
+		return address.P2MultiSigScript
+	}
+	return address.GetScriptType(script)
+}
+
 func calcWitnessSizeFromRedeemScript(script []byte) int {
 	// redeem script is treated as a multisig one. In case it's something
 	// different, it is treated as a singlesig instead.
-- 
2.43.0


From fba8fe7826895c643e93f7878018f29357054a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:59 +0000
Subject: [PATCH 17/36] fix: reject completions with malformed scripts instead
 of panicking

---
 pkg/swap/complete.go      | 14 +++++++++++++-
 pkg/wallet/transaction.go | 14 ++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/pkg/swap/complete.go b/pkg/swap/complete.go
index 5ffab19..c50a2fa 100644
--- a/pkg/swap/complete.go
+++ b/pkg/swap/complete.go
@@ -36,7 +36,7 @@ func Complete(complete CompleteOpts) (string, []byte, error) {
 			return "", nil, fmt.Errorf("transaction in base64 format is invalid")
 		}
 
-		ok, err := ptx.ValidateAllSignatures()
+		ok, err := validateAllSignatures(ptx)
 		if err != nil {
 			return "", nil, err
 		}
@@ -123,6 +123,18 @@ func ValidateCompletePset(opts ValidateCompletePsetOpts) error {
 	return nil
 }
 
+// validateAllSignatures verifies the signatures of a counterparty's partial
+// transaction. The verification panics if the scripts of the prevouts or the
+// signatures are not among those expected, in which case an error is returned.
+func validateAllSignatures(ptx *pset.Pset) (ok bool, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			ok, err = false, fmt.Errorf("invalid signatures: %v", r)
+		}
+	}()
+	return ptx.ValidateAllSignatures()
+}
+
 func isHex(s string) bool {
 	_, err := hex.DecodeString(s)
 	return err == nil
diff --git a/pkg/wallet/transaction.go b/pkg/wallet/transaction.go
index 96a7c3c..c47c680 100644
--- a/pkg/wallet/transaction.go
+++ b/pkg/wallet/transaction.go
@@ -521,7 +521,17 @@ func (o FinalizeAndExtractTransactionOpts) validate() error {
 // FinalizeAndExtractTransaction attempts to finalize the provided partial
 // transaction and eventually extracts the final transaction and returns
 // it in hex string format, along with its transaction id
-func FinalizeAndExtractTransaction(opts FinalizeAndExtractTransactionOpts) (string, string, error) {
+func FinalizeAndExtractTransaction(
+	opts FinalizeAndExtractTransactionOpts,
+) (txHex string, txid string, err error) {
+	// the verification of the signatures and the finalization of the inputs panic
+	// in case of malformed scripts.
+	defer func() {
+		if r := recover(); r != nil {
+			txHex, txid, err = "", "", fmt.Errorf("failed to finalize transaction: %v", r)
+		}
+	}()
+
 	if err := opts.validate(); err != nil {
 		return "", "", err
 	}
@@ -544,7 +554,7 @@ func FinalizeAndExtractTransaction(opts FinalizeAndExtractTransactionOpts) (stri
 	if err != nil {
 		return "", "", err
 	}
-	txHex, err := tx.ToHex()
+	txHex, err = tx.ToHex()
 	if err != nil {
 		return "", "", err
 	}
-- 
2.43.0


From 7e491f425cfa9071448aff7583a8e6fd9df2d2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:59 +0000
Subject: [PATCH 18/36] fix: skip the coins that cannot be unblinded instead of
 failing to list all others

---
 internal/core/application/types.go | 5 +++--
 pkg/explorer/esplora/unspents.go   | 8 +++-----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/internal/core/application/types.go b/internal/core/application/types.go
index 5fbe695..a4fbfd1 100644
--- a/internal/core/application/types.go
+++ b/internal/core/application/types.go
@@ -2,7 +2,6 @@ package application
 
 import (
 	"encoding/hex"
-	"fmt"
 
 	"github.com/btcsuite/btcd/btcec"
 	"github.com/shopspring/decimal"
@@ -283,7 +282,9 @@ func (t transactionManager) ExtractUnspents(
 		if info, ok := infoByScript[script]; ok {
 			unconfidential, ok := transactionutil.UnblindOutput(out, info.BlindingKey)
 			if !ok {
-				return nil, nil, fmt.Errorf("unable to unblind output")
+				// not spendable: whoever made the transaction did not blind the
+				// output with the key of the address.
+				continue
 			}
 			unspentsToAdd = append(unspentsToAdd, domain.Unspent{
 				TxID:            tx.TxHash().String(),
diff --git a/pkg/explorer/esplora/unspents.go b/pkg/explorer/esplora/unspents.go
index 64640c0..2d63cc0 100644
--- a/pkg/explorer/esplora/unspents.go
+++ b/pkg/explorer/esplora/unspents.go
@@ -122,10 +122,6 @@ func (e *esplora) getUtxos(addr string, blindingKeys [][]byte) ([]explorer.Utxo,
 		}
 
 		for r := range chRes {
-			if r.err != nil {
-				return nil, fmt.Errorf("error on unblinding utxos: %s", r.err)
-			}
-
 			utxos = append(utxos, r.utxo)
 		}
 	}
@@ -223,5 +219,7 @@ func unblindUtxo(
 		}
 	}
 
-	chRes <- utxoResult{err: fmt.Errorf("unable to unblind utxo with provided keys")}
+	// anybody can send to an address an output blinded with a key other than
+	// that of the address. Such output is not spendable and it's skipped so that
+	// it does not prevent from retrieving all the others.
 }
-- 
2.43.0


From 7de23e1ff0e550bbb9a87792273805717521997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 19/36] fix: accept trades that spend unconfidential coins of
 the daemon

---
 internal/core/application/trade_service.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 457426d..7073ee5 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -917,11 +917,15 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	inputsToSign := len(selectedUnspents)
 
 	for i, u := range selectedUnspents {
+		assetBlinder, amountBlinder := u.AssetBlinder(), u.ValueBlinder()
+		if !u.IsConfidential() {
+			assetBlinder, amountBlinder = make([]byte, 32), make([]byte, 32)
+		}
 		inputBlindingData[existingInputs+i] = wallet.BlindingData{
 			Asset:         u.Asset(),
 			Amount:        u.Value(),
-			AssetBlinder:  u.AssetBlinder(),
-			AmountBlinder: u.ValueBlinder(),
+			AssetBlinder:  assetBlinder,
+			AmountBlinder: amountBlinder,
 		}
 	}
 
-- 
2.43.0


From c604342209aff527161cdf3897ccc3346c43c610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:22 +0000
Subject: [PATCH 20/36] fix: refuse to start when the macaroon store cannot be
 opened instead of serving without authentication

---
 internal/interfaces/grpc/service.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/interfaces/grpc/service.go b/internal/interfaces/grpc/service.go
index 24e7206..697b304 100644
--- a/internal/interfaces/grpc/service.go
+++ b/internal/interfaces/grpc/service.go
@@ -179,9 +179,13 @@ func NewService(opts ServiceOpts) (interfaces.Service, error) {
 
 	var macaroonSvc *macaroons.Service
 	if !opts.NoMacaroons {
-		macaroonSvc, _ = macaroons.NewService(
+		var err error
+		macaroonSvc, err = macaroons.NewService(
 			opts.dbDatadir(), Location, DBFile, false, macaroons.IPLockChecker,
 		)
+		if err != nil {
+			return nil, fmt.Errorf("failed to open macaroon store: %s", err)
+		}
 		if err := generateOperatorTLSKeyCert(
 			opts.tlsDatadir(), opts.OperatorExtraIPs, opts.OperatorExtraDomains,
 		); err != nil {
-- 
2.43.0


From 6a9962e87685606ce2676e5b2a1b1a9880871eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 21/36] fix: use the macaroon encryption key only once it is
 stored

---
 pkg/macaroons/store.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/pkg/macaroons/store.go b/pkg/macaroons/store.go
index 64b55dc..dc7375b 100644
--- a/pkg/macaroons/store.go
+++ b/pkg/macaroons/store.go
@@ -96,7 +96,8 @@ func (r *RootKeyStorage) CreateUnlock(password *[]byte) error {
 		return ErrPasswordRequired
 	}
 
-	return kvdb.Update(r, func(tx kvdb.RwTx) error {
+	var key *snacl.SecretKey
+	if err := kvdb.Update(r, func(tx kvdb.RwTx) error {
 		bucket := tx.ReadWriteBucket(rootKeyBucketName)
 		if bucket == nil {
 			return ErrRootKeyBucketNotFound
@@ -116,7 +117,7 @@ func (r *RootKeyStorage) CreateUnlock(password *[]byte) error {
 				return err
 			}
 
-			r.encKey = encKey
+			key = encKey
 			return nil
 		}
 
@@ -133,14 +134,23 @@ func (r *RootKeyStorage) CreateUnlock(password *[]byte) error {
 			return err
 		}
 
-		r.encKey = encKey
+		key = encKey
 		return nil
-	}, func() {})
+	}, func() {}); err != nil {
+		return err
+	}
+
+	// The key is used only once it is safely stored.
+	r.encKey = key
+	return nil
 }
 
 // ChangePassword decrypts the macaroon root key with the old password and then
 // encrypts it again with the new password.
 func (r *RootKeyStorage) ChangePassword(oldPw, newPw []byte) error {
+	r.encKeyMtx.Lock()
+	defer r.encKeyMtx.Unlock()
+
 	// We need the store to already be unlocked. With this we can make sure
 	// that there already is a key in the DB.
 	if r.encKey == nil {
@@ -152,7 +162,8 @@ func (r *RootKeyStorage) ChangePassword(oldPw, newPw []byte) error {
 		return ErrPasswordRequired
 	}
 
-	return kvdb.Update(r, func(tx kvdb.RwTx) error {
+	var key *snacl.SecretKey
+	if err := kvdb.Update(r, func(tx kvdb.RwTx) error {
 		bucket := tx.ReadWriteBucket(rootKeyBucketName)
 		if bucket == nil {
 			return ErrRootKeyBucketNotFound
@@ -210,9 +221,14 @@ func (r *RootKeyStorage) ChangePassword(oldPw, newPw []byte) error {
 			return err
 		}
 
-		r.encKey = encKeyNew
+		key = encKeyNew
 		return nil
-	}, func() {})
+	}, func() {}); err != nil {
+		return err
+	}
+
+	r.encKey = key
+	return nil
 }
 
 // Get implements the Get method for the bakery.RootKeyStorage interface.
@@ -313,6 +329,9 @@ func (r *RootKeyStorage) RootKey(ctx context.Context) ([]byte, []byte, error) {
 // GenerateNewRootKey generates a new macaroon root key, replacing the previous
 // root key if it existed.
 func (r *RootKeyStorage) GenerateNewRootKey() error {
+	r.encKeyMtx.RLock()
+	defer r.encKeyMtx.RUnlock()
+
 	// We need the store to already be unlocked. With this we can make sure
 	// that there already is a key in the DB that can be replaced.
 	if r.encKey == nil {
-- 
2.43.0


From 0dc2f13383c2f3c67074ed3d627073361fe29f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:24 +0000
Subject: [PATCH 22/36] fix: create the missing macaroon files after an
 interrupted generation

---
 internal/interfaces/grpc/macaroon_utils.go | 34 ++++++++++++----------
 internal/interfaces/grpc/service.go        | 14 ---------
 2 files changed, 19 insertions(+), 29 deletions(-)

diff --git a/internal/interfaces/grpc/macaroon_utils.go b/internal/interfaces/grpc/macaroon_utils.go
index d528493..e0736b4 100644
--- a/internal/interfaces/grpc/macaroon_utils.go
+++ b/internal/interfaces/grpc/macaroon_utils.go
@@ -26,39 +26,32 @@ func bakeMacaroon(
 	return mac.M().MarshalBinary()
 }
 
-// genMacaroons generates four macaroon files; one admin-level, one for
-// updating the strategy of a market, one for updating its price  and one
-// read-only. Admin and read-only can also be used to generate more granular
+// genMacaroons generates the missing macaroon files, among which one
+// admin-level, one for updating the strategy of a market, one for updating its
+// price and one read-only. Admin and read-only can also be used to generate more granular
 // macaroons.
 func genMacaroons(
 	ctx context.Context, svc *macaroons.Service, datadir string,
 ) error {
-	adminMacFile := filepath.Join(datadir, AdminMacaroonFile)
-	roMacFile := filepath.Join(datadir, ReadOnlyMacaroonFile)
-	marketMacFile := filepath.Join(datadir, MarketMacaroonFile)
-	priceMacFile := filepath.Join(datadir, PriceMacaroonFile)
-	if pathExists(adminMacFile) || pathExists(roMacFile) ||
-		pathExists(marketMacFile) || pathExists(priceMacFile) {
-		return nil
-	}
-
 	// Let's create the datadir if it doesn't exist.
 	if err := makeDirectoryIfNotExists(datadir); err != nil {
 		return err
 	}
 
 	for macFilename, macPermissions := range Macaroons {
+		macFile := filepath.Join(datadir, macFilename)
+		if pathExists(macFile) {
+			continue
+		}
 		mktMacBytes, err := bakeMacaroon(ctx, svc, macPermissions)
 		if err != nil {
 			return err
 		}
-		macFile := filepath.Join(datadir, macFilename)
 		perms := fs.FileMode(0644)
 		if macFilename == AdminMacaroonFile {
 			perms = 0600
 		}
-		if err := ioutil.WriteFile(macFile, mktMacBytes, perms); err != nil {
-			os.Remove(macFile)
+		if err := writeFile(macFile, mktMacBytes, perms); err != nil {
 			return err
 		}
 	}
@@ -66,6 +59,17 @@ func genMacaroons(
 	return nil
 }
 
+// writeFile creates the file at once, so that an interrupted write can't leave
+// an incomplete one.
+func writeFile(path string, data []byte, perms fs.FileMode) error {
+	tmpPath := path + ".tmp"
+	if err := ioutil.WriteFile(tmpPath, data, perms); err != nil {
+		os.Remove(tmpPath)
+		return err
+	}
+	return os.Rename(tmpPath, path)
+}
+
 func makeDirectoryIfNotExists(path string) error {
 	if pathExists(path) {
 		return nil
diff --git a/internal/interfaces/grpc/service.go b/internal/interfaces/grpc/service.go
index 697b304..f86c3ba 100644
--- a/internal/interfaces/grpc/service.go
+++ b/internal/interfaces/grpc/service.go
@@ -114,20 +114,6 @@ func (o ServiceOpts) validate() error {
 	}
 
 	if !o.NoMacaroons {
-		macDir := o.macaroonsDatadir()
-		adminMacExists := pathExists(filepath.Join(macDir, AdminMacaroonFile))
-		roMacExists := pathExists(filepath.Join(macDir, ReadOnlyMacaroonFile))
-		marketMacExists := pathExists(filepath.Join(macDir, MarketMacaroonFile))
-		priceMacExists := pathExists(filepath.Join(macDir, PriceMacaroonFile))
-
-		if adminMacExists != roMacExists ||
-			adminMacExists != marketMacExists ||
-			adminMacExists != priceMacExists {
-			return fmt.Errorf(
-				"all macaroons must be either existing or not in path %s", macDir,
-			)
-		}
-
 		// TLS over operator interface is automatically enabled if macaroons auth
 		// is active.
 		tlsDir := o.tlsDatadir()
-- 
2.43.0


From f3aa4a3bc6aaaa1dffd851e060c6087dacf6916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:25 +0000
Subject: [PATCH 23/36] fix: recover from an interrupted creation of the TLS
 key and certificate

---
 internal/interfaces/grpc/service.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/internal/interfaces/grpc/service.go b/internal/interfaces/grpc/service.go
index f86c3ba..a2e1cfc 100644
--- a/internal/interfaces/grpc/service.go
+++ b/internal/interfaces/grpc/service.go
@@ -433,15 +433,12 @@ func generateOperatorTLSKeyCert(
 		return fmt.Errorf("failed to encode private key: %v", err)
 	}
 
-	if err := ioutil.WriteFile(certPath, certBuf.Bytes(), 0644); err != nil {
+	// The key goes first: if the certificate is missing, it is created again
+	// from the existing key.
+	if err := writeFile(keyPath, keyBuf.Bytes(), 0600); err != nil {
 		return err
 	}
-	if err := ioutil.WriteFile(keyPath, keyBuf.Bytes(), 0600); err != nil {
-		os.Remove(certPath)
-		return err
-	}
-
-	return nil
+	return writeFile(certPath, certBuf.Bytes(), 0644)
 }
 
 func serveMux(address, tlsKey, tlsCert string, grpcServer *grpc.Server) error {
-- 
2.43.0


From d904c9ac63fe4f240ddf1c0f6dc522a5a9f84379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 24/36] fix: unlock the macaroon service before changing its
 password

---
 internal/interfaces/grpc/service.go | 49 ++++++++++-------------------
 1 file changed, 17 insertions(+), 32 deletions(-)

diff --git a/internal/interfaces/grpc/service.go b/internal/interfaces/grpc/service.go
index a2e1cfc..e565f2a 100644
--- a/internal/interfaces/grpc/service.go
+++ b/internal/interfaces/grpc/service.go
@@ -266,24 +266,23 @@ func (s *service) withMacaroons() bool {
 func (s *service) startListeningToPassphraseChan() {
 	for msg := range s.passphraseChan {
 		if s.withMacaroons() {
-			switch msg.Method {
-			case application.UnlockWallet:
-				pwd := []byte(msg.CurrentPwd)
-				if err := s.macaroonSvc.CreateUnlock(&pwd); err != nil {
-					if err != macaroons.ErrAlreadyUnlocked {
-						log.WithError(err).Warn(
-							"an error occured while unlocking macaroon service",
-						)
-					}
-				}
-				ctx := context.Background()
-				if err := genMacaroons(
-					ctx, s.macaroonSvc, s.opts.macaroonsDatadir(),
-				); err != nil {
-					log.WithError(err).Warn("an error occured while creating macaroons")
-				}
-				break
-			case application.ChangePassphrase:
+			// The macaroon service must be unlocked (or created) with the current
+			// password whatever the message is.
+			pwd := []byte(msg.CurrentPwd)
+			if err := s.macaroonSvc.CreateUnlock(&pwd); err != nil &&
+				err != macaroons.ErrAlreadyUnlocked {
+				log.WithError(err).Warn(
+					"an error occured while unlocking macaroon service",
+				)
+				continue
+			}
+			if err := genMacaroons(
+				context.Background(), s.macaroonSvc, s.opts.macaroonsDatadir(),
+			); err != nil {
+				log.WithError(err).Warn("an error occured while creating macaroons")
+			}
+
+			if msg.Method == application.ChangePassphrase {
 				currentPwd := []byte(msg.CurrentPwd)
 				newPwd := []byte(msg.NewPwd)
 				if err := s.macaroonSvc.ChangePassword(currentPwd, newPwd); err != nil {
@@ -291,20 +290,6 @@ func (s *service) startListeningToPassphraseChan() {
 						"an error occured while changing password of macaroon service",
 					)
 				}
-			default:
-				pwd := []byte(msg.CurrentPwd)
-				if err := s.macaroonSvc.CreateUnlock(&pwd); err != nil {
-					log.WithError(err).Warn(
-						"an error occured while creating macaroon service",
-					)
-				}
-				ctx := context.Background()
-				if err := genMacaroons(
-					ctx, s.macaroonSvc, s.opts.macaroonsDatadir(),
-				); err != nil {
-					log.WithError(err).Warn("an error occured while creating macaroons")
-				}
-				break
 			}
 		}
 	}
-- 
2.43.0


From d3e6ebec9608e44ec3b88a4311f6b594790d7fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 25/36] fix: let the pending grpc-web requests finish when
 stopping the interface

---
 internal/interfaces/grpc/service.go | 66 +++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 17 deletions(-)

diff --git a/internal/interfaces/grpc/service.go b/internal/interfaces/grpc/service.go
index e565f2a..78db01a 100644
--- a/internal/interfaces/grpc/service.go
+++ b/internal/interfaces/grpc/service.go
@@ -72,6 +72,10 @@ const (
 	WebhookMacaroonFile = "webhook.macaroon"
 )
 
+// httpStopTimeout is how long the stop of an interface waits for the pending
+// grpc-web requests.
+const httpStopTimeout = 10 * time.Second
+
 var (
 	serialNumberLimit = new(big.Int).Lsh(big.NewInt(1), 128)
 
@@ -88,8 +92,8 @@ var (
 type service struct {
 	opts           ServiceOpts
 	macaroonSvc    *macaroons.Service
-	operatorServer *grpc.Server
-	tradeServer    *grpc.Server
+	operatorServer *muxServer
+	tradeServer    *muxServer
 	passphraseChan chan application.PassphraseMsg
 }
 
@@ -213,21 +217,23 @@ func (s *service) Start(
 	pbwallet.RegisterWalletServer(operatorServer, walletHandler)
 
 	// Serve grpc and grpc-web multiplexed on the same port
-	if err := serveMux(
+	operatorMux, err := serveMux(
 		operatorAddress, s.operatorTLSKey(), s.operatorTLSCert(), operatorServer,
-	); err != nil {
+	)
+	if err != nil {
 		return err
 	}
-	if err := serveMux(
+	tradeMux, err := serveMux(
 		tradeAddress, tradeTLSKey, tradeTLSCert, tradeServer,
-	); err != nil {
+	)
+	if err != nil {
 		return err
 	}
 
 	go s.startListeningToPassphraseChan()
 
-	s.operatorServer = operatorServer
-	s.tradeServer = tradeServer
+	s.operatorServer = operatorMux
+	s.tradeServer = tradeMux
 
 	return nil
 }
@@ -426,16 +432,39 @@ func generateOperatorTLSKeyCert(
 	return writeFile(certPath, certBuf.Bytes(), 0644)
 }
 
-func serveMux(address, tlsKey, tlsCert string, grpcServer *grpc.Server) error {
+// muxServer serves grpc and grpc-web requests on the same port.
+type muxServer struct {
+	grpcServer *grpc.Server
+	httpServer *http.Server
+}
+
+// GracefulStop waits for the pending requests to be served. The grpc-web ones
+// go first because the grpc server can't be gracefully stopped while serving
+// any of them.
+func (s *muxServer) GracefulStop() {
+	ctx, cancel := context.WithTimeout(context.Background(), httpStopTimeout)
+	defer cancel()
+
+	if err := s.httpServer.Shutdown(ctx); err != nil {
+		log.WithError(err).Warn("pending grpc-web requests have been interrupted")
+		s.grpcServer.Stop()
+		return
+	}
+	s.grpcServer.GracefulStop()
+}
+
+func serveMux(
+	address, tlsKey, tlsCert string, grpcServer *grpc.Server,
+) (*muxServer, error) {
 	lis, err := net.Listen("tcp", address)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
 	if tlsKey != "" {
 		certificate, err := tls.LoadX509KeyPair(tlsCert, tlsKey)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		const requiredCipher = tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256
@@ -460,14 +489,17 @@ func serveMux(address, tlsKey, tlsCert string, grpcServer *grpc.Server) error {
 	)
 
 	go grpcServer.Serve(grpcL)
-	go http.Serve(httpL, http.HandlerFunc(func(resp http.ResponseWriter, req *http.Request) {
-		if isValidRequest(req) {
-			grpcWebServer.ServeHTTP(resp, req)
-		}
-	}))
+	httpServer := &http.Server{
+		Handler: http.HandlerFunc(func(resp http.ResponseWriter, req *http.Request) {
+			if isValidRequest(req) {
+				grpcWebServer.ServeHTTP(resp, req)
+			}
+		}),
+	}
+	go httpServer.Serve(httpL)
 
 	go mux.Serve()
-	return nil
+	return &muxServer{grpcServer, httpServer}, nil
 }
 
 func isValidRequest(req *http.Request) bool {
-- 
2.43.0


From 768ed166bf5d47d3a16f885209b992df2114530e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 26/36] fix: let the macaroons give access to the market fee
 report

---
 internal/interfaces/grpc/permissions/permissions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/interfaces/grpc/permissions/permissions.go b/internal/interfaces/grpc/permissions/permissions.go
index ac9b9fa..fd64cc2 100644
--- a/internal/interfaces/grpc/permissions/permissions.go
+++ b/internal/interfaces/grpc/permissions/permissions.go
@@ -243,6 +243,10 @@ func AllPermissionsByMethod() map[string][]bakery.Op {
 			Entity: EntityMarket,
 			Action: "read",
 		}},
+		"/Operator/ReportMarketFee": {{
+			Entity: EntityMarket,
+			Action: "read",
+		}},
 		"/Operator/BalanceFeeAccount": {{
 			Entity: EntityMarket,
 			Action: "read",
-- 
2.43.0


From f2637e901604141d8b612bdaf45a45733455a48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:29 +0000
Subject: [PATCH 27/36] fix: keep the webhooks when the passphrase changes

---
 internal/core/application/wallet_service.go     | 16 +++++++---------
 internal/infrastructure/pubsub/webhook/store.go |  6 ++++++
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 920697a..8e25996 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -364,15 +364,13 @@ func (w *walletService) ChangePassword(
 	}
 
 	if w.blockchainListener.PubSubService() != nil {
-		go func() {
-			if err := w.blockchainListener.PubSubService().Store().ChangePassword(
-				currentPassphrase, newPassphrase,
-			); err != nil {
-				log.WithError(err).Warn(
-					"an error occured while updating pubsub service password",
-				)
-			}
-		}()
+		if err := w.blockchainListener.PubSubService().Store().ChangePassword(
+			currentPassphrase, newPassphrase,
+		); err != nil {
+			log.WithError(err).Warn(
+				"an error occured while updating pubsub service password",
+			)
+		}
 	}
 
 	w.pwChan <- PassphraseMsg{
diff --git a/internal/infrastructure/pubsub/webhook/store.go b/internal/infrastructure/pubsub/webhook/store.go
index 7d00245..5d35e18 100644
--- a/internal/infrastructure/pubsub/webhook/store.go
+++ b/internal/infrastructure/pubsub/webhook/store.go
@@ -47,6 +47,12 @@ func (ws webhookStore) Unlock(password string) error {
 }
 
 func (ws webhookStore) ChangePassword(oldPwd, newPwd string) error {
+	if ws.IsLocked() {
+		if err := ws.Unlock(oldPwd); err != nil {
+			return err
+		}
+		defer ws.Lock()
+	}
 	return ws.store.ChangePassword([]byte(oldPwd), []byte(newPwd))
 }
 
-- 
2.43.0


From 44b0f0528039654d5a4520a54d8b9616270af298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:17 +0000
Subject: [PATCH 28/36] fix: restore the whole wallet from its seed or fail
 leaving it uninitialized

---
 internal/core/application/wallet_service.go | 312 ++++++++++++--------
 internal/interfaces/grpc/handler/wallet.go  |  23 +-
 2 files changed, 202 insertions(+), 133 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 8e25996..94a6c3e 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -169,91 +169,38 @@ func (w *walletService) InitWallet(
 		close(chErr)
 		close(chRes)
 	}()
-	if w.isInitialized() {
-		return
-	}
 	// this prevents strange behaviors by making consecutive calls to InitWallet
 	// while it's still syncing
-	if w.isSyncing() {
+	if ok, err := w.startSyncing(); !ok {
+		if err != nil {
+			chErr <- err
+		}
 		return
 	}
+	defer w.setSyncing(false)
+	// the wallet must be locked at the end, whatever the result is
+	defer domain.MnemonicStoreManager.Unset()
 
 	if restore {
-		w.setSyncing(true)
 		log.Debug("restoring wallet")
 		start := time.Now()
 		defer func() {
 			elapsed := time.Since(start)
 			log.Debugf("Restoration took: %.2fs", elapsed.Seconds())
 		}()
-	} else {
-		log.Debug("creating wallet")
-	}
 
-	vault, err := w.repoManager.VaultRepository().GetOrCreateVault(ctx, mnemonic, passphrase, w.network)
-	if err != nil {
-		chErr <- fmt.Errorf("unable to retrieve vault: %v", err)
-		return
-	}
-	defer vault.Lock()
-
-	if restore {
-		data := "addresses discovery"
-
-		chRes <- &InitWalletReply{
-			Status: Processing,
-			Data:   data,
-		}
-
-		allInfo := make(domain.AddressesInfo, 0)
-		feeInfo, marketInfoByAccount, err := w.restoreVault(ctx, mnemonic, vault)
-		if err != nil {
-			chErr <- fmt.Errorf("unable to restore vault: %v", err)
+		if err := w.restoreWallet(ctx, mnemonic, passphrase, chRes); err != nil {
+			chErr <- err
 			return
 		}
-		chRes <- &InitWalletReply{
-			Status: Done,
-			Data:   data,
-		}
-
-		allInfo = append(allInfo, feeInfo...)
-		for _, marketInfo := range marketInfoByAccount {
-			allInfo = append(allInfo, marketInfo...)
-		}
-
-		// restore unspents
-		unspents, err := w.restoreUnspents(allInfo, chRes)
-		if err != nil {
-			chErr <- fmt.Errorf("unable to restore unspents: %v", err)
-			return
-		}
-
-		// group unspents by address to facilitate market restoration
-		unspentsByAddress := make(map[string][]domain.Unspent)
-		for _, u := range unspents {
-			unspentsByAddress[u.Address] = append(unspentsByAddress[u.Address], u)
-		}
-
-		// restore markets
-		mLen := len(marketInfoByAccount)
-		markets := make([]*domain.Market, mLen, mLen)
-		i := 0
-		for accountIndex, info := range marketInfoByAccount {
-			market, err := w.restoreMarket(ctx, accountIndex, info, unspentsByAddress)
-			if err != nil {
-				chErr <- fmt.Errorf("unable to restore market: %v", err)
-				return
-			}
-			markets[i] = market
-			i++
-		}
-
-		if err := w.persistRestoredState(ctx, vault, unspents, markets); err != nil {
-			chErr <- fmt.Errorf("unable to persist restored state: %v", err)
+	} else {
+		log.Debug("creating wallet")
+		if _, err := w.repoManager.VaultRepository().GetOrCreateVault(
+			ctx, mnemonic, passphrase, w.network,
+		); err != nil {
+			chErr <- fmt.Errorf("unable to retrieve vault: %v", err)
 			return
 		}
-
-		go startObserveUnconfirmedUnspents(w.blockchainListener, unspents)
 	}
 
 	if w.blockchainListener.PubSubService() != nil {
@@ -274,9 +221,6 @@ func (w *walletService) InitWallet(
 		CurrentPwd: passphrase,
 	}
 	w.setInitialized(true)
-	if w.isSyncing() {
-		w.setSyncing(false)
-	}
 	log.Debug("done")
 }
 
@@ -574,6 +518,22 @@ func (w *walletService) isSyncing() bool {
 	return w.walletIsSyncing
 }
 
+// startSyncing returns whether the wallet can be initialized. If so, it's up to
+// the caller to call setSyncing(false) afterwards.
+func (w *walletService) startSyncing() (bool, error) {
+	w.lock.Lock()
+	defer w.lock.Unlock()
+
+	if w.walletInitialized {
+		return false, nil
+	}
+	if w.walletIsSyncing {
+		return false, ErrWalletIsSyncing
+	}
+	w.walletIsSyncing = true
+	return true, nil
+}
+
 func (w *walletService) setSyncing(val bool) {
 	w.lock.Lock()
 	defer w.lock.Unlock()
@@ -595,31 +555,127 @@ func (w *walletService) setInitialized(val bool) {
 	w.walletInitialized = val
 }
 
+// restoreWallet looks for the funds of the wallet with the given mnemonic and
+// persists its state only once all of it has been restored, so that the wallet
+// remains uninitialized in case anything goes wrong.
+func (w *walletService) restoreWallet(
+	ctx context.Context,
+	mnemonic []string,
+	passphrase string,
+	chRes chan *InitWalletReply,
+) error {
+	vault, err := domain.NewVault(mnemonic, passphrase, w.network)
+	if err != nil {
+		return fmt.Errorf("unable to create vault: %v", err)
+	}
+
+	data := "addresses discovery"
+
+	if err := sendReply(ctx, chRes, &InitWalletReply{
+		Status: Processing,
+		Data:   data,
+	}); err != nil {
+		return err
+	}
+
+	allInfo, marketInfoByAccount, err := w.restoreVault(ctx, mnemonic, vault)
+	if err != nil {
+		return fmt.Errorf("unable to restore vault: %v", err)
+	}
+	if err := sendReply(ctx, chRes, &InitWalletReply{
+		Status: Done,
+		Data:   data,
+	}); err != nil {
+		return err
+	}
+
+	// restore unspents
+	unspents, err := w.restoreUnspents(ctx, allInfo, chRes)
+	if err != nil {
+		return fmt.Errorf("unable to restore unspents: %v", err)
+	}
+
+	// group unspents by address to facilitate market restoration
+	unspentsByAddress := make(map[string][]domain.Unspent)
+	for _, u := range unspents {
+		unspentsByAddress[u.Address] = append(unspentsByAddress[u.Address], u)
+	}
+
+	// restore markets
+	markets := make([]*domain.Market, 0, len(marketInfoByAccount))
+	for accountIndex, info := range marketInfoByAccount {
+		market, err := w.restoreMarket(accountIndex, info, unspentsByAddress)
+		if err != nil {
+			return fmt.Errorf("unable to restore market: %v", err)
+		}
+		markets = append(markets, market)
+	}
+
+	if err := w.persistRestoredState(
+		ctx, mnemonic, passphrase, vault, markets,
+	); err != nil {
+		return fmt.Errorf("unable to persist restored state: %v", err)
+	}
+	if _, err := addOrConfirmUnspents(
+		w.repoManager.UnspentRepository(), unspents,
+	); err != nil {
+		return fmt.Errorf("unable to persist restored unspents: %v", err)
+	}
+
+	go startObserveUnconfirmedUnspents(w.blockchainListener, unspents)
+	return nil
+}
+
+// sendReply sends the reply unless the receiver is gone.
+func sendReply(
+	ctx context.Context, chRes chan *InitWalletReply, reply *InitWalletReply,
+) error {
+	select {
+	case chRes <- reply:
+		return nil
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+}
+
 func (w *walletService) restoreVault(
 	ctx context.Context,
 	mnemonic []string,
 	vault *domain.Vault,
 ) (domain.AddressesInfo, map[int]domain.AddressesInfo, error) {
-	ww, _ := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{
+	ww, err := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{
 		SigningMnemonic: mnemonic,
 	})
+	if err != nil {
+		return nil, nil, err
+	}
 
-	var feeRestoreInfo, walletRestoreInfo *accountLastDerivedIndex
-	var marketsRestoreInfo []*accountLastDerivedIndex
-
-	feeRestoreInfo = w.restoreAccount(ww, domain.FeeAccount)
-	walletRestoreInfo = w.restoreAccount(ww, domain.WalletAccount)
-	marketsRestoreInfo = w.restoreMarketAccounts(ww)
+	feeRestoreInfo, err := w.restoreAccount(ww, domain.FeeAccount)
+	if err != nil {
+		return nil, nil, err
+	}
+	walletRestoreInfo, err := w.restoreAccount(ww, domain.WalletAccount)
+	if err != nil {
+		return nil, nil, err
+	}
+	marketsRestoreInfo, err := w.restoreMarketAccounts(ww)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	// restore vault accounts
+	allInfo := make(domain.AddressesInfo, 0)
 	feeInfo, err := initVaultAccount(vault, domain.FeeAccount, feeRestoreInfo)
 	if err != nil {
 		return nil, nil, err
 	}
+	allInfo = append(allInfo, feeInfo...)
 
-	if _, err := initVaultAccount(vault, domain.WalletAccount, walletRestoreInfo); err != nil {
+	walletInfo, err := initVaultAccount(vault, domain.WalletAccount, walletRestoreInfo)
+	if err != nil {
 		return nil, nil, err
 	}
+	allInfo = append(allInfo, walletInfo...)
 
 	marketInfoByAccount := make(map[int]domain.AddressesInfo)
 	for i, m := range marketsRestoreInfo {
@@ -629,15 +685,16 @@ func (w *walletService) restoreVault(
 			return nil, nil, err
 		}
 		marketInfoByAccount[accountIndex] = info
+		allInfo = append(allInfo, info...)
 	}
 
-	return feeInfo, marketInfoByAccount, nil
+	return allInfo, marketInfoByAccount, nil
 }
 
 func (w *walletService) restoreAccount(
 	ww *wallet.Wallet,
 	accountIndex int,
-) *accountLastDerivedIndex {
+) (*accountLastDerivedIndex, error) {
 	lastDerivedIndex := &accountLastDerivedIndex{}
 	for chainIndex := 0; chainIndex <= 1; chainIndex++ {
 		firstUnusedAddress := -1
@@ -652,7 +709,13 @@ func (w *walletService) restoreAccount(
 				Script: script,
 			})
 
-			if !isAddressFunded(ctAddress, blindKey.Serialize(), w.explorerService) {
+			isFunded, err := isAddressFunded(
+				ctAddress, blindKey.Serialize(), w.explorerService,
+			)
+			if err != nil {
+				return nil, err
+			}
+			if !isFunded {
 				if firstUnusedAddress < 0 {
 					firstUnusedAddress = i
 				}
@@ -674,61 +737,62 @@ func (w *walletService) restoreAccount(
 
 	if lastDerivedIndex.external < 0 && lastDerivedIndex.internal < 0 {
 		log.Debugf("account %d empty", accountIndex)
-		return nil
+		return nil, nil
 	}
 	log.Debugf(
 		"account %d total fetched addresses: %d",
 		accountIndex, lastDerivedIndex.total(),
 	)
-	return lastDerivedIndex
+	return lastDerivedIndex, nil
 }
 
 func (w *walletService) restoreMarketAccounts(
 	ww *wallet.Wallet,
-) []*accountLastDerivedIndex {
+) ([]*accountLastDerivedIndex, error) {
 	marketsLastIndex := make([]*accountLastDerivedIndex, 0)
 	i := 0
 	for {
 		marketIndex := domain.MarketAccountStart + i
-		lastDerivedIndex := w.restoreAccount(
+		lastDerivedIndex, err := w.restoreAccount(
 			ww,
 			marketIndex,
 		)
+		if err != nil {
+			return nil, err
+		}
 		if lastDerivedIndex == nil {
 			break
 		}
 		marketsLastIndex = append(marketsLastIndex, lastDerivedIndex)
 		i++
 	}
-	return marketsLastIndex
+	return marketsLastIndex, nil
 }
 
 func (w *walletService) restoreMarket(
-	ctx context.Context,
 	accountIndex int,
 	info domain.AddressesInfo,
 	unspentsByAddress map[string][]domain.Unspent,
 ) (*domain.Market, error) {
-	market, err := w.repoManager.MarketRepository().GetOrCreateMarket(ctx, &domain.Market{
-		AccountIndex: accountIndex,
-		Fee:          w.marketFee,
-	})
+	market, err := domain.NewMarket(accountIndex, w.marketFee)
 	if err != nil {
 		return nil, err
 	}
 
-	if len(unspentsByAddress) > 0 {
-		outpoints := make([]domain.OutpointWithAsset, 0)
-		for _, i := range info {
-			unspentsForAddress := unspentsByAddress[i.Address]
-			for _, u := range unspentsForAddress {
-				outpoints = append(outpoints, u.ToOutpointWithAsset())
-			}
+	outpoints := make([]domain.OutpointWithAsset, 0)
+	for _, i := range info {
+		unspentsForAddress := unspentsByAddress[i.Address]
+		for _, u := range unspentsForAddress {
+			outpoints = append(outpoints, u.ToOutpointWithAsset())
 		}
+	}
 
-		if err := market.FundMarket(outpoints, w.marketBaseAsset); err != nil {
-			return nil, err
-		}
+	// the pair of assets might not be identifiable by the remaining funds. In
+	// such case the market is restored as not funded
+	if err := market.FundMarket(outpoints, w.marketBaseAsset); err != nil {
+		log.WithError(err).Warnf(
+			"market with account %d restored as not funded", accountIndex,
+		)
 	}
 
 	return market, nil
@@ -736,15 +800,21 @@ func (w *walletService) restoreMarket(
 
 func (w *walletService) persistRestoredState(
 	ctx context.Context,
+	mnemonic []string,
+	passphrase string,
 	vault *domain.Vault,
-	unspents []domain.Unspent,
 	markets []*domain.Market,
 ) error {
 	if _, err := w.repoManager.RunTransaction(
 		ctx,
 		false,
 		func(ctx context.Context) (interface{}, error) {
-			// update changes to vault
+			// create the vault and update changes to it
+			if _, err := w.repoManager.VaultRepository().GetOrCreateVault(
+				ctx, mnemonic, passphrase, w.network,
+			); err != nil {
+				return nil, fmt.Errorf("unable to create the vault: %s", err)
+			}
 			if err := w.repoManager.VaultRepository().UpdateVault(
 				ctx,
 				func(v *domain.Vault) (*domain.Vault, error) {
@@ -754,8 +824,14 @@ func (w *walletService) persistRestoredState(
 				return nil, fmt.Errorf("unable to persist changes to the vault repo: %s", err)
 			}
 
-			// update changes to markets
-			for _, m := range markets {
+			// create the markets and update changes to them
+			for i := range markets {
+				m := markets[i]
+				if _, err := w.repoManager.MarketRepository().GetOrCreateMarket(
+					ctx, m,
+				); err != nil {
+					return nil, fmt.Errorf("unable to create the market: %s", err)
+				}
 				if err := w.repoManager.MarketRepository().UpdateMarket(
 					ctx,
 					m.AccountIndex,
@@ -767,11 +843,6 @@ func (w *walletService) persistRestoredState(
 				}
 			}
 
-			// update utxo set
-			if err := w.repoManager.UnspentRepository().AddUnspents(ctx, unspents); err != nil {
-				return nil, fmt.Errorf("unable to persist changes to the unspent repo: %s", err)
-			}
-
 			return nil, nil
 		}); err != nil {
 		return err
@@ -814,10 +885,12 @@ type unspentInfo struct {
 }
 
 func (w *walletService) restoreUnspents(
+	ctx context.Context,
 	info domain.AddressesInfo,
 	chRes chan *InitWalletReply,
 ) ([]domain.Unspent, error) {
-	chUnspentsInfo := make(chan unspentInfo)
+	// the channel must not block the senders in case the receiver quits
+	chUnspentsInfo := make(chan unspentInfo, len(info))
 	unspents := make([]domain.Unspent, 0)
 	cb := circuitbreaker.NewCircuitBreaker()
 	wg := &sync.WaitGroup{}
@@ -832,13 +905,15 @@ func (w *walletService) restoreUnspents(
 		in := info[i]
 		path := strings.Split(in.DerivationPath, "/")
 		addressIndex, _ := strconv.Atoi(path[len(path)-1])
-		chRes <- &InitWalletReply{
+		if err := sendReply(ctx, chRes, &InitWalletReply{
 			AccountIndex: in.AccountIndex,
 			AddressIndex: addressIndex,
 			Status:       Processing,
 			Data: fmt.Sprintf(
 				"account %d index %d", in.AccountIndex, addressIndex,
 			),
+		}); err != nil {
+			return nil, err
 		}
 		go w.restoreUnspentsForAddress(cb, in, chUnspentsInfo, wg)
 		time.Sleep(1 * time.Millisecond)
@@ -853,7 +928,7 @@ func (w *walletService) restoreUnspents(
 
 		path := strings.Split(r.info.DerivationPath, "/")
 		addressIndex, _ := strconv.Atoi(path[len(path)-1])
-		chRes <- &InitWalletReply{
+		if err := sendReply(ctx, chRes, &InitWalletReply{
 			AccountIndex: r.info.AccountIndex,
 			AddressIndex: addressIndex,
 			Status:       Done,
@@ -862,6 +937,8 @@ func (w *walletService) restoreUnspents(
 				r.info.AccountIndex,
 				addressIndex,
 			),
+		}); err != nil {
+			return nil, err
 		}
 	}
 
@@ -1175,13 +1252,12 @@ func initVaultAccount(
 	return addresses, nil
 }
 
-func isAddressFunded(addr string, blindKey []byte, explorerSvc explorer.Service) bool {
+func isAddressFunded(addr string, blindKey []byte, explorerSvc explorer.Service) (bool, error) {
 	txs, err := explorerSvc.GetTransactionsForAddress(addr, blindKey)
 	if err != nil {
-		// should we retry?
-		return false
+		return false, err
 	}
-	return len(txs) > 0
+	return len(txs) > 0, nil
 }
 
 func getBalancesByAsset(unspents []explorer.Utxo) map[string]BalanceInfo {
diff --git a/internal/interfaces/grpc/handler/wallet.go b/internal/interfaces/grpc/handler/wallet.go
index 51b3e73..959ac6c 100644
--- a/internal/interfaces/grpc/handler/wallet.go
+++ b/internal/interfaces/grpc/handler/wallet.go
@@ -115,24 +115,17 @@ func (w walletHandler) initWallet(
 		chErr,
 	)
 
-	for {
-		select {
-		case err := <-chErr:
+	for reply := range chReplies {
+		if err := stream.Send(&pb.InitWalletReply{
+			Account: uint64(reply.AccountIndex),
+			Index:   uint64(reply.AddressIndex),
+			Status:  pb.InitWalletReply_Status(reply.Status),
+			Data:    reply.Data,
+		}); err != nil {
 			return err
-		case reply, ok := <-chReplies:
-			if !ok {
-				return nil
-			}
-			if err := stream.Send(&pb.InitWalletReply{
-				Account: uint64(reply.AccountIndex),
-				Index:   uint64(reply.AddressIndex),
-				Status:  pb.InitWalletReply_Status(reply.Status),
-				Data:    reply.Data,
-			}); err != nil {
-				return err
-			}
 		}
 	}
+	return <-chErr
 }
 
 func (w walletHandler) unlockWallet(
-- 
2.43.0


From 0961aba8b0be27107148e420709f85a08232ae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 29/36] fix: cli: write the state file atomically and refuse a
 corrupted one

An interruption while the state was written left it truncated, and a
corrupted state was read as empty and overwritten, so that the key of the
temporary address of a deposit was lost.
---
 cmd/tdex/main.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cmd/tdex/main.go b/cmd/tdex/main.go
index 799761f..df1a88f 100644
--- a/cmd/tdex/main.go
+++ b/cmd/tdex/main.go
@@ -93,7 +93,11 @@ func getState() (map[string]string, error) {
 	if err != nil {
 		return nil, errors.New("get config state error: try 'config init'")
 	}
-	json.Unmarshal(file, &data)
+	if len(file) > 0 {
+		if err := json.Unmarshal(file, &data); err != nil {
+			return nil, fmt.Errorf("invalid config state file %s: %w", statePath, err)
+		}
+	}
 
 	return data, nil
 }
@@ -124,8 +128,13 @@ func setState(data map[string]string) error {
 	if err != nil {
 		return err
 	}
-	err = ioutil.WriteFile(statePath, jsonString, 0755)
-	if err != nil {
+	// Write to a temporary file first so that an interruption never corrupts the
+	// current state, which may hold the keys of an ephemeral wallet.
+	tmpPath := statePath + ".tmp"
+	if err := ioutil.WriteFile(tmpPath, jsonString, 0755); err != nil {
+		return fmt.Errorf("writing to file: %w", err)
+	}
+	if err := os.Rename(tmpPath, statePath); err != nil {
 		return fmt.Errorf("writing to file: %w", err)
 	}
 
-- 
2.43.0


From 831915414104cc18b3b987e8d5a5361cbc09ef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:16 +0000
Subject: [PATCH 30/36] fix: cli: keep the temporary key of a deposit while
 coins are left at its address

The key was removed from the state after any successful run, also when the
address still held coins of another asset or sent meanwhile.
---
 cmd/tdex/config.go         | 25 ++++++++++++++++++++++++-
 cmd/tdex/fragmentfee.go    |  2 +-
 cmd/tdex/fragmentmarket.go |  2 +-
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/cmd/tdex/config.go b/cmd/tdex/config.go
index 4471a5b..2092890 100644
--- a/cmd/tdex/config.go
+++ b/cmd/tdex/config.go
@@ -5,8 +5,10 @@ import (
 	"errors"
 	"fmt"
 
+	log "github.com/sirupsen/logrus"
 	"github.com/tdex-network/tdex-daemon/pkg/explorer"
 	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
+	"github.com/tdex-network/tdex-daemon/pkg/trade"
 	"github.com/urfave/cli/v2"
 	"github.com/vulpemventures/go-elements/network"
 )
@@ -190,7 +192,28 @@ func getWalletFromState(walletType string) (map[string]string, error) {
 	return wallet, nil
 }
 
-func flushWallet(walletType string) {
+// flushWallet removes the given ephemeral wallet from the state, unless it
+// still owns some coins: its keys are the only way to spend them.
+func flushWallet(
+	walletType string, ephWallet *trade.Wallet, explorerSvc explorer.Service,
+) {
+	unspents, err := explorerSvc.GetUnspents(
+		ephWallet.Address(), [][]byte{ephWallet.BlindingKey()},
+	)
+	if err != nil {
+		log.WithError(err).Warn(
+			"unable to check for coins left at the ephemeral address, its keys are kept",
+		)
+		return
+	}
+	if len(unspents) > 0 {
+		log.Warnf(
+			"%d coin(s) left at address %s, retry specifying txids with --txid",
+			len(unspents), ephWallet.Address(),
+		)
+		return
+	}
+
 	state, _ := getState()
 	walletKey := fmt.Sprintf("%s_wallet", walletType)
 	if _, ok := state[walletKey]; ok {
diff --git a/cmd/tdex/fragmentfee.go b/cmd/tdex/fragmentfee.go
index 2742ae2..eeb4489 100644
--- a/cmd/tdex/fragmentfee.go
+++ b/cmd/tdex/fragmentfee.go
@@ -162,7 +162,7 @@ func fragmentFeeAction(ctx *cli.Context) error {
 		return err
 	}
 
-	flushWallet(walletType)
+	flushWallet(walletType, ephWallet, explorerSvc)
 	log.Info("done")
 	return nil
 }
diff --git a/cmd/tdex/fragmentmarket.go b/cmd/tdex/fragmentmarket.go
index bcc322a..3467e2b 100644
--- a/cmd/tdex/fragmentmarket.go
+++ b/cmd/tdex/fragmentmarket.go
@@ -213,7 +213,7 @@ func fragmentMarketAction(ctx *cli.Context) error {
 		return err
 	}
 
-	flushWallet(walletType)
+	flushWallet(walletType, ephWallet, explorerSvc)
 	log.Info("done")
 	return nil
 }
-- 
2.43.0


From 296f58af16e67a7a7dbcdec6796d6ce185441206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:19 +0000
Subject: [PATCH 31/36] fix: cli: deposit only the unspent coins of the market
 pair

Fragmenting used every output of the given transactions: already spent or
repeated ones made the deposit fail for ever, one that can't be unblinded
crashed the client, and coins of any other asset were deposited to the market
(or lost) regardless of the given quote asset.
---
 cmd/tdex/fragmentfee.go    | 69 ++++++++++++++++++++++++++++++--------
 cmd/tdex/fragmentmarket.go | 53 ++++++++++++++---------------
 2 files changed, 80 insertions(+), 42 deletions(-)

diff --git a/cmd/tdex/fragmentfee.go b/cmd/tdex/fragmentfee.go
index eeb4489..b260f37 100644
--- a/cmd/tdex/fragmentfee.go
+++ b/cmd/tdex/fragmentfee.go
@@ -229,18 +229,14 @@ func findBaseAssetsUnspents(
 	unspents := make([]explorer.Utxo, 0)
 	valuePerAsset := make(map[string]uint64, 0)
 
-	for _, txid := range txids {
-		u, err := getUnspents(explorerSvc, randomWallet, txid)
-		if err != nil {
-			return 0, nil, err
-		}
-		if len(u) > 0 {
-			for _, v := range u {
-				valuePerAsset[v.Asset()] += v.Value()
-				if v.Asset() == baseAssetKey {
-					unspents = append(unspents, v)
-				}
-			}
+	u, err := getUnspents(explorerSvc, randomWallet, txids)
+	if err != nil {
+		return 0, nil, err
+	}
+	for _, v := range u {
+		valuePerAsset[v.Asset()] += v.Value()
+		if v.Asset() == baseAssetKey {
+			unspents = append(unspents, v)
 		}
 	}
 
@@ -323,7 +319,48 @@ func createOutpoints(txid string, numOuts int) []*pboperator.TxOutpoint {
 	return outpoints
 }
 
-func getUnspents(explorerSvc explorer.Service, w *trade.Wallet, txid string) ([]explorer.Utxo, error) {
+// getUnspents returns the coins of the wallet funded by the given transactions
+// that are not spent yet, ie. by a previous interrupted fragmentation.
+func getUnspents(
+	explorerSvc explorer.Service, w *trade.Wallet, txids []string,
+) ([]explorer.Utxo, error) {
+	if len(txids) == 0 {
+		return nil, nil
+	}
+
+	walletUnspents, err := explorerSvc.GetUnspents(
+		w.Address(), [][]byte{w.BlindingKey()},
+	)
+	if err != nil {
+		return nil, err
+	}
+	unspentOutpoints := make(map[string]bool)
+	for _, u := range walletUnspents {
+		unspentOutpoints[fmt.Sprintf("%s:%d", u.Hash(), u.Index())] = true
+	}
+
+	utxos := make([]explorer.Utxo, 0)
+	for _, txid := range txids {
+		u, err := getTxOutputs(explorerSvc, w, txid)
+		if err != nil {
+			return nil, err
+		}
+		for _, v := range u {
+			outpoint := fmt.Sprintf("%s:%d", v.Hash(), v.Index())
+			if unspentOutpoints[outpoint] {
+				utxos = append(utxos, v)
+				// skip it in case the txid is given more than once
+				delete(unspentOutpoints, outpoint)
+			}
+		}
+	}
+
+	return utxos, nil
+}
+
+func getTxOutputs(
+	explorerSvc explorer.Service, w *trade.Wallet, txid string,
+) ([]explorer.Utxo, error) {
 	tx, err := explorerSvc.GetTransaction(txid)
 	if err != nil {
 		return nil, err
@@ -333,7 +370,11 @@ func getUnspents(explorerSvc explorer.Service, w *trade.Wallet, txid string) ([]
 	_, script := w.Script()
 	for i, out := range tx.Outputs() {
 		if bytes.Equal(out.Script, script) {
-			revealed, _ := transactionutil.UnblindOutput(out, w.BlindingKey())
+			revealed, ok := transactionutil.UnblindOutput(out, w.BlindingKey())
+			if !ok {
+				log.Warnf("unable to unblind output %d of tx %s, skipping it", i, txid)
+				continue
+			}
 			var valueCommitment, assetCommitment string
 			if out.IsConfidential() {
 				valueCommitment = hex.EncodeToString(out.Value)
diff --git a/cmd/tdex/fragmentmarket.go b/cmd/tdex/fragmentmarket.go
index 3467e2b..688f729 100644
--- a/cmd/tdex/fragmentmarket.go
+++ b/cmd/tdex/fragmentmarket.go
@@ -124,6 +124,7 @@ func fragmentMarketAction(ctx *cli.Context) error {
 			ephWallet,
 			explorerSvc,
 			baseAssetOpt,
+			quoteAssetOpt,
 			funds,
 		)
 		if err != nil {
@@ -337,40 +338,36 @@ func findAssetsUnspents(
 	randomWallet *trade.Wallet,
 	explorerSvc explorer.Service,
 	baseAssetKey string,
+	quoteAssetKey string,
 	txids []string,
 ) (AssetValuePair, []explorer.Utxo, error) {
 	var assetValuePair AssetValuePair
 	var unspents []explorer.Utxo
-	valuePerAsset := make(map[string]uint64, 0)
 
-	for _, txid := range txids {
-		u, err := getUnspents(explorerSvc, randomWallet, txid)
-		if err != nil {
-			return assetValuePair, nil, err
-		}
-
-		if len(u) > 0 {
-			for _, v := range u {
-				valuePerAsset[v.Asset()] += v.Value()
-			}
-			unspents = append(unspents, u...)
-		}
-	}
-
-	for k, v := range valuePerAsset {
-		if k == baseAssetKey {
-			assetValuePair.BaseAsset = k
-			assetValuePair.BaseValue = v
-		} else {
-			if assetValuePair.QuoteAsset == "" {
-				assetValuePair.QuoteAsset = k
-				assetValuePair.QuoteValue = v
-			} else {
-				if k != assetValuePair.QuoteAsset {
-					log.Warnf("congrats! You just lost %d of asset %s 🎉", v, k)
-				}
-			}
+	allUnspents, err := getUnspents(explorerSvc, randomWallet, txids)
+	if err != nil {
+		return assetValuePair, nil, err
+	}
+
+	// Only the coins of the market pair can be deposited. If the quote asset is
+	// not specified, it's the first one found.
+	for _, u := range allUnspents {
+		switch {
+		case u.Asset() == baseAssetKey:
+			assetValuePair.BaseAsset = u.Asset()
+			assetValuePair.BaseValue += u.Value()
+		case quoteAssetKey == "" || u.Asset() == quoteAssetKey:
+			quoteAssetKey = u.Asset()
+			assetValuePair.QuoteAsset = u.Asset()
+			assetValuePair.QuoteValue += u.Value()
+		default:
+			log.Warnf(
+				"%d of asset %s is not deposited and is left at the ephemeral address",
+				u.Value(), u.Asset(),
+			)
+			continue
 		}
+		unspents = append(unspents, u)
 	}
 
 	if assetValuePair.BaseValue == 0 {
-- 
2.43.0


From 4529e1b2eb1d080d106832d9221a7b6f896b7390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:19 +0000
Subject: [PATCH 32/36] fix: cli: the last fragment of a deposit covers the
 network fees

Otherwise its amount underflowed and the deposit could never be completed.
---
 cmd/tdex/fragmentfee.go    | 33 +++++++++++++++++++++++++++++----
 cmd/tdex/fragmentmarket.go |  7 +++++++
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/cmd/tdex/fragmentfee.go b/cmd/tdex/fragmentfee.go
index b260f37..d2b1345 100644
--- a/cmd/tdex/fragmentfee.go
+++ b/cmd/tdex/fragmentfee.go
@@ -108,9 +108,13 @@ func fragmentFeeAction(ctx *cli.Context) error {
 	}
 
 	log.Info("calculating fragments...")
-	baseFragments := fragmentFeeUnspents(baseAssetValue, MinFee, MaxNumOfOutputs)
-
 	numUnspents := len(unspents)
+	baseFragments, feeAmount, err := fragmentFeeUnspentsWithFees(
+		baseAssetValue, numUnspents,
+	)
+	if err != nil {
+		return err
+	}
 	numFragments := len(baseFragments)
 	log.Infof(
 		"detected %d fund(s) of total amount %d that will be split into %d fragments",
@@ -124,8 +128,6 @@ func fragmentFeeAction(ctx *cli.Context) error {
 		return err
 	}
 
-	feeAmount := estimateFees(numUnspents, numFragments)
-
 	log.Info("crafting transaction...")
 	txHex, err := craftTransaction(
 		ephWallet,
@@ -192,6 +194,29 @@ func fragmentFeeUnspents(
 	return res
 }
 
+// fragmentFeeUnspentsWithFees returns the fragments of the given value along
+// with the network fees, making sure that the last fragment, from which they
+// are deducted, covers them.
+func fragmentFeeUnspentsWithFees(
+	value uint64, numUnspents int,
+) ([]uint64, uint64, error) {
+	fragments := fragmentFeeUnspents(value, MinFee, MaxNumOfOutputs)
+	for len(fragments) > 0 {
+		last := len(fragments) - 1
+		feeAmount := estimateFees(numUnspents, len(fragments))
+		if fragments[last] > feeAmount {
+			return fragments, feeAmount, nil
+		}
+		if last > 0 {
+			fragments[last-1] += fragments[last]
+		}
+		fragments = fragments[:last]
+	}
+	return nil, 0, fmt.Errorf(
+		"funds of total amount %d are not enough to pay for network fees", value,
+	)
+}
+
 func createOutputsForDepositFeeTransaction(
 	baseFragments []uint64,
 	feeAmount uint64,
diff --git a/cmd/tdex/fragmentmarket.go b/cmd/tdex/fragmentmarket.go
index 688f729..940237d 100644
--- a/cmd/tdex/fragmentmarket.go
+++ b/cmd/tdex/fragmentmarket.go
@@ -158,6 +158,13 @@ func fragmentMarketAction(ctx *cli.Context) error {
 	)
 
 	feeAmount := estimateFees(numUnspents, numFragments)
+	if len(baseFragments) == 0 ||
+		baseFragments[len(baseFragments)-1] <= feeAmount {
+		return fmt.Errorf(
+			"base asset amount %d is not enough to pay for network fees",
+			assetValuePair.BaseValue,
+		)
+	}
 
 	if quoteAssetOpt == "" {
 		baseAssetOpt = ""
-- 
2.43.0


From 819eceb45dcdb285acd8c77fcf67e0c49951db25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:17 +0000
Subject: [PATCH 33/36] fix: refuse truncated transactions returned by esplora

---
 pkg/explorer/esplora/transaction.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/explorer/esplora/transaction.go b/pkg/explorer/esplora/transaction.go
index 6571b5b..1793dd8 100644
--- a/pkg/explorer/esplora/transaction.go
+++ b/pkg/explorer/esplora/transaction.go
@@ -4,9 +4,11 @@ import (
 	"encoding/json"
 	"fmt"
 	"net/http"
+	"strings"
 	"sync"
 
 	"github.com/tdex-network/tdex-daemon/pkg/explorer"
+	"github.com/vulpemventures/go-elements/transaction"
 )
 
 func (e *esplora) GetTransaction(hash string) (explorer.Transaction, error) {
@@ -132,6 +134,16 @@ func (e *esplora) getTransactionHex(hash string) (string, error) {
 		return "", fmt.Errorf(resp)
 	}
 
+	// a truncated transaction can still be parsed, with some of its witnesses
+	// missing, so make sure that it is a whole one.
+	tx, err := transaction.NewTxFromHex(resp)
+	if err != nil {
+		return "", fmt.Errorf("invalid transaction: %s", err)
+	}
+	if txHex, err := tx.ToHex(); err != nil || !strings.EqualFold(txHex, resp) {
+		return "", fmt.Errorf("invalid transaction: truncated or malformed")
+	}
+
 	return resp, nil
 }
 
-- 
2.43.0


From 596977372e89f775593e0f21eeaebcb5e39cbdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:09 +0000
Subject: [PATCH 34/36] fix: announce a settled trade only once

---
 internal/core/application/blockchain_listener.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index 326c837..438f388 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -173,22 +173,22 @@ func (b *blockchainListener) listenToEventChannel() {
 				break
 			}
 
+			// the same confirmation can be notified more than once before the
+			// crawler stops watching for the tx, announce the trade only once.
+			isNewlySettled := trade != nil && !trade.IsSettled()
 			if trade != nil {
 				if err := b.settleTrade(&trade.ID, e); err != nil {
 					log.Warnf("trying to settle trade with id %s: %v", trade.ID, err)
 					if err != domain.ErrTradeMustBeCompletedOrAccepted {
 						break
 					}
-					trade = nil
+					isNewlySettled = false
 				}
 			}
-			if err := b.confirmOrAddUnspents(e.TxHex); err != nil {
-				log.Warnf("trying to confirm or add unspents: %v", err)
-				break
-			}
+			unspentsErr := b.confirmOrAddUnspents(e.TxHex)
 
 			// Publish message for topic TradeSettled to pubsub service.
-			if trade != nil && b.pubsubSvc != nil {
+			if isNewlySettled && b.pubsubSvc != nil {
 				go func() {
 					ctx := context.Background()
 					mkt, mktAccount, err := b.repoManager.MarketRepository().GetMarketByAsset(
@@ -259,6 +259,10 @@ func (b *blockchainListener) listenToEventChannel() {
 					}
 				}()
 			}
+			if unspentsErr != nil {
+				log.Warnf("trying to confirm or add unspents: %v", unspentsErr)
+				break
+			}
 			// stop watching for a tx after it's confirmed
 			b.StopObserveTx(e.TxID)
 		}
-- 
2.43.0


From 6d70559f94a4b6b8bd9f326741700e7dc98c5195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:49 +0000
Subject: [PATCH 35/36] fix: settle a trade only once its transaction can be
 recorded

---
 internal/core/application/blockchain_listener.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index 438f388..7b27504 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -3,6 +3,7 @@ package application
 import (
 	"context"
 	"encoding/json"
+	"fmt"
 	"sync"
 	"time"
 
@@ -286,7 +287,12 @@ func (b *blockchainListener) settleTrade(tradeID *uuid.UUID, event crawler.Trans
 		context.Background(),
 		tradeID,
 		func(t *domain.Trade) (*domain.Trade, error) {
-			mustAddTxHex := t.IsAccepted()
+			// a trade settled without being completed, ie. its tx has been
+			// broadcasted by the counter-party, is missing the tx.
+			mustAddTxHex := len(t.TxHex) <= 0
+			if mustAddTxHex && len(event.TxHex) <= 0 {
+				return nil, fmt.Errorf("missing hex of tx %s", event.TxID)
+			}
 			if _, err := t.Settle(uint64(event.BlockTime)); err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 2c703a921d9a6a41cbbee27992ffac2e8d06c174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:49 +0000
Subject: [PATCH 36/36] fix: reload: do not count as spent the outputs of a
 transaction not broadcast yet

---
 internal/core/application/wallet_service.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 94a6c3e..edcf88f 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -1367,6 +1367,18 @@ func fetchAndAddUnspents(
 	if err != nil {
 		return err
 	}
+	// those of a tx not yet in the network, like a withdrawal that the caller
+	// is going to broadcast, can't be found by the explorer but aren't spent.
+	isInNetwork := make(map[string]bool)
+	for _, u := range knownUnspents {
+		if u.IsSpent() || u.IsConfirmed() {
+			continue
+		}
+		if _, ok := isInNetwork[u.TxID]; !ok {
+			_, err := explorerSvc.GetTransactionHex(u.TxID)
+			isInNetwork[u.TxID] = err == nil
+		}
+	}
 
 	unspents, err = fetchUnspents(explorerSvc, info)
 	if err != nil {
@@ -1387,7 +1399,10 @@ func fetchAndAddUnspents(
 	}
 	spentKeys := make([]domain.UnspentKey, 0)
 	for _, u := range knownUnspents {
-		if !u.IsSpent() && !isUnspent[u.Key()] {
+		if u.IsSpent() || isUnspent[u.Key()] {
+			continue
+		}
+		if u.IsConfirmed() || isInNetwork[u.TxID] {
 			spentKeys = append(spentKeys, u.Key())
 		}
 	}
-- 
2.43.0

