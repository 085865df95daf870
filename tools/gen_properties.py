#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the wording stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

A='internal/core/application/'; D='internal/core/domain/'; B='internal/infrastructure/storage/db/badger/'
p('C01','A coin is committed to at most one live trade or withdrawal',
  'While an accepted swap is live (accepted, not failed by the counter-party, not past its expiry), no coin the daemon contributed to it is contributed to another accepted swap, nor spent by a market withdrawal or wallet send. A coin spent by a broadcast transaction of the daemon is never offered in a swap that is proposed once the daemon has recorded that spend.',
  ['schedules','histories','crash_points'],'Every interleaving of concurrent propose, complete, fail, expiry, withdraw and send requests over any number of traders and markets, with daemon crashes and restarts anywhere.',
  'Tests propose trades one at a time against mocked or idle repositories; no test overlaps two proposals, or a proposal and a withdrawal, between coin selection and locking.',
  [A+'trade_service.go',A+'operator_service.go',A+'wallet_service.go',B+'unspent_repository_impl.go','pkg/explorer/coinselection.go'],
  [('lock of selected unspents by trade id','TradePropose, LockUnspents'),('available = not spent, not locked, confirmed','GetAvailableUnspentsForAddresses')],
  ['swap accept messages returned to traders','raw transactions returned or broadcast for withdrawals'],
  [dict(name='unspent locks',meaning='coin reserved for a trade id',where=B+'unspent_repository_impl.go')])
p('C02','The status of a trade only ever moves forward',
  'Observed over time, a trade moves only along proposal, accepted, completed, settled (or to failed/expired from proposal, accepted or completed), and a settled trade stays settled for ever. A trade that failed or expired never becomes accepted or completed again; it may only become settled because its swap transaction was confirmed on chain. Its identity, agreed swap terms and swap messages never change once set.',
  ['schedules','histories','crash_points'],'All overlaps of complete, fail, expiry timer, confirmation event and persistence of earlier steps for the same trade, including duplicated and stale client messages.',
  'Unit tests drive one transition at a time on an in-memory trade; they never overlap the asynchronous persistence of one step with the next step.',
  [D+'trade_service.go',A+'trade_service.go',A+'blockchain_listener.go',B+'trade_repository_impl.go'],
  [('guards in the trade state machine','Propose/Accept/Complete/Fail/Expire/Settle'),('transactional update','UpdateTrade')],
  ['trade listing of the operator interface','trade repository reads'])
p('C03','Only swaps that respect the market are accepted',
  'A swap is accepted only if the market is open, the two swapped assets are the two assets of that market in the direction of the requested trade type, and the amounts are within the configured slippage of what the market quotes at some moment while the proposal is processed. For a proposal that funds what it offers, the accepted transaction spends the trader inputs as proposed, pays the trader exactly the requested amount, pays the proposed amount to a fresh market address, returns every surplus to the daemon, and takes nothing from the trader beyond the proposal and nothing but network fees from the fee account.',
  ['inputs','schedules','histories'],'Every proposal (honest, dishonest, malformed) at every point of the life of a market: before it is open, while it is being opened, closed, re-priced or withdrawn from.',
  'Tests propose well-formed trades on open markets with fixed balances only.',
  [A+'trade_service.go','pkg/wallet/transaction.go','pkg/wallet/blind.go',D+'market_service.go','pkg/swap/swap.go'],
  [('price check against preview','isValidTradePrice'),('swap transaction construction','fillProposal, UpdateSwapTx, UpdateTx')],
  ['accept/reject reply for a swap request','transaction carried by the accept message'])
p('C04','Only the agreed, still valid swap transaction is ever broadcast',
  'When a trader completes a trade, the daemon broadcasts a transaction only if it is a fully signed version of exactly the swap transaction it accepted for that trade, and only if the trade is neither failed nor expired. A completion reported as successful returns the id of the accepted transaction, which the explorer has taken; if the explorer refuses it or is unreachable the completion is reported as failed and may be retried until expiry. The transaction recorded for a completed trade is the one accepted by the network.',
  ['inputs','fault_sequences','schedules'],'All completion messages (genuine, tampered, foreign, duplicated, late), all explorer outcomes of the broadcast including lost replies and timeouts, any overlap with failure and expiry.',
  'The tests complete one honest trade against an always successful mock explorer.',
  [A+'trade_service.go',D+'trade_service.go','pkg/swap/complete.go','pkg/explorer/esplora/transaction.go'],
  [('validation of the completed transaction','Trade.Complete, swap.Complete'),('broadcast through the explorer client','BroadcastTransaction')],
  ['transactions arriving at the explorer','reply of the complete request','trade repository reads'])
p('C05','An accepted or completed trade survives a crash',
  'Once the trader has received the acceptance of a swap, a daemon that crashes at any later moment still knows that trade, its agreed terms, its expiry and the coins reserved for it after restart, so that the trader can complete or fail it. Once a trade has been observed completed, failed, expired or settled on storage it still is after any restart.',
  ['crash_points','schedules','fault_sequences'],'A crash at every point after the reply is handed out, including while other requests are in progress.',
  'No test restarts the daemon, and persistence happens outside of the request that is answered.',
  [A+'trade_service.go',B+'db_manager.go',B+'trade_repository_impl.go',B+'unspent_repository_impl.go'],
  [('transactional persistence of trade, vault and locks','TradePropose, RunTransaction')],
  ['trade and utxo listings before and after a restart','complete request after restart'])
p('C06','Coins reserved for a trade are always released',
  'For every accepted swap that does not reach the chain, because it is failed by the counter-party, because it expires, or because its broadcast is refused, the coins reserved for it become available again within a bounded time after its expiry, whatever restarts or explorer errors happened in between. They are not released while the swap is still live, and no coin stays reserved for a swap that was not accepted.',
  ['schedules','fault_sequences','crash_points','histories'],'All histories of trades abandoned by traders, with explorer outages, storage errors and restarts before, at and after expiry; liveness is asserted once faults stop.',
  'Tests never let a trade expire nor restart the daemon while a trade is pending.',
  [A+'trade_service.go',B+'unspent_repository_impl.go'],
  [('expiry timer and unlock','checkTradeExpiration'),('unlock on failure','tradeFail, unlockUnspentsForTrade')],
  ['utxo listing (locked coins)','subsequent proposals'])
p('C07','A swap confirmed on chain is eventually settled',
  'Once the swap transaction of an accepted trade, sent to the network before the trade failed or expired, is confirmed and the explorer answers, the trade is eventually reported as settled with the time of the confirming block and its transaction, whatever explorer errors, wallet locks, pauses or restarts happened in between. A trade is never reported settled unless its swap transaction is confirmed.',
  ['fault_sequences','schedules','crash_points'],'Any pattern of explorer failures and delays followed by a fault-free suffix, trades completed through the daemon or broadcast by the trader, restarts at any point.',
  'The listener and crawler tests use an explorer that never fails and no restart.',
  [A+'blockchain_listener.go','pkg/crawler/observable.go','pkg/crawler/service.go'],
  [('periodic observation of transactions','crawler'),('settlement on confirmation','settleTrade')],
  ['trade listing','block times of the chain'])
p('C08','The daemon’s view of its coins converges to the chain',
  'After activity and faults stop and a reload of coins is requested, the balances and unspent coins reported for every account are exactly those the chain holds for its addresses, with their true asset, value and confirmation state. Coins it then knows as unconfirmed become confirmed without another reload. Before that, what a successful request of the daemon’s own has spent and created, and what a settled swap has spent, is recorded, unless a reload was under way; the change of a withdrawal made for its caller to broadcast is not lost by a reload that precedes the broadcast; and the daemon never lists a coin it does not own on the chain, never counts a coin twice, and never offers in a swap or spends in a market withdrawal a coin that the chain has not confirmed or that it has itself recorded as spent.',
  ['histories','fault_sequences','crash_points','schedules'],'All histories of deposits, claims, trades, withdrawals, sends and reloads with explorer failures and restarts.',
  'Repository tests check single operations; nothing compares the daemon with a chain over a history.',
  [A+'operator_service.go',A+'wallet_service.go',A+'blockchain_listener.go',B+'unspent_repository_impl.go'],
  [('bookkeeping of outputs and inputs of own transactions','extractUnspentsFromTxAndUpdateUtxoSet, confirmOrAddUnspents'),('reload from explorer','ReloadUtxos')],
  ['utxo listing','balance queries'])
p('C09','Addresses handed out are unique, owned and never forgotten',
  'No address (deposit, change or swap output) is ever handed out or used twice for different requests, even concurrently and across restarts. Every address returned to a caller belongs to the wallet under the recorded derivation path, is listed among the addresses of its account after any crash, and funds sent to it can be claimed and spent.',
  ['schedules','crash_points','histories'],'Concurrent deposits, address requests, proposals and withdrawals with crashes and restarts anywhere.',
  'Address derivation is tested sequentially on one in-memory vault.',
  [A+'operator_service.go',A+'wallet_service.go',A+'trade_service.go',D+'vault_service.go',B+'vault_repository_impl.go'],
  [('next-index derivation persisted with the vault','DeriveNext*AddressForAccount, UpdateVault')],
  ['addresses returned by deposit and wallet requests','outputs of accepted swaps and withdrawals','address listing after restart'])
p('C10','Each market owns its account exclusively',
  'Two different markets never share an account, an asset pair or an address, and creating, funding and dropping markets concurrently or around a crash never merges, loses or re-targets one. A market whose deposit addresses were handed out exists and can be funded by claiming deposits to these addresses; claiming never credits coins to an account that does not own them.',
  ['schedules','histories','crash_points','inputs'],'Concurrent market creations, claims with genuine, foreign, unconfirmed or duplicated outpoints, drops, crashes and restarts.',
  'Tests create one market at a time and wait between steps.',
  [A+'operator_service.go',B+'market_repository_impl.go',D+'market_service.go'],
  [('account allocation for new markets','DepositMarket, GetLatestMarket'),('claim matching of outpoints to accounts','claimDeposit, FundMarket')],
  ['market listing','addresses returned per market','utxo listing per account'])
p('C11','Restoring from the seed recovers the whole wallet or fails cleanly',
  'Restoring a wallet from its mnemonic on an empty data directory recovers every account, address (within the documented gap of 20) and coin that the chain knows for that seed, so that balances equal those on the chain. If the explorer fails during the restore, the restore either still recovers everything or reports an error, and can then be retried until it succeeds; it never silently recovers only a part.',
  ['fault_sequences','histories','crash_points'],'All patterns of explorer failure, client disconnect and crash during the restore of wallets produced by arbitrary histories.',
  'Restore is tested once against a mock that never fails.',
  [A+'wallet_service.go'],
  [('gap-limit scan','restoreAccount'),('persist of restored state','persistRestoredState')],
  ['reply stream of init','balances, utxos and markets after restore'])
p('C12','Funds move only with an unlocked wallet and the right passphrase',
  'After start the wallet is locked until it is unlocked with the current passphrase; while locked no swap is accepted and no transaction is signed, and a wrong passphrase never unlocks it. The passphrase changes only when the right current one is given, afterwards only the new one unlocks the wallet, and a crash or overlap with other requests leaves exactly one of the two passphrases valid. Neither seed nor passphrase is ever stored in clear.',
  ['schedules','crash_points','histories'],'All interleavings of unlock, change-password, init and fund-moving requests with right and wrong passphrases, and crashes at any point.',
  'Vault tests exercise lock and unlock on a single in-memory object.',
  [A+'wallet_service.go',D+'vault_service.go','pkg/securestore/bolt/store.go','pkg/macaroons/store.go'],
  [('encrypted mnemonic, in-memory unlocked mnemonic','Vault.Unlock/ChangePassphrase')],
  ['replies of unlock, change-password and fund-moving requests','bytes of the data directory'])
p('C13','Withdrawals and sends pay exactly what was asked, from the right account',
  'A successful market withdrawal or wallet send produces one valid transaction that pays exactly the requested amounts to the requested address, spends only coins of the requested account (plus fee-account coins for network fees), and returns every surplus to change addresses of the same accounts. If it is reported as failed nothing has left the wallet, unless the network took a transaction whose broadcast reply was lost; when the caller asks not to push, nothing is broadcast.',
  ['inputs','schedules','fault_sequences','histories'],'All amounts and coin sets, explorer failures at the broadcast, concurrent trades and withdrawals, restarts.',
  'Withdraw tests use one fixed coin set and a mock explorer that always succeeds.',
  [A+'operator_service.go',A+'wallet_service.go','pkg/wallet/transaction.go','pkg/explorer/coinselection.go'],
  [('transaction construction','sendToMany, UpdateTx'),('selection of coins','SelectUnspents')],
  ['raw transaction returned','transactions arriving at the explorer'])
p('C14','Market settings behave like one sequential object',
  'Every history of concurrent requests that open, close, re-price, change fees, change strategy or drop a market is equivalent to some sequential order of them consistent with real time: an acknowledged change is visible to every later read and is never lost, undone by an unrelated change, or only half applied, also across restarts. Fees change only while the market is closed.',
  ['schedules','histories','crash_points'],'All interleavings of two or more operator requests on the same or different markets, with restarts.',
  'Each operator test performs one request at a time.',
  [A+'operator_service.go',B+'market_repository_impl.go',D+'market_service.go'],
  [('read-modify-write of the market','UpdateMarket, OpenMarket, CloseMarket, UpdatePrices')],
  ['market listing','tradable market list and quoted prices'])
p('C15','An honest trade on an open, funded market goes through',
  'When the wallet is unlocked, a market is open and it and the fee account are funded with confirmed coins, a trader who asks for a price and proposes and completes a swap at that price, with no faults and no competing request in between, gets it accepted, broadcast and settled. This remains so after any history of earlier trades, failures, expirations, withdrawals, faults and restarts.',
  ['histories','fault_sequences','crash_points'],'Any history with faults followed by a fault-free suffix in which a fresh honest trade is attempted.',
  'Tests check single calls with fixed fixtures, never the ability to serve after a long faulty history.',
  [A+'trade_service.go',A+'blockchain_listener.go','pkg/wallet/transaction.go'],
  [('whole trade pipeline','GetMarketPrice, TradePropose, TradeComplete, settle')],
  ['replies to the trader','trade listing'])
p('C16','Storage transactions are atomic, isolated and durable',
  'A group of updates run as one storage transaction is applied completely or not at all, also when it is retried after a conflict, fails half-way, or the process crashes; acknowledged writes survive a crash. Concurrent read-modify-write updates of the same vault, market, trade or set of coins never lose one another, and a coin lock is granted to one trade only.',
  ['schedules','crash_points','fault_sequences','histories'],'All interleavings of concurrent transactions and single updates over the same keys with injected conflicts, handler errors, storage errors and crashes.',
  'Repository tests run one operation at a time on an in-memory store without conflicts or crashes.',
  [B+'db_manager.go',B+'trade_repository_impl.go',B+'market_repository_impl.go',B+'unspent_repository_impl.go',B+'vault_repository_impl.go','internal/core/ports/db.go'],
  [('transaction runner with conflict retry','RunTransaction'),('update closures','UpdateX')],
  ['repository reads'])
p('C17','The encrypted store is linearizable, sealed and crash-atomic',
  'The encrypted key-value store returns exactly the last acknowledged value of each key in each bucket under any concurrent use, refuses reads and writes while locked, keeps no value and no passphrase in clear on disk, and once locked unlocks only with the right passphrase. A change of passphrase interrupted by an error or crash leaves all data readable with exactly one of the two passphrases.',
  ['schedules','crash_points','fault_sequences','histories'],'All interleavings of add, get, list, remove, lock, unlock and change-password over several buckets, injected write errors and crashes at any point.',
  'Store tests run a fixed sequential script.',
  ['pkg/securestore/bolt/store.go','pkg/securestore/kvdb/backend.go'],
  [('per-bucket sealing key and bolt transactions','securestore/bolt/store.go')],
  ['store API replies','bytes of the database file'])
p('C18','Webhooks fire for their topic while registered, and only then',
  'Every event published for a topic causes a request to each endpoint that was registered for it (or for all topics) before the publication and not removed meanwhile, exactly once per publication and authenticated with the hook’s secret if it has one, unless the endpoint or network fails; endpoints not registered for it, or whose removal was acknowledged before, are never called. Every successful market withdrawal and every settled trade is published once, with its true amounts, market and transaction, and nothing else is. Registrations and removals made concurrently or before a restart or passphrase change are neither lost nor resurrected, and one failing endpoint does not prevent the notification of others while it fails occasionally.',
  ['schedules','fault_sequences','histories','crash_points'],'All interleavings of add, remove, list and publish with endpoint failures and restarts.',
  'Webhook tests register, invoke and remove hooks one after the other with healthy endpoints.',
  ['internal/infrastructure/pubsub/webhook/service.go','internal/infrastructure/pubsub/webhook/store.go','internal/core/application/blockchain_listener.go','internal/core/application/operator_service.go','pkg/circuitbreaker/circuitbreaker.go'],
  [('hook store and per-action index','addHookByAction/removeHookByAction'),('delivery','invokeWebhooksForAction')],
  ['requests received by the endpoints','webhook listing'])
p('C19','Operator calls need a valid macaroon for that call',
  'With authentication on, a request on the operator interface is executed only if it carries a macaroon minted by this daemon whose permissions and caveats allow that call at that moment; missing, foreign, tampered, expired or insufficient ones are refused without effect, and the trade interface needs none. Macaroons handed out stay valid across restarts and passphrase changes, and after any crash during set-up the daemon ends up, once unlocked, with a complete set of working macaroon files.',
  ['inputs','crash_points','histories','schedules'],'All methods of all services crossed with all macaroon kinds and caveats, interleaved with init, unlock, change-password, crash and restart.',
  'Macaroon tests validate a few tokens in a single process without restart or fault.',
  ['internal/interfaces/grpc/service.go','internal/interfaces/grpc/interceptor/auth.go','internal/interfaces/grpc/permissions/permissions.go','internal/interfaces/grpc/macaroon_utils.go','pkg/macaroons/service.go','pkg/macaroons/store.go'],
  [('interceptor chain','interceptor/auth.go'),('permission table','permissions.go'),('root key store','macaroons/store.go')],
  ['gRPC status of each call','effects seen through services','macaroon files on disk'])
p('C20','The crawler keeps observing exactly what it was told to',
  'From the moment an address or transaction is added until it is removed or the crawler stops, the crawler queries the explorer for it again and again and reports what the explorer says, also after errors, timeouts and slow answers; after its removal at most the query in flight is still reported, and what was never added is never queried. Adding, removing, starting and stopping concurrently never panics, deadlocks or leaks observers.',
  ['schedules','fault_sequences','histories'],'All interleavings of start, add, remove and stop from several threads with slow or failing explorer answers and slow event consumers.',
  'The crawler test adds and removes a few observables with fixed sleeps and no errors.',
  ['pkg/crawler/service.go','pkg/crawler/observable.go',A+'blockchain_listener.go'],
  [('observer goroutines with tickers','observableHandler'),('registry under mutex','blockchainCrawler')],
  ['explorer queries per key','events on the event channel'])
p('C21','No input or fault takes the daemon down or wedges it',
  'No sequence of client requests, well-formed or not, no explorer answer, and no storage or network error makes the daemon panic, deadlock, or stop serving; each request is answered in bounded time once the explorer answers. In particular a request that is refused leaves the daemon able to serve the next one.',
  ['inputs','fault_sequences','schedules'],'All request sequences including malformed messages, all explorer responses including garbage and truncated bodies, errors at any call.',
  'Tests send a handful of invalid requests to single functions.',
  [A+'trade_service.go','internal/interfaces/grpc/handler/trade.go','internal/interfaces/grpc/handler/operator.go','internal/interfaces/grpc/handler/wallet.go','pkg/explorer/esplora/transaction.go','pkg/swap/swap.go'],
  [('validation in handlers and services','grpc/handler, application')],
  ['panics of the process','pending requests at the end of a run'])
p('C22','Trade and fee reports match what happened',
  'At any moment the operator’s list of trades contains exactly the swaps proposed to the daemon with the terms and fees in force when each was proposed, and every completed or settled trade of a market (and no other) appears once in that market’s report of collected fees, with the fee its terms imply. Totals equal the sum of the entries.',
  ['histories','schedules','crash_points'],'All histories of trades in several markets with fee changes, failures, expirations and restarts in between.',
  'Report tests use one prepared list of trades.',
  [A+'operator_service.go',B+'trade_repository_impl.go','internal/interfaces/grpc/handler/operator.go'],
  [('report over stored trades','GetCollectedMarketFee, ListTrades')],
  ['replies of trade listing and fee report'])
p('C23','The daemon always comes back after a crash or shutdown',
  'After a crash at any moment, or an orderly shutdown, the daemon starts again on the same data directory without manual repair, unlocks with the current passphrase, and answers every read request with the acknowledged state, the coins the chain still holds for its addresses included. An orderly shutdown terminates in bounded time even with observers, timers and requests in progress.',
  ['crash_points','schedules','fault_sequences'],'A crash or stop at any point of any workload, repeated, with explorer failures during start.',
  'No test stops and restarts a daemon.',
  ['cmd/tdexd/main.go',B+'db_manager.go',A+'wallet_service.go',A+'blockchain_listener.go','pkg/crawler/service.go'],
  [('start-up reload','newWalletService, fetchAndAddUnspents'),('shutdown sequence','stop')],
  ['outcome of start, unlock and reads after restart'])
p('C24','Fragmenting deposits never strands funds',
  'Funds sent to the temporary address of the deposit-fragmenting commands always end up, minus network fees, in addresses of the daemon’s market or fee account or remain recoverable by running the command again: an interruption, explorer failure or crash of the command at any point never loses the temporary key before the funds are moved, never sends funds elsewhere, and never deposits more fragments than funded.',
  ['crash_points','fault_sequences','inputs'],'Crash or explorer/daemon error at any step of the command and any set of funding coins.',
  'The commands are not covered by tests beyond the fragmentation arithmetic.',
  ['cmd/tdex/fragmentfee.go','cmd/tdex/fragmentmarket.go','cmd/tdex/config.go'],
  [('state file with ephemeral key','setState/getState'),('craft and broadcast of the fragmenting transaction','craftTransaction')],
  ['state file of the CLI','transactions arriving at the explorer'])
p('C25','The trader library never gives away more than agreed',
  'A trader using the client library signs and sends a completion only for a swap transaction that spends its coins as proposed and pays it the requested amount, whatever the provider answers; otherwise it returns an error and its coins are untouched. Provider or network errors are reported as errors, never as a successful trade.',
  ['inputs','fault_sequences'],'All answers of a malicious or failing provider and all explorer failures during a trade.',
  'Client tests run against an honest live daemon only.',
  ['pkg/trade/buy.go','pkg/trade/sell.go','pkg/trade/wallet.go','pkg/trade/preview.go','pkg/trade/client/trade_propose.go','pkg/trade/client/trade_complete.go','pkg/swap/complete.go'],
  [('validation of the accept message before signing','Wallet.Sign / ValidateCompletePset')],
  ['completion messages received by the provider','return values of the library'])
p('C26','Explorer answers are complete and correct or an error',
  'What the explorer client returns for a set of addresses or for a transaction is exactly what the explorer holds, unblinded with the right keys, or an error: a failed, timed-out, truncated or garbled answer never makes coins or transactions disappear, never confirms anything and never crashes the caller (a coin whose confirmation cannot be asked counts as unconfirmed until the next query); a successful broadcast returns the id of the transaction; and no request, answered or failed, leaves goroutines behind. Selecting coins returns distinct coins of the candidates that cover the target with the exact change, whenever the candidates suffice, in bounded time and also when used concurrently.',
  ['fault_sequences','schedules','inputs'],'All failure patterns over the sub-requests of an explorer call and all interleavings of concurrent calls.',
  'Explorer tests need a live regtest node and never inject failures or overlap calls.',
  ['pkg/explorer/esplora/unspents.go','pkg/explorer/esplora/transaction.go','pkg/explorer/esplora/client.go','pkg/explorer/coinselection.go'],
  [('fan-out of sub-requests','GetUnspentsForAddresses'),('coin selection','SelectUnspents')],
  ['return values of the explorer service'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
