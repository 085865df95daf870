"""What each check runs: scenarios, focus of the workload, number of runs."""

REAL = ['application services (operator, wallet, trade, unlocker, blockchain listener)', 'domain', 'badger and badgerhold storage',
        'gRPC handlers and interceptors', 'crawler', 'esplora explorer client and net/http client', 'coin selection',
        'wallet key derivation, transaction building and signing', 'swap and protobuf messages', 'webhook pubsub and circuit breaker',
        'bbolt secure store', 'Go runtime scheduler, timers, channels and locks (seeded)']
STUBS = ['chain and esplora HTTP server: in-memory model', 'trader and operator clients: generated',
         'TCP: in-memory transport', 'confidential commitments and range proofs: openable stand-ins',
         'scrypt: same function, work factor 16; pbkdf2 memoised', 'crypto randomness: seeded stream', 'clock: simulated',
         'daemon main(): assembled by the harness from the same constructors']

ASSUME = ['The simulated chain accepts a transaction iff its inputs are unspent, its signatures verify and values balance per asset; no reorganisations.',
          'A crash loses everything in memory and every file write not yet synced; badger is opened with synchronous writes as shipped.',
          'Instrumentation inserts scheduling points between statements of daemon code; code between two points is executed atomically.']


def w1(runs=600, focus=None, rule='', nontrivial=(), want=(), extra=(), **kw):
    mix = []
    if focus is None:
        mix.append(dict(sc='w1', w=1, force={}))
    else:
        for f, w, force in focus:
            fo = dict(force)
            if f is not None:
                fo['focus'] = f
            mix.append(dict(sc='w1', w=w, force=fo))
    mix += list(extra)
    d = dict(runs=runs, mix=mix, rule=rule, nontrivial=list(nontrivial), want=list(want), assumptions=ASSUME)
    d.update(kw)
    return d


# (focus, weight, forced configuration)
TR = [(1, 5, {}), (0, 2, {}), (4, 1, {}), (6, 1, {})]
PROPS = {
    'C01': w1(focus=[(1, 5, {}), (6, 3, {}), (0, 1, {}), (4, 1, {})], nontrivial=['trades.accepted'],
              rule='at least one swap was accepted', want=['crash', 'db-conflict', 'payments.ok', 'http-lost-reply']),
    'C02': w1(focus=[(1, 7, {}), (0, 2, {})], nontrivial=['trades.accepted'], rule='at least one swap was accepted',
              want=['end.settled', 'end.expired', 'end.accepted-failed', 'self-broadcast', 'crash']),
    'C03': w1(focus=[(1, 5, {}), (2, 2, {}), (0, 2, {})], nontrivial=['trades.accepted|trades.rejected'],
              rule='at least one proposal was answered', want=['trades.rejected', 'price.checked']),
    'C04': w1(focus=[(1, 7, {}), (0, 2, {})], nontrivial=['broadcasts', 'api.complete'],
              rule='a completion was requested and something was broadcast', want=['http-lost-reply', 'completions.refused']),
    'C05': w1(focus=[(1, 4, {}), (1, 4, dict(crashy=1)), (0, 1, dict(crashy=1))], nontrivial=['trades.accepted', 'crash|shutdowns'],
              rule='a swap was accepted and the daemon restarted afterwards', want=['crash', 'crash-torn-write', 'db-error']),
    'C06': w1(focus=[(1, 5, {}), (1, 2, dict(crashy=1)), (0, 2, {})], nontrivial=['trades.accepted'], rule='at least one swap was accepted',
              want=['end.expired', 'end.accepted-failed', 'crash', 'outage']),
    'C07': w1(focus=[(1, 7, {}), (0, 2, {})], nontrivial=['broadcasts', 'trades.accepted'],
              rule='a swap was accepted and a transaction reached the network', want=['self-broadcast', 'outage', 'crash']),
    'C08': w1(focus=[(4, 5, {}), (6, 2, {}), (1, 2, {}), (0, 1, {})], nontrivial=['ok.reload'], rule='a reload succeeded and was compared with the chain',
              want=['payments.ok', 'crash', 'http-truncated', 'http-5xx']),
    'C09': w1(focus=[(3, 5, {}), (3, 2, dict(crashy=1)), (0, 2, {})], nontrivial=['ok.depositmarket|ok.depositfee|ok.walletaddress'],
              rule='addresses were handed out', want=['crash', 'db-conflict']),
    'C10': w1(focus=[(3, 5, {}), (3, 2, dict(crashy=1)), (0, 2, {})], nontrivial=['ok.depositmarket'], rule='a market account was created',
              want=['crash', 'ok.drop', 'ok.claimmarket']),
    'C12': w1(focus=[(5, 7, {}), (0, 2, {})], nontrivial=['ok.unlock'], rule='the wallet was unlocked at least once',
              want=['op.wrongunlock', 'chpass.ok', 'crash']),
    'C13': w1(focus=[(6, 7, {}), (0, 2, {}), (4, 1, {})], nontrivial=['payments.ok|payments.refused'],
              rule='a withdrawal or send was answered', want=['payments.ok', 'payments.refused', 'http-lost-reply']),
    'C14': w1(focus=[(2, 7, {}), (0, 2, {})], nontrivial=['lin.ops'], rule='a settings history was checked for linearizability',
              want=['ok.fee', 'ok.open', 'ok.close', 'ok.strategy', 'ok.drop', 'crash']),
    'C15': w1(focus=[(1, 3, {}), (0, 3, {}), (2, 1, {}), (3, 1, {}), (4, 1, {}), (6, 1, {})], nontrivial=['honest.accepted'],
              rule='a fresh honest trade was attempted after the faults stopped', want=['crash', 'outage', 'end.expired']),
    'C21': w1(focus=[(0, 4, {}), (1, 2, {}), (4, 1, {}), (3, 1, {})], nontrivial=['http.requests'], rule='requests were served', panics=True,
              want=['http-truncated', 'client-cancel', 'db-error', 'fuzz.served'], runs=600, extra=[dict(sc='fuzz', w=8, force={})]),
    'C22': w1(focus=[(1, 3, {}), (0, 3, {}), (2, 2, {})], nontrivial=['api.report', 'trades.accepted'],
              rule='reports were compared with the recorded history and a swap was accepted', want=['ok.fee', 'end.settled', 'crash']),
    'C23': w1(focus=[(0, 2, {}), (0, 2, dict(crashy=1)), (1, 1, dict(crashy=1)), (3, 1, dict(crashy=1)), (5, 2, {})], nontrivial=['crash|shutdowns'],
              rule='the daemon was stopped or crashed and came back', want=['crash', 'crash-torn-write', 'shutdowns', 'boot.failed']),
}

# ---- component scenarios ---------------------------------------------------

STORE_REAL = ['badger repositories and transaction runner (dbbadger)', 'badgerhold and badger v2 (on disk and in memory)', 'domain market, trade, vault and unspent types',
              'Go runtime scheduler, timers, channels and locks (seeded)']
STORE_STUBS = ['application layer: generated operations', 'pbkdf2 memoised, scrypt work factor 16', 'crypto randomness: seeded stream', 'clock: simulated',
               'disk: real files in a scratch directory; writes torn or lost at crashes by the disk model']


def comp(sc, runs, real, stubs, assume=(), **kw):
    d = dict(runs=runs, mix=[dict(sc=sc, w=1, force={})], rule='', nontrivial=[], want=[], assumptions=ASSUME[1:] + list(assume), real=real, stubs=stubs, panics=True)
    d.update(kw)
    return d


PROPS['C16'] = comp('store', 3000, STORE_REAL, STORE_STUBS, nontrivial=['lin.checked', 'lin.ops'],
                    rule='a history of concurrent storage operations was checked against the sequential model',
                    want=['crash', 'db-conflict', 'db-error', 'crash-torn-write', 'shutdowns', 'ok.transaction'])

SEC_REAL = ['encrypted store (boltsecurestore) and kvdb', 'walletdb and bbolt', 'snacl encryption', 'Go runtime scheduler, timers, channels and locks (seeded)']
SEC_STUBS = ['its callers: generated operations', 'scrypt: same function, work factor 16', 'crypto randomness: seeded stream', 'clock: simulated',
             'disk: real files in a scratch directory; page writes not yet synced may be lost or torn at a crash']
PROPS['C17'] = comp('sec', 4000, SEC_REAL, SEC_STUBS, nontrivial=['lin.checked', 'ok.add|ok.change-password|ok.unlock'],
                    rule='a history of concurrent store operations was checked against the sequential model',
                    want=['crash', 'bolt-error', 'ok.change-password', 'shutdowns', 'disk.unsynced_at_crash'])

HOOK_REAL = ['webhook pubsub service', 'circuit breaker (gobreaker)', 'esplora.Client and net/http client', 'encrypted store, walletdb, bbolt, snacl',
             'Go runtime scheduler, timers, channels and locks (seeded)']
HOOK_STUBS = ['webhook endpoints: in-memory model that records every request', 'callers: generated operations (in one run of eight the whole daemon with operator and traders, in one of four its authenticated interfaces)', 'scrypt: same function, work factor 16',
              'crypto randomness: seeded stream', 'clock: simulated', 'disk: real files in a scratch directory with lost and torn page writes at crashes']
PROPS['C18'] = comp('hook', 3600, HOOK_REAL, HOOK_STUBS, nontrivial=['pubs.checked', 'hook.requests'],
                    rule='an event was published (by a caller, or by the whole daemon when a withdrawal was answered or a trade settled) and requests reached an endpoint',
                    want=['crash', 'bolt-error', 'hook-hang', 'hook-5xx', 'ok.unsubscribe', 'shutdowns', 'hook.secured', 'hooks.added', 'lists.checked'])

CRAWL_REAL = ['crawler service, observables and events', 'circuit breaker (gobreaker)', 'token bucket (x/time/rate)', 'Go runtime scheduler, timers, channels and locks (seeded)']
CRAWL_STUBS = ['explorer: answers that are unique, slow, failing or hanging', 'callers and consumer of the events: generated', 'clock: simulated']
PROPS['C20'] = comp('crawl', 4000, CRAWL_REAL, CRAWL_STUBS, nontrivial=['queries.checked', 'liveness.checked|shutdowns'],
                    rule='queries of the crawler were compared with what was added and removed',
                    want=['crash', 'explorer-error', 'explorer-hang', 'shutdowns', 'ok.remove'])

ESP_REAL = ['esplora client', 'net/http client', 'coin selection', 'Go runtime scheduler, timers, channels and locks (seeded)']
ESP_STUBS = ['explorer: in-memory chain model behind an HTTP transport that delays, fails, truncates and garbles', 'callers: generated', 'clock: simulated',
             'confidential proofs: stand-ins of the go-elements functions']
PROPS['C26'] = comp('esp', 4000, ESP_REAL, ESP_STUBS, nontrivial=['calls.checked|selections.checked'],
                    rule='answers of the explorer client or of the coin selection were compared with the chain or the candidates',
                    want=['http-cut', 'http-html', 'http-hang', 'http-lost-reply', 'http-truncated', 'ok.broadcast', 'selections.checked', 'leak.checked'])

LIB_REAL = ['trader library (pkg/trade)', 'esplora client', 'coin selection', 'swap messages', 'transaction building, blinding and signing', 'wallet of the library',
            'Go runtime scheduler, timers, channels and locks (seeded)']
LIB_STUBS = ['liquidity provider: honest, failing or malicious model behind the interface of the gRPC client',
             'explorer: in-memory chain model behind an HTTP transport that delays, fails, truncates and garbles', 'clock: simulated',
             'confidential proofs: stand-ins of the go-elements functions']
PROPS['C25'] = comp('lib', 3000, LIB_REAL, LIB_STUBS, nontrivial=['trades.checked'],
                    rule='the outcome of at least one trade of the library was compared with what the provider answered and the chain holds',
                    want=['signed.real', 'proposals.checked', 'trades.completed', 'prov-steal', 'prov-short', 'prov-nochange', 'prov-redirect', 'http-cut'])

MAC_REAL = ['gRPC service: TLS, connection multiplexer, grpc-web, interceptors, permissions, handlers', 'macaroon service and root key store, walletdb, bbolt, snacl',
            'grpc-go client and server, net/http, crypto/tls', 'wallet service, storage and webhook pubsub behind the interface',
            'Go runtime scheduler, timers, channels and locks (seeded)']
MAC_STUBS = ['TCP: in-memory pipes', 'operator clients: generated', 'explorer: in-memory model', 'scrypt: same function, work factor 16; pbkdf2 memoised',
             'crypto randomness: seeded stream', 'clock: simulated', 'daemon main(): assembled by the harness from the same constructors',
             'disk: real files in a scratch directory; page writes not yet synced and whole-file writes may be lost or torn at a crash']
PROPS['C19'] = comp('mac', 4000, MAC_REAL, MAC_STUBS, nontrivial=['end.checked', 'calls.true', 'calls.false'],
                    rule='calls with and without the right to make them were judged',
                    want=['crash', 'crash-torn-write', 'bolt-error', 'disk-full', 'chpass.ok', 'ok.web', 'shutdowns', 'hooks.checked'])
PROPS['C18']['mix'] = [dict(sc='hook', w=5, force={}), dict(sc='mac', w=2, force={}), dict(sc='w1', w=1, force=dict(focus=7, hooks=1))]

REST_REAL = ['wallet, operator and blockchain listener services', 'gRPC handlers', 'domain', 'badger and badgerhold storage', 'esplora client and net/http client', 'circuit breaker',
             'crawler', 'wallet key derivation', 'Go runtime scheduler, timers, channels and locks (seeded)']
REST_STUBS = ['chain and esplora HTTP server: in-memory model holding a generated history of the seed', 'operator client: generated', 'scrypt: same function, work factor 16; pbkdf2 memoised',
              'confidential commitments and range proofs: openable stand-ins', 'crypto randomness: seeded stream', 'clock: simulated',
              'daemon main(): assembled by the harness from the same constructors', 'disk: real files in a scratch directory; writes torn or lost at crashes by the disk model']
PROPS['C11'] = comp('restore', 1300, REST_REAL, REST_STUBS, nontrivial=['end.checked', 'accounts.funded'],
                    rule='a seed with coins on the chain was restored and everything was compared with the chain',
                    want=['crash', 'client-gone', 'client-cancel', 'http-refused', 'http-hang', 'http-truncated', 'db-error', 'db-conflict', 'err.restore', 'markets.funded', 'coins.alien', 'shutdowns'])

CLI_REAL = ['the command line client cmd/tdex: commands, state file, temporary wallet, transaction building and signing', 'grpc-go client and server', 'gRPC service and handlers of the daemon',
            'operator and wallet services, storage', 'esplora client and net/http client', 'Go runtime scheduler, timers, channels and locks (seeded)']
CLI_STUBS = ['operator at the prompt: generated', 'process of the client (arguments, standard input, exit): simulated', 'TCP: in-memory pipes', 'explorer: in-memory chain model',
             'confidential commitments and range proofs: openable stand-ins', 'crypto randomness: seeded stream', 'clock: simulated',
             'state file: a real file in a scratch directory, its write fails or is torn at a crash']
PROPS['C24'] = comp('cli', 900, CLI_REAL, CLI_STUBS, nontrivial=['end.checked', 'funding.txs', 'txs.checked'],
                    rule='coins sent to a temporary address were moved by the client and followed on the chain',
                    assume=['One command of the client runs at a time; the operator sends coins to the temporary address only while a command waits for them and reruns a failed command with the ids of the transactions that still hold coins.'],
                    want=['cli-crash', 'cli-torn-write', 'cli-disk-full', 'http-lost-reply', 'rpc-lost-reply', 'crash', 'recovered', 'coins.alien', 'deposits'])
