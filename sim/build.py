#!/usr/bin/env python3
"""Builds the simulation binary from the current tree of the repository.

Everything goes through `go test -overlay`: runtime patches that make the Go
scheduler deterministic, scheduling points inserted in the daemon's packages,
stand-ins for the expensive cryptography, and the harness itself as a virtual
package of the repository's module.  The repository is not modified.
"""
import glob, json, os, re, subprocess, sys, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
GOROOT = '/opt/veriftools/go1.27.3'
MODCACHE = '/root/go/pkg/mod'
MOD = 'github.com/tdex-network/tdex-daemon'

# packages of the repository that get scheduling points (relative dirs)
INSTR = [
    'internal/core/application', 'internal/core/domain',
    'internal/infrastructure/storage/db/badger',
    'internal/infrastructure/pubsub/webhook',
    'internal/interfaces/grpc', 'internal/interfaces/grpc/handler',
    'internal/interfaces/grpc/interceptor', 'internal/interfaces/grpc/permissions',
    'pkg/crawler', 'pkg/explorer', 'pkg/explorer/esplora',
    'pkg/securestore/bolt', 'pkg/securestore/kvdb', 'pkg/macaroons',
    'pkg/circuitbreaker', 'pkg/trade', 'pkg/trade/client',
]


class BuildError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.update(PATH=GOROOT + '/bin:' + e.get('PATH', ''), GOFLAGS='-mod=mod', GOPROXY='off',
             GOSUMDB='off', GOTOOLCHAIN='local', GONOSUMDB='*', GONOSUMCHECK='1', GOGC='800', CGO_CFLAGS='-O0')
    e.setdefault('GOCACHE', '/root/.cache/go-build')
    e.setdefault('HOME', '/root')
    return e


def sub(src, old, new, count=1):
    if src.count(old) != count:
        raise BuildError('patch does not apply (%d matches): %r' % (src.count(old), old))
    return src.replace(old, new)


def patch_runtime(w, overlay):
    R = GOROOT + '/src/'

    def patch(rel, subs):
        s = open(R + rel).read()
        for a in subs:
            s = sub(s, *a)
        dst = os.path.join(w, 'rt_' + rel.replace('/', '_'))
        open(dst, 'w').write(s)
        overlay[R + rel] = dst

    # a per-goroutine tag inherited by child goroutines
    patch('runtime/runtime2.go', [
        ('\tcoroarg *coro // argument during coroutine transfers\n',
         '\tcoroarg *coro // argument during coroutine transfers\n\tverifTag unsafe.Pointer\n'),
        # a goroutine waiting for a mutex counts as blocked: simulated time
        # may pass while the holder sleeps
        ('\twaitReasonSelectNoCases:         true,\n\twaitReasonSleep:                 true,\n',
         '\twaitReasonSelectNoCases:         true,\n\twaitReasonSleep:                 true,\n'
         '\twaitReasonSyncMutexLock:         true,\n\twaitReasonSyncRWMutexRLock:      true,\n'
         '\twaitReasonSyncRWMutexLock:       true,\n'),
    ])
    patch('runtime/proc.go', [
        ('\t\tnewg.bubble = callergp.bubble\n\t\tif mp.curg != nil {\n\t\t\tnewg.labels = mp.curg.labels\n',
         '\t\tnewg.bubble = callergp.bubble\n\t\tif mp.curg != nil {\n\t\t\tnewg.labels = mp.curg.labels\n\t\t\tnewg.verifTag = mp.curg.verifTag\n'),
        ('\tgp.param = nil\n\tgp.labels = nil\n\tgp.timer = nil\n',
         '\tgp.param = nil\n\tgp.labels = nil\n\tgp.verifTag = nil\n\tgp.timer = nil\n'),
        # fairness between run queues must not depend on scheduler ticks
        # spent on goroutines outside of the simulation
        ('\tif pp.schedtick%61 == 0 && !sched.runq.empty() {\n', '\tif verifGlobalFirst(pp.schedtick) && !sched.runq.empty() {\n'),
        ('\tgp.preempt = false\n\tgp.stackguard0 = gp.stack.lo + stackGuard\n\tif !inheritTime {\n',
         '\tgp.preempt = false\n\tgp.stackguard0 = gp.stack.lo + stackGuard\n\tif gp.bubble != nil {\n\t\tverifTick++\n\t}\n\tif !inheritTime {\n'),
        # no time-slice preemption, no hand-off of the processor in system calls
        ('func retake(now int64) uint32 {\n\tn := 0\n', 'func retake(now int64) uint32 {\n\tif verifRandOn != 0 {\n\t\treturn 0\n\t}\n\tn := 0\n'),
    ])
    # every random choice of the runtime made on behalf of simulated
    # goroutines comes from one seeded stream
    patch('runtime/rand.go', [
        ('func rand() uint64 {\n\t// Note: We avoid acquirem',
         'func rand() uint64 {\n\tif verifRandOn != 0 {\n\t\treturn verifRandNext()\n\t}\n\t// Note: We avoid acquirem'),
        # maps made while packages are initialised, on whichever thread
        ('func maps_rand() uint64 {\n', 'func maps_rand() uint64 {\n\tif verifRandOn == 0 {\n\t\treturn 0x9e3779b97f4a7c15\n\t}\n'),
        ('func bootstrapRand() uint64 {\n', 'func bootstrapRand() uint64 {\n\tif verifFixed {\n\t\tverifBoot += 0x9e3779b97f4a7c15\n\t\treturn verifBoot\n\t}\n'),
    ])
    patch('runtime/select.go', [('j := cheaprandn(uint32(norder + 1))', 'j := verifRandn(uint32(norder + 1))')])
    patch('runtime/time.go', [('t.rand = cheaprand()', 't.rand = verifRand32()')])
    patch('runtime/sema.go', [
        ('func internal_sync_nanotime() int64 {\n\treturn nanotime()\n',
         'func internal_sync_nanotime() int64 {\n\tif verifRandOn != 0 {\n\t\treturn 0\n\t}\n\treturn nanotime()\n'),
    ])
    # a forced collection stops the world at a moment that depends on real time
    patch('runtime/mgc.go', [('func GC() {\n', 'func GC() {\n\tif verifRandOn != 0 {\n\t\treturn\n\t}\n')])
    dst = os.path.join(w, 'rt_verif.go')
    open(dst, 'w').write('''package runtime

import "unsafe"

const verifFixed = true

var verifBoot uint64 = 0x1234567
var verifRandOn uint32
var verifRandState uint64

// VerifSeed switches the runtime to deterministic choices drawn from seed.
func VerifSeed(seed uint64) { verifRandState = seed; verifRandOn = 1 }

// VerifUnseed switches back.
func VerifUnseed() { verifRandOn = 0 }

//go:nosplit
func verifInSim() bool {
	mp := getg().m
	return mp != nil && mp.curg != nil && mp.curg.bubble != nil
}

//go:nosplit
func verifRandNext() uint64 {
	if !verifInSim() {
		// goroutines outside of the simulation must not consume the stream
		verifOut += 0x9e3779b97f4a7c15
		return verifOut * 0xbf58476d1ce4e5b9
	}
	verifRandState += 0x9e3779b97f4a7c15
	z := verifRandState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

var verifOut uint64

//go:nosplit
func verifRand32() uint32 {
	if verifRandOn == 0 {
		return cheaprand()
	}
	return uint32(verifRandNext() >> 16)
}

//go:nosplit
func verifRandn(n uint32) uint32 {
	if verifRandOn == 0 {
		return cheaprandn(n)
	}
	return uint32((uint64(uint32(verifRandNext()>>16)) * uint64(n)) >> 32)
}

var verifTick uint64

//go:nosplit
func verifGlobalFirst(tick uint32) bool {
	if verifRandOn == 0 {
		return tick%61 == 0
	}
	z := verifTick * 0x9e3779b97f4a7c15
	return (z^(z>>29))>>7&3 == 0
}

// VerifTag returns the tag of the current goroutine.
func VerifTag() unsafe.Pointer { return getg().verifTag }

// VerifSetTag sets the tag of the current goroutine.
func VerifSetTag(p unsafe.Pointer) { getg().verifTag = p }
''')
    overlay[R + 'runtime/verif.go'] = dst


# modules that are copied, patched and used through `replace` directives
def patch_deps(w, tree):
    """returns {module path: directory of the patched copy}"""
    res = {}

    def ver(path):
        r = subprocess.run([GOROOT + '/bin/go', 'list', '-m', '-f', '{{.Dir}}', path], cwd=tree, env=goenv(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        d = r.stdout.decode().strip()
        if r.returncode or not os.path.isdir(d):
            raise BuildError('cannot locate module ' + path + ' ' + r.stderr.decode())
        return d

    def copy(path, files):
        d = ver(path)
        dst = os.path.join(w, 'mods', path.replace('/', '_'))
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(d, dst, ignore=shutil.ignore_patterns('testdata', '*_test.go', '.git*'))
        subprocess.run(['chmod', '-R', 'u+w', dst], check=True)
        for rel, subs in files.items():
            f = os.path.join(dst, rel)
            if isinstance(subs, str):
                shutil.copy(subs, f)
                continue
            t = open(f).read()
            for old, new in subs:
                t = sub(t, old, new, t.count(old) or 1)
            open(f, 'w').write(t)
        res[path] = dst

    IMP = 'import verifsimrt "%s/verifsimrt"\n' % MOD
    # the same key derivation with a small work factor
    copy('golang.org/x/crypto', {'pbkdf2/pbkdf2.go': [
        ('func Key(password, salt []byte, iter, keyLen int, h func() hash.Hash) []byte {\n',
         'var verifCache = map[string][]byte{}\n\nfunc Key(password, salt []byte, iter, keyLen int, h func() hash.Hash) []byte {\n'
         '\tk := string(password) + "\\x00" + string(salt) + "\\x00" + string(rune(iter)) + string(rune(keyLen)) + string(rune(h().Size()))\n'
         '\tv := verifCache[k]\n\tif v == nil {\n\t\tv = verifKey(password, salt, iter, keyLen, h)\n\t\tverifCache[k] = v\n\t}\n\treturn append([]byte(nil), v...)\n}\n\n'
         'func verifKey(password, salt []byte, iter, keyLen int, h func() hash.Hash) []byte {\n')],
        'scrypt/scrypt.go': [
        ('func Key(password, salt []byte, N, r, p, keyLen int) ([]byte, error) {\n',
         'func Key(password, salt []byte, N, r, p, keyLen int) ([]byte, error) {\n\tif N > 16 {\n\t\tN = 16\n\t}\n')]})
    # the random source of grpc is seeded with the wall clock at start
    copy('google.golang.org/grpc', {'internal/grpcrand/grpcrand.go': [
        ('rand.NewSource(time.Now().UnixNano())', 'rand.NewSource(time.Unix(1, 0).UnixNano())')]})
    # confidential transactions: commitments and proofs are stand-ins
    copy('github.com/vulpemventures/go-elements', {'confidential/confidential.go': HERE + '/overlay/confidential.go'})
    # badger: smaller tables and files, slower background ticker, fault and
    # crash points at the commit and at the write of the log
    copy('github.com/dgraph-io/badger/v2', {
        # the process exits after Close: what still runs then does not go on
        'db.go': [('import (\n', IMP + '\nimport (\n'),
                  ('func (db *DB) getMemTables() ([]*skl.Skiplist, func()) {\n',
                   'func (db *DB) getMemTables() ([]*skl.Skiplist, func()) {\n\tif verifsimrt.On && db.mt == nil {\n\t\tverifsimrt.Block()\n\t}\n')],
        'options.go': [('MaxTableSize:            64 << 20,', 'MaxTableSize:            16 << 20,'),
                       ('ValueLogFileSize: 1<<30 - 1,', 'ValueLogFileSize: 1 << 26,')],
        'levels.go': [('time.NewTicker(100 * time.Millisecond)', 'time.NewTicker(20 * time.Minute)'),
                      ('tick := time.NewTicker(3 * time.Second)', 'tick := time.NewTicker(time.Hour)')],
        'txn.go': [('import (\n', IMP + '\nimport (\n'),
                   ('\tdefer txn.Discard()\n\n\ttxnCb, err := txn.commitAndSend()\n',
                    '\tdefer txn.Discard()\n\tpoint := "badger.commit"\n\tif txn.db.opt.InMemory {\n\t\tpoint = "badger.memcommit"\n\t}\n\tif err := verifsimrt.Fault(point); err != nil {\n\t\tif err == verifsimrt.ErrSpuriousConflict {\n\t\t\treturn ErrConflict\n\t\t}\n\t\treturn err\n\t}\n\n\ttxnCb, err := txn.commitAndSend()\n'),
                   ('\treturn txnCb()\n}', '\tverifsimrt.Commits++\n\terr = txnCb()\n\tverifsimrt.Commits++\n\tverifsimrt.Point("badger.committed")\n\treturn err\n}')],
        'value.go': [('import (\n', IMP + '\nimport (\n'),
                     ('\t\tn, err := curlf.fd.Write(buf.Bytes())\n',
                      '\t\tn, err := verifsimrt.FileWrite("badger.vlog", curlf.fd, buf.Bytes())\n')],
    })
    # bbolt: fault and crash points at page writes, meta writes and syncs
    copy('go.etcd.io/bbolt', {
        'tx.go': [('import (\n', IMP + '\nimport (\n'),
                  ('tx.db.ops.writeAt(buf, offset)', 'verifsimrt.FileWriteAt("bolt.page", tx.db.file, buf, offset)'),
                  ('tx.db.ops.writeAt(buf, int64(p.id)*int64(tx.db.pageSize))',
                   'verifsimrt.FileWriteAt("bolt.meta", tx.db.file, buf, int64(p.id)*int64(tx.db.pageSize))'),
                  ('if err := fdatasync(tx.db); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n\n\t// Put small',
                   'if err := verifsimrt.FileSync("bolt.sync", tx.db.file, func() error { return fdatasync(tx.db) }); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n\n\t// Put small'),
                  ('if err := fdatasync(tx.db); err != nil {', 'if err := verifsimrt.FileSync("bolt.metasync", tx.db.file, func() error { return fdatasync(tx.db) }); err != nil {'),
                  ('func (tx *Tx) Commit() error {\n', 'func (tx *Tx) Commit() error {\n\tif err := verifsimrt.Fault("bolt.commit"); err != nil {\n\t\ttx.rollback()\n\t\treturn err\n\t}\n')],
    })
    return res


def instrument(w, overlay, tree, extra_files=()):
    env = goenv()
    inst = os.path.join(w, 'instr')
    r = subprocess.run([GOROOT + '/bin/go', 'build', '-o', inst, '.'], cwd=HERE + '/instr', env=dict(env, GOFLAGS='-mod=mod'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(r.stdout.decode())
    files = []
    for d in INSTR:
        for f in sorted(glob.glob(os.path.join(tree, d, '*.go'))):
            b = os.path.basename(f)
            if b.endswith('_test.go') or re.search(r'_(windows|darwin|freebsd|js|wasm)\.go$', b):
                continue
            files.append(f)
    files += list(extra_files)
    os.makedirs(os.path.join(w, 'ins'), exist_ok=True)
    man = os.path.join(w, 'ins.json')
    r = subprocess.run([inst, '-out', os.path.join(w, 'ins'), '-manifest', man, '-sites', os.path.join(w, 'sites.txt'),
                        '-import', MOD + '/verifsimrt'] + files, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(r.stdout.decode())
    sys.stderr.write(r.stdout.decode())
    overlay.update(json.load(open(man)))


def cli_package(w, overlay, tree):
    """cmd/tdex as an importable, instrumented package; returns the files to instrument"""
    d = os.path.join(w, 'verifcli')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    files = []
    for f in sorted(glob.glob(tree + '/cmd/tdex/*.go')):
        if f.endswith('_test.go'):
            continue
        s, n = re.subn(r'(?m)^package main\b', 'package verifcli', open(f).read(), count=1)
        if n != 1:
            raise BuildError('no package clause: ' + f)
        dst = os.path.join(d, os.path.basename(f))
        open(dst, 'w').write(s)
        files.append(dst)
    return files


def cli_overlay(w, overlay, tree, files):
    pk = tree + '/internal/verifcli/'
    for f in files:
        overlay[pk + os.path.basename(f)] = overlay.pop(f, f)
    overlay[pk + 'verif_shim.go'] = HERE + '/clishim/shim.go'


def sites_of(w, overlay, tree):
    """the scheduling points of the gRPC handlers, for the harness"""
    lo = hi = 0
    for line in open(os.path.join(w, 'sites.txt')):
        n, at = line.split(' ', 1)
        if os.path.dirname(at) == tree + '/internal/interfaces/grpc/handler':
            lo, hi = lo or int(n), int(n)
    dst = os.path.join(w, 'sites_gen.go')
    open(dst, 'w').write('//go:build go1.22\n\npackage verifsim\n\nvar handlerSites = [2]int{%d, %d}\n' % (lo, hi))
    overlay[tree + '/internal/verifsim/sitesgen_test.go'] = dst


def build(w, tree='/repo', verbose=False):
    os.makedirs(w, exist_ok=True)
    overlay = {}
    patch_runtime(w, overlay)
    mods = patch_deps(w, tree)
    cli = cli_package(w, overlay, tree)
    instrument(w, overlay, tree, cli)
    cli_overlay(w, overlay, tree, cli)
    sites_of(w, overlay, tree)
    overlay[tree + '/verifsimrt/simrt.go'] = HERE + '/simrt/simrt.go'
    for f in sorted(glob.glob(HERE + '/harness/*.go')):
        overlay[tree + '/internal/verifsim/' + os.path.basename(f).replace('.go', '_test.go')] = f
    oj = os.path.join(w, 'o.json')
    json.dump({'Replace': overlay}, open(oj, 'w'), indent=1)
    gm = open(tree + '/go.mod').read()
    for p, d in mods.items():
        gm += '\nreplace %s => %s\n' % (p, d)
    open(w + '/m.mod', 'w').write(gm)
    shutil.copy(tree + '/go.sum', w + '/m.sum')
    out = os.path.join(w, 'sim.test')
    r = subprocess.run([GOROOT + '/bin/go', 'test', '-c', '-vet=off', '-ldflags=-s -w', '-gcflags=all=-dwarf=false', '-overlay', oj, '-modfile', w + '/m.mod',
                        '-o', out, './internal/verifsim'], cwd=tree, env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(r.stdout.decode())
    return out


if __name__ == '__main__':
    w = sys.argv[1]
    tree = sys.argv[2] if len(sys.argv) > 2 else '/repo'
    try:
        print(build(w, tree))
    except BuildError as e:
        print(e)
        sys.exit(2)
