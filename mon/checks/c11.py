"""C11: no nonce is ever used twice under one key."""
import contextlib
import copy
import os
import pickle
import random
import threading
import time

from .. import gen, refcrypto, wire
from .c05 import A, octets
from .c09 import encrypt, rand_params, small_node

PROPERTY = 'C11'
LEVEL = 'exploration'
RULE = ('A case runs a random history of encryptions under one key - by encryptors made, copied and dropped, by whole '
        'trees, by threads and by forked processes - while the program reseeds and rewinds the ordinary random generator '
        'and stops the clock, and the monitor reads nonce and key number of every security context that comes out. It '
        'fails on any repetition, on any IV that is not 12 octets, and on generated keys and salts that repeat. Bulk '
        'histories are long enough for a birthday collision of any nonce with 32 random bits or fewer (40 in the '
        'thorough tier). Distinct cases are distinct nonces of the histories.')
MINIMUM = {'evaluations': 90, 'distinct': 6000, 'nonces': 200000, 'processes': 60, 'threads': 60, 'generated_keys': 300}
CPU_LIMIT = 200


@contextlib.contextmanager
def clock_stopped():
    names = ('time', 'time_ns', 'monotonic', 'monotonic_ns', 'perf_counter', 'perf_counter_ns')
    old = {n: getattr(time, n) for n in names}
    try:
        for n in names:
            v = old[n]()
            setattr(time, n, lambda v=v: v)
        yield
    finally:
        for n, f in old.items():
            setattr(time, n, f)


def ctx_of(m):
    return wire.dec_manifest(m)['ctx']


def in_child(ctx, f):
    """Run f in a forked process -> what it returned"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            data = pickle.dumps(f())
            with os.fdopen(wr, 'wb') as h:
                h.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, 'rb') as h:
        data = h.read()
    _, st = os.waitpid(pid, 0)
    ctx.check(st == 0, 'child-failed', 'encrypting in a forked process failed')
    ctx.count('processes')
    return pickle.loads(data)


class Monitor:
    def __init__(self, ctx, e):
        self.ctx, self.e, self.seen = ctx, e, {}

    def observe(self, m, where):
        c = ctx_of(m)
        n = c['nonce']
        salt = 4 if self.e['salt'] is not None or self.e['kind'] == 'oaep' else 0
        self.ctx.check(len(n) + salt == 12, 'iv-length', f'a nonce of {len(n)} octets with a salt of {salt}')
        if n in self.seen:
            self.ctx.fail('nonce-reuse', f'{where} used a nonce that {self.seen[n]} had used under the same key', nonce=n)
        self.ctx.check(True, '', '')
        self.seen[n] = where
        self.ctx.count('nonces')
        if len(self.seen) <= 400:
            self.ctx.distinct(n)


def history(ctx):
    rng = ctx.rng
    e = rand_params(rng)
    if e['rsa']:
        e['rsa'] = 'a1024'
    ctx.config = e
    mon = Monitor(ctx, e)
    node, _ = small_node(rng)
    state = random.getstate()
    with ctx.must_work('setup'):
        encs = [gen.encryptor(e)]
    n = 0
    for _ in range(rng.randrange(20, 40)):
        act = rng.choice(['enc', 'enc', 'new', 'copy', 'tree', 'thread', 'fork', 'fork2', 'seed', 'rewind', 'node', 'stopped', 'impl'])
        n += 1
        if act == 'enc':
            for _ in range(rng.randrange(1, 12)):
                mon.observe(encrypt(ctx, rng.choice(encs), node), 'an encryptor')
        elif act == 'new':
            with ctx.must_work('setup'):
                encs.append(gen.encryptor(e))
            mon.observe(encrypt(ctx, encs[-1], node), 'a new encryptor')
        elif act == 'copy':
            try:
                c = copy.copy(rng.choice(encs))
            except Exception:
                continue
            encs.append(c)
            mon.observe(encrypt(ctx, c, node), 'a copied encryptor')
        elif act == 'node':
            node, _ = small_node(rng)
        elif act == 'seed':
            random.seed(0)
        elif act == 'rewind':
            random.setstate(state)
        elif act == 'impl' and e['kind'] == 'aead':
            from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
            with ctx.must_work('impl'):
                i = AeadImpl(gen.aead_params(e))
                ms = [octets(i.create_encrypted_manifest(node).serialize()) for _ in range(3)]
            for m in ms:
                mon.observe(m, 'an implementation object')
        elif act == 'stopped':
            with clock_stopped():
                ms = []
                for _ in range(4):
                    random.seed(1)
                    with ctx.must_work('setup'):
                        x = gen.encryptor(e)
                    ms.append(encrypt(ctx, x, node))
            for m in ms:
                mon.observe(m, 'an encryptor made while the clock stood')
        elif act == 'tree' and rng.random() < .5:
            cfg = gen.rand_cfg(rng, top=3000)
            cfg['enc'] = e
            cfg['mps'] += 540
            r = gen.Run(ctx, cfg, enc=rng.choice(encs) if rng.random() < .5 else None)
            for h, w in r.writer.log:
                p = wire.dec_packet(w)
                if p['is_manifest']:
                    mon.observe(p['payload'], 'a tree')
            ctx.count('trees')
        elif act == 'thread':
            out, errs = [], []
            shared = rng.choice(encs)

            def work(k):
                try:
                    x = shared if k % 2 else gen.encryptor(e)
                    for _ in range(6):
                        out.append(encrypt(ctx, x, node))
                except BaseException as ex:
                    errs.append(ex)
            ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if errs:
                raise errs[0]
            for m in out:
                mon.observe(m, 'a thread')
            ctx.count('threads', 4)
        elif act in ('fork', 'fork2'):
            x = encs[-1]
            if act == 'fork2':      # both sides of the fork go on with the same object
                with ctx.must_work('setup'):
                    x = gen.encryptor(e)
                mon.observe(encrypt(ctx, x, node), 'an encryptor before the fork')

            def child():
                out = [encrypt(ctx, x, node) for _ in range(3)]
                out += [encrypt(ctx, gen.encryptor(e), node) for _ in range(2)]
                return out
            for k in range(2):
                for m in in_child(ctx, child):
                    mon.observe(m, f'a forked process')
            for _ in range(2):
                mon.observe(encrypt(ctx, x, node), 'the parent after a fork')
    ctx.maximum('longest_history', len(mon.seen))


def bulk(ctx):
    """Long histories, by encryptors and by the nonce generator."""
    from ccnpy.crypto.AeadKey import AeadCcm, AeadGcm
    rng = ctx.rng
    e = rand_params(rng, 'aead')
    if ctx.index % 2 == 0:
        e['salt'] = rng.randrange(1 << 32)
    ctx.config = e
    seen = set()
    n = 0
    with ctx.must_work('setup'):
        enc = gen.encryptor(e)
    node, _ = small_node(rng)
    for i in range(3000 if not ctx.thorough else 20000):
        with ctx.must_work('encrypt'):
            if i % 10 == 0:
                enc = gen.encryptor(e)
            c, _, _ = enc.encrypt(node)
        x = octets(c.nonce().value())
        if x in seen:
            ctx.fail('nonce-reuse', f'encryption {i} used a nonce of an earlier one', nonce=x)
        seen.add(x)
    n += len(seen)
    for cls in (AeadGcm, AeadCcm):
        for bits in (96, 64):
            seen = set()
            key = cls(e['key'])
            with ctx.must_work('nonce'):
                for i in range(250000 if not ctx.thorough else 2500000):
                    x = octets(key.nonce(bits))
                    if x in seen:
                        ctx.fail('nonce-repeats', f'nonce {i} of {bits} bits repeats an earlier one', nonce=x)
                    seen.add(x)
            ctx.check(all(len(x) == bits // 8 for x in seen), 'nonce-length', f'a nonce of {bits} bits has another length')
            n += len(seen)
    ctx.count('nonces', n)
    ctx.distinct('bulk', ctx.index)


def random_positions(xs):
    """How many positions vary freely, counting positions that always agree once."""
    n = min(len(x) for x in xs)
    cols = {}
    for i in range(n):
        col = bytes(x[i] for x in xs)
        if len(set(col)) >= 150:
            cols[col] = i
    return len(cols)


def quality(ctx):
    """First nonces of new encryptors, some in new processes: most octets must be random."""
    rng = ctx.rng
    e = rand_params(rng, 'aead')
    ctx.config = e
    node, _ = small_node(rng)

    def firsts(n):
        out = []
        with clock_stopped():
            for _ in range(n):
                random.seed(7)
                c, _, _ = gen.encryptor(e).encrypt(node)
                out.append(octets(c.nonce().value()))
        return out
    xs = firsts(800)
    for _ in range(4):
        xs += in_child(ctx, lambda: firsts(100))
    ctx.check(len(set(xs)) == len(xs), 'nonce-reuse', 'two new encryptors used the same nonce')
    ctx.count('nonces', len(xs))
    k = random_positions(xs)
    ctx.check(k >= 6, 'nonce-quality', f'only {k} of {len(xs[0])} octets of the first nonce of an encryptor are random')
    ctx.maximum('random_positions', k)
    ctx.distinct('quality', ctx.index)


def generated(ctx):
    """Content keys, salts and key pairs that the library makes up."""
    from ccnpy.crypto.AeadKey import AeadCcm, AeadGcm
    from ccnpy.crypto.RsaKey import RsaKey
    from ccnpy.flic.RsaOaepCtx.RsaOaepEncryptor import RsaOaepEncryptor
    rng = ctx.rng
    node, _ = small_node(rng)
    e = rand_params(rng, 'oaep')
    e['salt'] = None
    ctx.config = e

    def content(n, given):
        out = []
        with clock_stopped():
            for _ in range(n):
                random.seed(3)
                if given:
                    enc = gen.encryptor(e)
                else:
                    enc = RsaOaepEncryptor.create_with_new_content_key(gen.rsa_key('a1024'), gen.aead_params(e).kdf_data)
                m = encrypt(ctx, enc, node)
                c = ctx_of(m)
                x = refcrypto.unwrap('a1024' if not given else e['rsa'], c)
                assert x is not None, 'no unwrap'
                out.append((x[1], x[0], c['nonce'], c['mode']))
        return out
    n = 30 if not ctx.thorough else 60
    with ctx.must_work('new-content-key'):
        xs = content(n, False)
        for _ in range(2):
            xs += in_child(ctx, lambda: content(n // 2, False))
        ys = content(n, True) + in_child(ctx, lambda: content(n // 2, True))
    keys, salts, nonces = [x[0] for x in xs], [x[1] for x in xs], [x[2] for x in xs]
    ctx.check(len(set(keys)) == len(keys), 'key-repeats', 'two generated content keys are equal')
    ctx.check(len(set(nonces)) == len(nonces), 'nonce-reuse', 'a nonce repeats')
    ctx.check(len(set(salts)) >= len(salts) - 1, 'salt-repeats', 'generated salts repeat')
    ctx.check(all(len(k) == 32 for k in keys), 'key-length', 'a generated content key is not 256 bits')
    # 60 samples: a random octet has about 54 different values
    cols = {bytes(k[i] for k in keys) for i in range(32)}
    ctx.check(len(cols) == 32 and all(len(set(c)) >= 30 for c in cols), 'key-quality', 'octets of the generated content keys are not random')
    # the salt made up for a given key
    s2, n2 = [y[1] for y in ys], [y[2] for y in ys]
    ctx.check(len(set(s2)) >= len(s2) - 1, 'salt-repeats', 'the salts made up for a given key repeat')
    ctx.check(len(set(n2)) == len(n2), 'nonce-reuse', 'a nonce repeats under a given key')
    ctx.check(all(len(x) == 8 for x in nonces + n2), 'iv-length', 'nonce and salt do not fill the IV')
    ctx.count('generated_keys', len(keys))
    for cls in (AeadGcm, AeadCcm):
        for bits in (128, 256):
            def make():
                out = []
                with clock_stopped():
                    for _ in range(20):
                        random.seed(5)
                        out.append(octets(cls.generate(bits).key()))
                return out
            with ctx.must_work('generate'):
                ks = make() + in_child(ctx, make) + in_child(ctx, make)
            ctx.check(len(set(ks)) == len(ks) and all(len(k) == bits // 8 for k in ks), 'key-repeats', f'generated {bits} bit keys repeat or have another length')
            cols = {bytes(k[i] for k in ks) for i in range(bits // 8)}
            ctx.check(len(cols) == bits // 8 and all(len(set(c)) >= 30 for c in cols), 'key-quality', 'octets of generated keys are not random')
            ctx.count('generated_keys', len(ks))
    if ctx.index % 4 == 0:
        def pair():
            random.seed(11)
            return octets(RsaKey.generate_private_key(1024).keyid().value())
        with ctx.must_work('generate-rsa'):
            ids = [pair(), in_child(ctx, pair), in_child(ctx, pair), pair()]
        ctx.check(len(set(ids)) == 4, 'key-repeats', 'generated RSA keys repeat')
        ctx.count('generated_keys', 4)
    for k in keys:
        ctx.distinct(k)


KINDS = {'history': (history, 80, 2000), 'bulk': (bulk, 2, 8), 'quality': (quality, 8, 100), 'generated': (generated, 8, 100)}
