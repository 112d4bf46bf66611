"""C20: the command line tools write, read and show files faithfully."""
import datetime
import hashlib
import os
import re
import resource
import socket
import subprocess
import sys
import threading

from .. import gen, handmade, refcrypto, treemodel, wire
from ..harness import REPO, Inconclusive

PROPERTY = 'C20'
LEVEL = 'fault_enumeration'
RULE = ('A case runs the manifest writer as a process with random options on a random file, and compares the packet files '
        'it left with the options asked for (independent decoder, decryption and file octets). Then it runs the manifest '
        'reader by hash, and by name where links were written, with the right keys, with every kind of wrong or missing '
        'key, with a wrong name or hash, and with one packet file at a time missing or altered; and the packet reader on '
        'packet and link files and handmade packets of other makers, with and without keys. Exit status, standard output, the output file and a snapshot of '
        'the directory are what the oracles judge. Distinct cases are distinct (options, command, fault) triples.')
MINIMUM = {'evaluations': 60, 'distinct': 600, 'files_read_back': 60, 'readings_refused': 220, 'wrong_keys': 60,
           'altered_files': 60, 'missing_files': 30, 'packets_shown': 250, 'pointers_shown': 40, 'pointers_hidden': 40,
           'impossible_requests': 25, 'altered_shown': 10, 'foreign_shown': 40, 'forged_shown': 8, 'commands': 700, 'relative_paths': 100, 'octets_to_stdout': 2, 'passwords_typed': 8, 'wrong_passwords': 1}
CPU_LIMIT = 200

PASS = {'d2048.enc': 'secret'}
TOOLS = ('manifest_writer', 'manifest_reader', 'packet_reader')


def worker_init():
    import ccnpy.apps.manifest_reader, ccnpy.apps.manifest_writer, ccnpy.apps.packet_reader  # noqa


def _child(tool, argv, out, cwd, typed=b''):
    """In the forked process: become the tool."""
    code = 1
    try:
        fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        os.setsid()     # no terminal, so what is asked for comes from the standard input
        null = os.open('/dev/null', os.O_RDONLY)
        os.dup2(null, 0)
        if typed:
            r, w = os.pipe()
            os.write(w, typed)
            os.close(w)
            os.dup2(r, 0)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        os.chdir(cwd)
        resource.setrlimit(resource.RLIMIT_CPU, (60, 70))
        sys.stdin = open(0, closefd=False)
        sys.stdout = open(1, 'w', closefd=False, encoding='utf-8')
        sys.stderr = open(2, 'w', closefd=False, encoding='utf-8')
        sys.argv = [tool] + argv
        import importlib
        m = importlib.import_module('ccnpy.apps.' + tool)
        try:
            m.run()
            code = 0
        except SystemExit as e:
            code = 0 if e.code is None else (e.code & 0xff if isinstance(e.code, int) else 1)
        except BaseException:
            import traceback
            traceback.print_exc()
            code = 1
        sys.stdout.flush()
        sys.stderr.flush()
    finally:
        os._exit(code)


def somewhere(ctx, argv):
    """The same command from another working directory, with paths relative to it -> (directory, arguments)"""
    top = ctx.scratch()
    r = ctx.rng.random()
    if r < .6:
        return top, argv
    at = [i for i, a in enumerate(argv) if a in ('-o', '-i') and i + 1 < len(argv) and os.path.isdir(argv[i + 1])]
    cwd = argv[at[0] + 1] if at and r < .85 else top
    out = [os.path.relpath(a, cwd) if a.startswith(top + '/') else a for a in argv]
    if at and out[at[0] + 1] == '.' and ctx.rng.random() < .6:
        # where the program runs is where it looks when it is not told
        del out[at[0]:at[0] + 2]
    ctx.count('relative_paths')
    return cwd, out


def tool(ctx, name, argv, real=False, cwd=None, typed=b''):
    """Run one of the tools in a process of its own -> (exit status, output)"""
    ctx.count('commands')
    if cwd is None:
        cwd, argv = somewhere(ctx, argv)
    if real:
        env = dict(os.environ, PYTHONPATH=REPO)
        p = subprocess.run([sys.executable, '-m', 'ccnpy.apps.' + name] + argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
        ctx.count('real_processes')
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    out = os.path.join(ctx.scratch(), 'tool-output')
    pid = os.fork()
    if pid == 0:
        _child(name, argv, out, cwd, typed)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        ctx.check(os.WTERMSIG(st) not in (24, 9), 'tool-hangs', f'{name} {" ".join(argv)} did not end within 60 s of processor time')
        raise Inconclusive(f'{name} was ended by signal {os.WTERMSIG(st)}')
    with open(out, 'rb') as f:
        return os.WEXITSTATUS(st), f.read().decode('utf-8', 'replace')


def uri(name):
    """A name of text components as the command line takes it."""
    return 'ccnx:/' + '/'.join(v.decode() for _, v in name)


COMPONENTS = ['a', 'b', 'file', 'video.mp4', 'v1.2.3', 'm', 'd', 'x' * 30, '0', '-', '_', 'chunk', 'A', 'a+b', 'é', '日本']


def rand_name(rng, lo=1, hi=4):
    return [(1, rng.choice(COMPONENTS).encode()) for _ in range(rng.randrange(lo, hi + 1))]


def pem(key):
    return os.path.join(refcrypto.KEYDIR, key + '.pem')


def rand_time(rng):
    ms = rng.choice([0, 1, 999, 1000, 1700000000123, rng.randrange(4102444800000)])
    tz = datetime.timezone(datetime.timedelta(minutes=rng.choice([0, 0, 60, -300, 345, -1439 % 700])))
    t = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(milliseconds=ms)
    return ms, t.astimezone(tz).isoformat()


class Job:
    """One invocation of the writer: its options, and what they mean."""

    def __init__(self, ctx, rng, small=False):
        self.ctx = ctx
        o = self.o = {}
        o['schema'] = rng.choice([None, 'Hashed', 'Prefix', 'Segmented'])
        o['name'] = rand_name(rng)
        kind = (o['schema'] or 'Hashed').lower()
        o['ml'] = o['dl'] = o['mp'] = o['dp'] = None
        if kind == 'segmented':
            o['mp'], o['dp'] = rand_name(rng), rand_name(rng)
            while o['mp'] == o['dp']:
                o['dp'] = rand_name(rng)
        elif kind == 'hashed' and rng.random() < .5:
            o['dl'] = rand_name(rng)
            if rng.random() < .6:
                o['ml'] = rand_name(rng)
        o['degree'] = rng.choice([None, None, 2, 3, 5, 11])
        o['link'] = rng.random() < .5
        o['sign'] = rng.choice([None, 'a1024', 'b1024', 'c2048', 'd2048', 'd2048.enc'])
        o['enc'] = rng.choice([None, 'aead', 'aead', 'oaep'])
        for k in ('root_expiry', 'node_expiry', 'data_expiry'):
            o[k] = rand_time(rng) if rng.random() < .35 else None
        for k in ('key', 'num', 'salt', 'mode', 'kdf', 'info', 'uuid', 'kdf_salt', 'wrap', 'wrap_public'):
            o[k] = None
        if o['enc']:
            if o['enc'] == 'oaep':
                # a reader that has the one key must not have the other by it
                o['wrap'] = rng.choice([k for k in ('a1024', 'c2048', 'd2048', 'd2048.enc')
                                        if not o['sign'] or k.split('.')[0] != o['sign'].split('.')[0]])
                o['wrap_public'] = rng.random() < .4
            if o['enc'] == 'aead' or rng.random() < .5:
                o['key'] = rng.randbytes(rng.choice([16, 32]))
                if rng.random() < .6:
                    o['num'] = rng.choice([0, 1, 255, 256, 22, 0xFFFFFFFF, 0x0123456789abcdef])
                if rng.random() < .5:
                    o['salt'] = rng.choice([0, 1, 0x01020304, 0xFFFFFFFF])
                if rng.random() < .6:
                    o['mode'] = rng.choice(['GCM', 'CCM', 'ccm', 'gcm', 'Ccm'])
            if rng.random() < .4:
                o['kdf'] = rng.choice(['HKDF-SHA256', 'HKDF-SHA384', 'HKDF-SHA512', 'hkdf-sha256'])
                r = rng.random()
                if r < .4:
                    o['info'] = rng.choice(['FLIC', 'some text', '0x0102fe', 'x', ' x', 'X ', '0XfF', '\u00e9 \u6587', 'x\n'])
                elif r < .6:
                    o['uuid'] = True
                if o['enc'] == 'aead' and rng.random() < .5:
                    o['kdf_salt'] = rng.choice([0, 1, 0xFFFFFFFF, 77])
        longest = sum(sum(4 + len(v) for _, v in o[k]) for k in ('name', 'ml', 'dl', 'mp', 'dp') if o[k])
        base = 330 + longest + (150 if o['enc'] else 0) + (300 if o['enc'] == 'oaep' else 0)
        o['mps'] = rng.choice([None, base + rng.randrange(60, 400), base + rng.randrange(60, 2000), 4000, 8000])
        top = 3000 if small else 20000
        self.data = gen.rand_data(rng, rng.choice([0, 1, rng.randrange(1, 700), rng.randrange(1, top), rng.randrange(1, top)]))
        self.hex = rng.random() < .5
        self.dir = os.path.join(ctx.scratch(), 'packets')
        os.mkdir(self.dir)
        self.file = os.path.join(ctx.scratch(), 'input file.bin')
        with open(self.file, 'wb') as f:
            f.write(self.data)
        ctx.config = {k: v.decode('latin1') if isinstance(v, bytes) else v for k, v in o.items()}
        ctx.config['size'] = len(self.data)

    def number(self, n):
        return hex(n) if self.hex else str(n)

    def aes(self, reader, key=None, salt=None, kdf_salt=None):
        o = self.o
        a = []
        key = key or o['key']
        if key is not None:
            a += ['--enc-key', ('0x' if self.hex else '') + key.hex()]
        if o['mode'] is not None:
            a += ['--aes-mode', o['mode']]
        if o['num'] is not None:
            a += ['--key-num', self.number(o['num'])]
        salt = o['salt'] if salt is None else salt
        if salt is not None:
            a += ['--salt', self.number(salt)]
        if not reader:
            if o['kdf'] is not None:
                a += ['--kdf', o['kdf']]
            if o['info'] is not None:
                a += ['--kdf-info', o['info']]
            if o['uuid']:
                a += ['--kdf-uuid']
        kdf_salt = o['kdf_salt'] if kdf_salt is None else kdf_salt
        if kdf_salt is not None:
            a += ['--kdf-salt', self.number(kdf_salt)]
        return a

    def writer_args(self):
        o = self.o
        a = ['--name', uri(o['name']), '-o', self.dir]
        for k, flag in (('ml', '--manifest-locator'), ('dl', '--data-locator'), ('mp', '--manifest-prefix'), ('dp', '--data-prefix')):
            if o[k] is not None:
                a += [flag, uri(o[k])]
        for k, flag in (('root_expiry', '--root-expiry'), ('node_expiry', '--node-expiry'), ('data_expiry', '--data-expiry')):
            if o[k] is not None:
                a += [flag, o[k][1]]
        if o['schema'] is not None:
            a += ['--schema', o['schema']]
        if o['degree'] is not None:
            a += ['-d', str(o['degree'])]
        if o['mps'] is not None:
            a += ['-s', str(o['mps'])]
        if o['link']:
            a += ['--link']
        a += ['-p', PASS.get(o['sign'], '')]
        if o['sign'] is not None:
            a += ['-k', pem(o['sign'])]
        if o['wrap'] is not None:
            w = o['wrap'].split('.')[0]
            a += ['--wrap-key', pem(w + '.pub') if o['wrap_public'] else pem(o['wrap']), '--wrap-pass', PASS.get(o['wrap'], '')]
        return a + self.aes(False) + [self.file]

    def key_args(self, rng, sign=True, enc=True, wrong=None):
        """The arguments of a reader that holds the keys, or (wrong) some other key in the place of one of them."""
        o = self.o
        a = []
        if o['sign'] is not None and sign:
            k = o['sign']
            if wrong == 'sign':
                k = {'a1024': 'b1024'}.get(k, 'a1024')
            if rng.random() < .5:
                a += ['-k', pem(k.split('.')[0] + '.pub')]
            else:
                a += ['-k', pem(k), '-p', PASS.get(k, '')]
        if o['wrap'] is not None and enc:
            k = o['wrap']
            if wrong == 'wrap':
                k = {'c2048': 'd2048'}.get(k, 'c2048')
            a += ['--wrap-key', pem(k), '--wrap-pass', PASS.get(k, '')]
        elif o['enc'] == 'aead' and enc:
            kw = {}
            if wrong == 'enc':
                i = rng.randrange(len(o['key']))
                kw['key'] = o['key'][:i] + bytes([o['key'][i] ^ (1 << rng.randrange(8))]) + o['key'][i + 1:]
            elif wrong == 'salt':
                kw['salt'] = (o['salt'] or 0) ^ (1 << rng.randrange(32))
            elif wrong == 'kdf_salt':
                kw['kdf_salt'] = (o['kdf_salt'] or 0) ^ (1 << rng.randrange(32))
            # the writer's derivation options may be given again, and change nothing
            a += self.aes(rng.random() < .7, **kw)
        return a

    def write(self, real=False, args=None, typed=b''):
        ctx = self.ctx
        code, out = tool(ctx, 'manifest_writer', args or self.writer_args(), real, typed=typed)
        ctx.check(code == 0, 'writer-failed', lambda: f'the writer exited with {code}: {out[-600:]}')
        found = re.findall(r"Root manifest hash: HashValue: \{alg: 'SHA256', val: '0x([0-9a-f]+)'\}", out)
        self.root = bytes.fromhex(found[0].zfill(64)) if len(found) == 1 else None
        self.snapshot = snapshot(self.dir)
        self.store, self.files, self.links = {}, {}, []
        for n, w in self.snapshot.items():
            if n.endswith('.link'):
                self.links.append(n)
            else:
                h = hashlib.sha256(w[8:]).digest()
                self.store[h] = w
                self.files[h] = n
        roots = [h for h, w in self.store.items() if (lambda p: p['is_manifest'] and p['name'] == self.o['name'])(wire.dec_packet(w))]
        if self.root is None:       # the wording of the output is not what is judged
            ctx.count('root_hash_not_printed')
            ctx.check(self.o['schema'] != 'Prefix' and len(roots) == 1, 'root-hash-not-printed', 'the writer does not say which packet is the root')
            self.root = roots[0]
        ctx.check(self.root in self.store, 'root-not-written', 'the root whose hash the writer printed is not in the directory')
        with open(self.file, 'rb') as f:
            ctx.check(f.read() == self.data, 'input-changed', 'the writer changed its input file')

    def judge_packets(self):
        """The packets on the disk are the tree that was asked for."""
        ctx, o = self.ctx, self.o
        keys = treemodel.Keys()
        if o['enc'] == 'aead':
            num = o['num'] if o['num'] is not None else int.from_bytes(hashlib.sha256(o['key']).digest()[:8], 'big')
            keys.add_aead(num, o['key'], o['salt'], o['kdf_salt'])
        elif o['enc']:
            keys.add_rsa(o['wrap'].split('.')[0])
        try:
            view = self.view = treemodel.read_tree(self.store, self.root, keys)
        except treemodel.ModelError as e:
            ctx.fail('written-' + e.mechanism, e.message)
        ctx.check(view.content() == self.data, 'written-data', f'the packet files hold {len(view.content())} octets that are not the file of {len(self.data)}')
        ctx.check(view.reached == set(self.store), 'stray-packets', 'there are packet files that are not in the tree')
        ctx.check(view.root.pkt['name'] == o['name'], 'root-name', f'the root is named {view.root.pkt["name"]}')
        kind = (o['schema'] or 'Hashed').lower()
        kinds = {s['kind'] for m in view.manifests for _, s in m.node['ncdefs']}
        ctx.check(kind in kinds and kinds <= {kind, 'hashed'}, 'schema', f'asked for {kind}, the tree uses {kinds}')
        top = o['mps'] or 1500
        for h, w in self.store.items():     # the root is not bounded
            ctx.check(h == self.root or len(w) <= top, 'too-long', f'a packet of {len(w)} octets with -s {top}', packet=w)
        for m in view.manifests:
            if o['degree'] is not None:
                ctx.check(len(m.children) <= o['degree'], 'degree', f'a manifest of {len(m.children)} pointers with -d {o["degree"]}')
            ctx.check((m.man['node'] is None) == (o['enc'] is not None), 'encryption', f'encryption asked for: {o["enc"]}')
            want = o['root_expiry' if m.is_root else 'node_expiry']
            ctx.check(m.pkt['expiry'] == (want and want[0]), 'expiry', f'a manifest expires at {m.pkt["expiry"]}, not at {want}')
            if o['enc'] == 'aead':
                ctx.check(m.man['ctx']['keynum'] == num, 'key-number', f'key number {m.man["ctx"]["keynum"]}')
        for p in view.data_pkts:
            want = o['data_expiry']
            ctx.check(p['expiry'] == (want and want[0]), 'expiry', f'a data packet expires at {p["expiry"]}, not at {want}')
            if kind == 'segmented':
                ctx.check(p['name'][:len(o['dp'])] == o['dp'], 'data-name', f'data is named {p["name"]}')
        keyid = o['sign'] and refcrypto.keyid(o['sign'].split('.')[0])
        alg = view.root.pkt['sig']
        ctx.check((alg is not None and alg.get('keyid') == keyid) if keyid else view.root.pkt['sig'] is None, 'root-signature',
                  f'the root is signed with {alg}, the key asked for is {keyid and keyid.hex()}')
        names = {tuple(p['name']) for p in map(wire.dec_packet, self.store.values()) if p['name'] is not None}
        ctx.check(o['link'] or not self.links, 'unasked-links', 'links were written that --link did not ask for')
        if o['link']:
            got = {tuple(wire.dec_packet(self.snapshot[n])['name']) for n in self.links}
            ctx.check(got == names, 'links', f'links for {len(got)} names, {len(names)} names have packets')
        for n in self.links:
            w = self.snapshot[n]
            p = wire.dec_packet(w)
            ctx.check(p['is_link'] and p['sig'] is not None, 'link-unsigned', f'the link file {n} is not a signed link')
            ctx.check((p['sig'].get('keyid') == keyid) if keyid else p['sig']['alg'] == 'crc32c', 'link-signer',
                      f'the link file {n} is signed with {p["sig"]}, the key asked for is {keyid and keyid.hex()}')
            signed = p['body'] + p['alg']
            ok = refcrypto.rsa_verify(o['sign'].split('.')[0], signed, p['vpayload']) if keyid else \
                p['vpayload'] == refcrypto.crc32c(signed).to_bytes(4, 'big')
            ctx.check(ok, 'link-signature', f'the signature of the link file {n} does not verify')
            to = wire.dec_link(p['payload'])
            target = self.store.get(to['digest'])
            ctx.check(to['name'] == p['name'] and target is not None and wire.dec_packet(target)['name'] == p['name'],
                      'link-target', f'the link file {n} does not lead to a packet of its name')
            ctx.count('link_files_judged')
        ctx.count('trees_judged')

    def read(self, rng, keys, by='hash', name=None, root=None, real=False, stdout=False, what=''):
        """-> (exit status, what the output file holds, terminal output)"""
        out = os.path.join(self.ctx.scratch(), 'read.out')
        if os.path.exists(out):
            os.unlink(out)
        if not what and rng.random() < .2:
            with open(out, 'wb') as f:
                f.write(rng.randbytes(len(self.data) + 50))
        a = ['--name', uri(name or self.o['name']), '-i', self.dir]
        if by == 'hash':
            h = (root or self.root).hex()
            a += ['--hash', rng.choice(['', '0x']) + rng.choice([h, h, h.upper()])]
        if not stdout:
            a += ['--output', out]
        code, text = tool(self.ctx, 'manifest_reader', a + keys, real)
        got = None
        if os.path.exists(out):
            with open(out, 'rb') as f:
                got = f.read()
        return code, got, text

    def must_read(self, rng, what, **kw):
        ctx = self.ctx
        code, got, text = self.read(rng, self.key_args(rng), **kw)
        ctx.check(code == 0, f'{what}-failed', lambda: f'the reader exited with {code}: {text[-600:]}')
        ctx.check(got == self.data, f'{what}-data', f'the reader wrote {None if got is None else len(got)} octets that are not the file of {len(self.data)}')
        ctx.count('files_read_back')
        ctx.distinct(self.ident(), what)

    def must_refuse(self, rng, what, keys, **kw):
        ctx = self.ctx
        code, got, text = self.read(rng, keys, what=what, **kw)
        ctx.check(code != 0, f'accepted-{what}', lambda: f'{what}: the reader exited with 0, having written {None if got is None else len(got)} octets of {len(self.data)}')
        if self.data:
            ctx.check(got != self.data, f'read-in-full-{what}', f'{what}: the reader wrote the file in full')
            ctx.check(not got or self.data.startswith(got), f'wrong-octets-{what}', f'{what}: the reader wrote octets that are not in the file')
        ctx.count('readings_refused')
        ctx.distinct(self.ident(), what)

    def ident(self):
        return tuple(sorted((k, repr(v)) for k, v in self.o.items()))

    def unchanged(self, what):
        now = snapshot(self.dir)
        self.ctx.check(now == self.snapshot, 'directory-changed', lambda: f'{what} changed the packet directory: '
                       f'{sorted(set(now) ^ set(self.snapshot)) or [n for n in now if now[n] != self.snapshot[n]]}')


def snapshot(d):
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            with open(os.path.join(root, n), 'rb') as f:
                out[os.path.relpath(os.path.join(root, n), d)] = f.read()
    return out


def trip(ctx):
    rng = ctx.rng
    job = Job(ctx, rng)
    job.write(real=rng.random() < .05)
    job.judge_packets()
    job.must_read(rng, 'by-hash', real=rng.random() < .05)
    if job.o['link']:
        job.must_read(rng, 'by-name', by='name')
    else:
        job.must_refuse(rng, 'no-link', job.key_args(rng), by='name')
    job.unchanged('the reader')
    bad = bytearray(job.root)
    bad[rng.randrange(32)] ^= 1 << rng.randrange(8)
    job.must_refuse(rng, 'wrong-hash', job.key_args(rng), root=bytes(bad))
    job.must_refuse(rng, 'wrong-name', job.key_args(rng), by='name', name=job.o['name'] + [(1, b'other')])
    wrongs = []
    if job.o['sign']:
        wrongs += [('wrong-verification-key', {'wrong': 'sign'}), ('no-verification-key', {'sign': False})]
    if job.o['enc']:
        wrongs.append(('no-encryption-key', {'enc': False}))
    if job.o['enc'] == 'aead':
        wrongs += [('wrong-key', {'wrong': 'enc'}), ('wrong-salt', {'wrong': 'salt'})]
        if job.o['kdf']:
            wrongs.append(('wrong-kdf-salt', {'wrong': 'kdf_salt'}))
    elif job.o['enc']:
        wrongs.append(('wrong-key', {'wrong': 'wrap'}))
    for what, kw in wrongs:
        job.must_refuse(rng, what, job.key_args(rng, **kw), real=rng.random() < .02)
        ctx.count('wrong_keys')
    job.unchanged('the reader')
    ctx.sample(ctx.config)


def faults(ctx):
    """One packet file at a time missing, altered, replaced or unreadable."""
    rng = ctx.rng
    job = Job(ctx, rng, small=True)
    job.write()
    job.judge_packets()
    hashes = sorted(job.store)
    rng.shuffle(hashes)
    for h in hashes[:1 if not ctx.thorough else 12] + [job.root] + [rng.choice(job.view.data_hashes)]:
        path = os.path.join(job.dir, job.files[h])
        w = job.store[h]
        by = 'name' if job.o['link'] and rng.random() < .4 else 'hash'
        for fault in ('missing', 'bit', rng.choice(['empty', 'truncated', 'other', 'forged', 'bit', 'directory', 'garbage'])):
            if fault == 'missing':
                os.rename(path, path + '.away')
            elif fault == 'directory':
                os.rename(path, path + '.away')
                os.mkdir(path)
            else:
                i = rng.randrange(8, len(w))
                new = {'bit': w[:i] + bytes([w[i] ^ (1 << rng.randrange(8))]) + w[i + 1:], 'empty': b'', 'truncated': w[:i],
                       'garbage': rng.randbytes(len(w))}.get(fault)
                if fault == 'other':
                    new = job.store[rng.choice(hashes)]
                    if new == w:
                        continue
                if fault == 'forged':
                    p = wire.dec_packet(w)
                    new = handmade.packet(wire.content_object(p['name'], payload_type=p['payload_type'],
                                          payload=(p['payload'] or b'') + (b'x' if not p['is_manifest'] else b''),
                                          expiry_ms=12345), None)[1]
                with open(path, 'wb') as f:
                    f.write(new)
            job.must_refuse(rng, 'missing' if fault == 'missing' else 'altered', job.key_args(rng), by=by)
            ctx.distinct(job.ident(), h, fault)
            ctx.count('missing_files' if fault == 'missing' else 'altered_files')
            if fault in ('missing', 'directory'):
                if fault == 'directory':
                    os.rmdir(path)
                os.rename(path + '.away', path)
            else:
                with open(path, 'wb') as f:
                    f.write(w)
    job.unchanged('the reader')
    job.must_read(rng, 'repaired')
    if job.links:       # an altered link may lead nowhere, or to the file
        n = rng.choice(job.links)
        p = wire.dec_packet(job.snapshot[n])
        if p['name'] == job.o['name']:
            w = job.snapshot[n]
            i = rng.randrange(8, len(w))
            with open(os.path.join(job.dir, n), 'wb') as f:
                f.write(w[:i] + bytes([w[i] ^ (1 << rng.randrange(8))]) + w[i + 1:])
            code, got, text = job.read(rng, job.key_args(rng), by='name', what='link')
            ctx.check(code != 0 or got == job.data, 'altered-link', 'the reader exited with 0 after following an altered link to something else')
            ctx.count('altered_links')
    ctx.sample(ctx.config)


def holds(text, h):
    """Does the output show this hash?  Hash values are printed as hex numbers."""
    return h.hex().lstrip('0') in text.lower().replace(' ', '').replace('\n', '')


def show(ctx):
    """The packet reader shows every file, and pointers only to who has the key."""
    rng = ctx.rng
    job = Job(ctx, rng, small=True)
    job.write()
    job.judge_packets()
    by_file = {job.files[m.hash]: m for m in job.view.manifests}
    names = sorted(job.snapshot)
    rng.shuffle(names)
    manifests = [n for n in names if n in by_file][:3]
    others = [n for n in names if n not in by_file][:2 if not ctx.thorough else 10] + job.links[:1]
    for n in manifests + others:
        right = job.key_args(rng)
        # below the root, a manifest with a wrapped key does not carry the key: the content key itself opens it
        inner = job.o['enc'] == 'oaep' and n in by_file and not by_file[n].is_root
        if inner and job.o['key']:
            right += job.aes(True)
        opens = not inner or (job.o['key'] is not None and job.o['salt'] is not None)
        modes = [('right', right), ('none', [])]
        if job.o['enc']:
            modes.append(('no-encryption-key', job.key_args(rng, enc=False)))
            modes.append(('wrong', job.key_args(rng, wrong='wrap' if job.o['enc'] == 'oaep' else 'enc')))
        if job.o['sign'] and rng.random() < .5:
            modes.append(('wrong-verification-key', job.key_args(rng, wrong='sign')))
        for what, keys in modes:
            pretty = ['--pretty'] if rng.random() < .4 else []
            split = rng.random() < .5
            a = ['-i', job.dir] + pretty + keys + [n] if split else pretty + keys + [os.path.join(job.dir, n)]
            code, text = tool(ctx, 'packet_reader', a, real=rng.random() < .01)
            ctx.check(code == 0, 'show-failed', lambda: f'the packet reader exited with {code} for {n} with {what} keys: {text[-600:]}', packet=job.snapshot[n])
            ctx.check(len(text) > 40, 'nothing-shown', f'the packet reader printed {text!r}')
            ctx.count('packets_shown')
            ctx.distinct(job.ident(), n, what, bool(pretty))
            if n in by_file:
                kids = {c[1] for c in by_file[n].children}
                shown = [h for h in kids if holds(text, h)]
                readable = not job.o['enc'] or what in ('right', 'wrong-verification-key')
                if readable and not (opens and (what == 'right' or not inner)):
                    ctx.count('key_elsewhere')
                elif readable:
                    ctx.check(len(shown) == len(kids), 'pointers-not-shown', f'the packet reader showed {len(shown)} of the {len(kids)} pointers of {n} with {what} keys')
                    ctx.count('pointers_shown')
                else:
                    ctx.check(not shown, 'pointers-leaked', f'the packet reader showed {len(shown)} pointers of the encrypted {n} with {what} keys')
                    ctx.count('pointers_hidden')
    signed = [n for n in names if wire.dec_packet(job.snapshot[n])['sig'] is not None]
    for n in rng.sample(signed, min(len(signed), 2)):
        w = bytearray(job.snapshot[n])
        rsa = wire.dec_packet(bytes(w))['sig']['alg'] == 'rsa'
        w[-rng.randrange(1, 5 if not rsa else 100)] ^= 1 << rng.randrange(8)
        altered = os.path.join(ctx.scratch(), 'altered-packet')
        with open(altered, 'wb') as f:
            f.write(w)
        code, text = tool(ctx, 'packet_reader', job.key_args(rng) + [altered])
        ctx.check(code != 0, 'altered-shown', lambda: f'the packet reader exited with 0 for a packet with an altered signature, with the key: {text[-300:]}', packet=bytes(w))
        code, text = tool(ctx, 'packet_reader', [altered])
        ctx.check((code == 0) == rsa, 'altered-shown', lambda: f'the packet reader exited with {code} for a packet with an altered {"signature, without the key" if rsa else "checksum"}: {text[-300:]}', packet=bytes(w))
        ctx.count('altered_shown')
    foreign(ctx)
    job.unchanged('the packet reader')


def foreign(ctx):
    """Packets of other makers: without payload, of other types, signed without a time, with unreadable manifests."""
    rng = ctx.rng
    where = os.path.join(ctx.scratch(), 'foreign')
    os.mkdir(where)
    key = rng.choice(['a1024', 'b1024'])
    for i in range(4):
        name = rng.choice([None, gen.rand_name(rng)])
        kind = rng.choice([None, 0, 0, 1, 2, 3, 4])
        manifest = kind == 3
        broken = False
        if manifest:
            hashes = [rng.randbytes(32) for _ in range(rng.randrange(1, 4))]
            payload = handmade.node([handmade.group(hashes, 1, rng.choice([None, 7]))], [handmade.ncdef(1, handmade.schema('hashed', locs=[gen.rand_name(rng)]))])
            if rng.random() < .4:
                broken, payload = True, rng.choice([None, payload[:-1], payload[:rng.randrange(1, len(payload))]])
        else:
            payload = wire.link_tuple(gen.rand_name(rng)) if kind == 2 and rng.random() < .7 else rng.choice([None, b'', rng.randbytes(rng.randrange(1, 50))])
        body = wire.content_object(name, rng.choice([None, 0, 1700000000123]), kind, payload, rng.choice([None, 5]))
        how = rng.choice(['none', 'crc', 'rsa', 'rsa'])
        if how == 'rsa':
            alg = wire.alg_rsa(refcrypto.keyid(key), None, rng.choice([None, wire.link_tuple(gen.rand_name(rng))]), rng.choice([None, None, 1700000000000]))
            w = wire.packet(body, alg, wire.validation_payload(refcrypto.rsa_sign(key, body + alg)))
        else:
            w = handmade.packet(body, 'crc' if how == 'crc' else None)[1]
        path = os.path.join(where, f'p{i}')
        with open(path, 'wb') as f:
            f.write(w)
        pretty = rng.random() < .3
        keys = ['-k', pem(key)] if how == 'rsa' and rng.random() < .6 else []
        code, text = tool(ctx, 'packet_reader', (['--pretty'] if pretty else []) + keys + [path])
        if not broken:
            ctx.check(code == 0, 'foreign-failed', lambda: f'the packet reader exited with {code} for a packet of payload type {kind}, signed {how}: {text[-600:]}', packet=w)
            if manifest:
                ctx.check(all(holds(text, h) for h in hashes), 'foreign-pointers', 'the packet reader did not show the pointers of a foreign manifest', packet=w)
        ctx.check(len(text) > 40, 'nothing-shown', f'the packet reader printed {text!r}')
        with open(path, 'rb') as f:
            ctx.check(f.read() == w, 'foreign-changed', 'the packet reader changed the packet file')
        if keys:
            alt = bytearray(w)
            alt[-rng.randrange(1, 100)] ^= 1 << rng.randrange(8)
            with open(path, 'wb') as f:
                f.write(alt)
            code, text = tool(ctx, 'packet_reader', keys + [path])
            ctx.check(code != 0, 'foreign-altered', 'the packet reader exited with 0 for a foreign packet with an altered signature, with the key', packet=bytes(alt))
            # signed by another, whose key is in it, in the name of the one whose key is given
            other = 'b1024' if key == 'a1024' else 'a1024'
            alg = wire.alg_rsa(refcrypto.keyid(key), refcrypto.public_der(other), None, rng.choice([None, 1700000000000]))
            forged = wire.packet(body, alg, wire.validation_payload(refcrypto.rsa_sign(other, body + alg)))
            with open(path, 'wb') as f:
                f.write(forged)
            code, text = tool(ctx, 'packet_reader', keys + [path])
            ctx.check(code != 0, 'foreign-forged', 'the packet reader exited with 0 for a packet signed by a key in it and not by the given one', packet=forged)
            ctx.count('forged_shown')
        ctx.count('foreign_shown')
        ctx.distinct('foreign', w)


def text_output(ctx):
    """Without --output, the reader writes the file to standard output."""
    rng = ctx.rng
    job = Job(ctx, rng, small=True)
    words = ['alpha', 'beta', 'gamma\n', 'delta', '\n', '0123456789', ' ']
    job.data = ''.join(rng.choice(words) for _ in range(rng.randrange(1, 120))).encode()
    if rng.random() < .6:
        # any file: characters of several octets lie across packets, and most octets are no characters at all
        job.data = rng.choice([lambda: ''.join(rng.choice('a\xe9\u20ac\U0001f600') for _ in range(rng.randrange(20, 2000))).encode(),
                               lambda: rng.randbytes(rng.randrange(20, 4000)), lambda: b'\r\n\n\r\0\x1a' * rng.randrange(4, 300)])()
        ctx.count('octets_to_stdout')
    with open(job.file, 'wb') as f:
        f.write(job.data)
    job.write()
    real = rng.random() < .1
    out = os.path.join(ctx.scratch(), 'stdout')
    argv = ['--name', uri(job.o['name']), '-i', job.dir, '--hash', job.root.hex()] + job.key_args(rng)
    env = dict(os.environ, PYTHONPATH=REPO)
    p = subprocess.run([sys.executable, '-m', 'ccnpy.apps.manifest_reader'] + argv, cwd=ctx.scratch(), env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    ctx.count('commands')
    ctx.check(p.returncode == 0, 'stdout-failed', lambda: f'the reader exited with {p.returncode}: {p.stderr[-500:]}')
    ctx.check(job.data in p.stdout, 'stdout-data', 'the file is not in the standard output')
    ctx.count('text_files')


def prompts(ctx):
    """The writer asks for the passwords it is not given."""
    rng = ctx.rng
    job = Job(ctx, rng, small=True)
    if job.o['wrap'] and rng.random() < .5:
        job.o['wrap'], job.o['wrap_public'], job.o['sign'] = 'd2048.enc', False, rng.choice([None, 'a1024'])
    elif job.o['wrap']:
        job.o['wrap'], job.o['sign'] = 'c2048', 'd2048.enc'
    else:
        job.o['sign'] = rng.choice([None, 'a1024', 'd2048.enc', 'd2048.enc'])
    args, typed = job.writer_args(), []
    both = rng.random() < .5
    for flag in rng.choice([['-p', '--wrap-pass'], ['-p'], ['--wrap-pass']]) if not both else ['-p', '--wrap-pass']:
        if flag in args:
            i = args.index(flag)
            typed.append(args[i + 1])
            del args[i:i + 2]
    if 'secret' in typed and rng.random() < .35:
        bad = [rng.choice(['', 'wrong', 'Secret', 'secret ']) if t == 'secret' else t for t in typed]
        code, out = tool(ctx, 'manifest_writer', args, typed=''.join(t + '\n' for t in bad).encode())
        ctx.check(code != 0, 'wrong-password-typed', lambda: f'the writer exited with 0 when a wrong password was typed: {out[-300:]}')
        roots = [n for n, w in snapshot(job.dir).items() if not n.endswith('.link') and wire.dec_packet(w)['is_manifest'] and wire.dec_packet(w)['name'] == job.o['name']]
        ctx.check(job.o['schema'] == 'Prefix' or not roots, 'root-after-error', 'a wrong password was typed, and a root manifest is written')
        ctx.count('wrong_passwords')
    job.write(args=args, typed=''.join(t + '\n' for t in typed).encode())
    job.judge_packets()
    job.must_read(rng, 'by-hash')
    ctx.count('passwords_typed', len(typed))


def impossible(ctx):
    """What cannot be done ends with an error, and no root."""
    rng = ctx.rng
    job = Job(ctx, rng, small=True)
    if not job.data:
        with open(job.file, 'wb') as f:
            f.write(b'x')
    args = job.writer_args()
    cases = [('no-file', args[:-1] + [os.path.join(ctx.scratch(), 'nothing')]), ('no-name', args[2:]), ('tiny', args[:-1] + ['-s', '60', args[-1]]),
             ('degree', args[:-1] + ['-d', 'x', args[-1]]), ('directory', args[:-1] + [ctx.scratch()]),
             ('no-directory', args[:-1] + ['-o', os.path.join(ctx.scratch(), 'nowhere'), args[-1]]),
             ('schema', args[:-1] + ['--schema', 'Other', args[-1]]), ('expiry', args[:-1] + ['--root-expiry', 'soon', args[-1]]),
             ('enc-key', args[:-1] + ['--enc-key', '0102', args[-1]]), ('mode', args[:-1] + ['--aes-mode', 'CBC', args[-1]]),
             ('no-key', args[:-1] + ['-k', os.path.join(ctx.scratch(), 'no.pem'), args[-1]]),
             ('password', args[:-1] + ['-k', pem('d2048.enc'), '-p', 'wrong', args[-1]]),
             ('one-prefix', ['--name', 'ccnx:/n', '-o', job.dir, '-p', '', '--schema', 'Segmented', rng.choice(['--manifest-prefix', '--data-prefix']), 'ccnx:/m', args[-1]]),
             ('no-prefixes', ['--name', 'ccnx:/n', '-o', job.dir, '-p', '', '--schema', 'Segmented', args[-1]]),
             ('stray-prefix', ['--name', 'ccnx:/n', '-o', job.dir, '-p', '', '--schema', rng.choice(['Hashed', 'Prefix']), rng.choice(['--manifest-prefix', '--data-prefix']), 'ccnx:/m', args[-1]]),
             ('key-num', args[:-1] + ['--key-num', 'x', args[-1]]), ('salt', args[:-1] + ['--salt', '0xg', args[-1]]),
             ('kdf', args[:-1] + ['--kdf', 'HKDF-MD5', args[-1]]), ('not-hex', args[:-1] + ['--enc-key', '0x' + 'zz' * 16, args[-1]]),
             ('uri', ['--name', 'http://a/b', '-o', job.dir, '-p', '', args[-1]]),
             ('wrap', args[:-1] + ['--wrap-key', job.file, '--wrap-pass', '', args[-1]])]
    for what, a in rng.sample(cases, 7):
        code, out = tool(ctx, 'manifest_writer', a)
        ctx.check(code != 0, 'accepted-' + what, lambda: f'the writer exited with 0 when asked for the impossible ({what}): {out[-300:]}')
        roots = [n for n, w in snapshot(job.dir).items() if not n.endswith('.link') and wire.dec_packet(w)['is_manifest'] and wire.dec_packet(w)['name'] == job.o['name']
                 and what not in ('schema',)]
        ctx.check(job.o['schema'] == 'Prefix' or not roots, 'root-after-error', f'{what}: the writer failed, but left a root manifest')
        ctx.count('impossible_requests')
        ctx.distinct(job.ident(), what)
    code, out = tool(ctx, 'packet_reader', ['-i', job.dir, 'nothing'])
    ctx.check(code != 0, 'shows-nothing', 'the packet reader exited with 0 for a file that does not exist')
    bad = os.path.join(ctx.scratch(), 'bad')
    with open(bad, 'wb') as f:
        f.write(rng.randbytes(rng.randrange(0, 60)))
    code, out = tool(ctx, 'packet_reader', [bad])
    ctx.check(code != 0, 'shows-garbage', 'the packet reader exited with 0 for a file that is not a packet')


def network(ctx):
    """-T sends the same packets to the forwarder."""
    rng = ctx.rng
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    try:
        s.bind(('127.0.0.1', 9896))
    except OSError:
        ctx.count('port_taken')
        s.close()
        return
    s.listen(1)
    s.settimeout(60)
    got = bytearray()

    def serve():
        try:
            c, _ = s.accept()
            c.settimeout(60)
            with c:
                while True:
                    b = c.recv(rng_size)
                    if not b:
                        break
                    got.extend(b)
        except OSError:
            pass
    rng_size = rng.choice([1, 100, 65536])
    try:
        for _ in range(3):
            del got[:]
            t = threading.Thread(target=serve, daemon=True)
            t.start()
            job = Job(ctx, rng, small=True)
            job.o['link'] = False
            code, out = tool(ctx, 'manifest_writer', ['-T'] + job.writer_args())
            if code != 0:       # nobody connected: let the server go
                socket.create_connection(('127.0.0.1', 9896), timeout=5).close()
            t.join(100)
            ctx.check(code == 0, 'network-failed', lambda: f'the writer exited with {code}: {out[-500:]}')
            ctx.check(not os.listdir(job.dir), 'network-files', 'the writer wrote files although it was asked for TCP')
            job.store, at = {}, 0
            while at < len(got):
                n = int.from_bytes(got[at + 2:at + 4], 'big')
                ctx.check(n >= 8 and at + n <= len(got), 'network-framing', 'what the forwarder received is not a sequence of packets')
                w = bytes(got[at:at + n])
                job.store[hashlib.sha256(w[8:]).digest()] = w
                at += n
                last = w
            job.root, job.snapshot, job.links = hashlib.sha256(last[8:]).digest(), {}, []
            job.judge_packets()
            ctx.count('network_trees')
            os.rmdir(job.dir)
    finally:
        s.close()


KINDS = {
    'trip': (trip, 45, 900),
    'faults': (faults, 22, 500),
    'show': (show, 22, 500),
    'text': (text_output, 12, 90),
    'impossible': (impossible, 10, 150),
    'prompts': (prompts, 16, 250),
    'network': (network, 1, 1),
}
