"""Secrecy of the signing keys in the two client processes: a field-based, flow-insensitive, interprocedural taint analysis over the MIR of the oracle and CLI binaries."""
import re
import extract, core as C
from rules.base import *
WS = ('vrf_oracle', 'vrf_cli', 'ephemeral_vrf_api', 'ephemeral_vrf', 'ephemeral_vrf_sdk', 'ephemeral_vrf_program')
KEY = 'solana_keypair::Keypair'
# operations whose result reveals nothing about the key
PUBLIC = re.compile(r'(?:Transaction::\w+|::(?:pubkey|try_pubkey|pubkeys|try_pubkeys|sign_message|try_sign_message|try_sign_messages|is_interactive|new_signed_with_payer|new_signed_instructions|try_new|sign|try_sign|partial_sign|try_partial_sign|'
                    r'compute_vrf|verify_vrf|drop|drop_in_place|is_some|is_none|is_ok|is_err|is_empty|len))$')
SINK = re.compile(r'(^|[<& ])(core::fmt|core::io|alloc::io|alloc::fmt|std::io|std::fs|std::env|std::process|std::net|tokio::(fs|net|io|process)|core::panicking|std::panicking|log|tracing|tracing_core|env_logger|anyhow|serde|serde_core|serde_json)::')
def path_shows(p): return re.search(r'Argument|serde|fmt', p) is not None
LIBS = ('core', 'alloc', 'std', 'tokio', 'futures', 'futures_util', 'futures_core', 'curve25519_dalek', 'solana_keypair', 'solana_signer', 'ed25519_dalek', 'zeroize', 'clap', 'clap_builder', 'bs58', 'five8', 'hkdf', 'sha2')

_ext = []
def externs():
    """names of all the crates of the dependency graph: a type path that does not begin with one of them is the binary's own"""
    if not _ext:
        _ext.append({'core', 'alloc', 'std'} | {n.replace('-', '_') for n in re.findall(r'^name = "(.*)"', open(extract.REPO + '/Cargo.lock').read(), re.M)})
    return _ext[0]

class Flow:
    def __init__(self, dump, ctx, tag):
        self.d = extract.load(dump); self.ctx = ctx; self.tag = tag
        self.T = self.d['types']; self.I = self.d['insts']
        self.V = set(); self.W = set(); self.F = {}; self.uses = {}
        self.fns = {int(k): f for k, f in self.d['fns'].items() if self.I[int(k)]['crate'] in ('vrf_oracle', 'vrf_cli') and not self.skip(self.I[int(k)]['path'])}
        self.leaks = set(); self.ADTS = {x['path'] for x in self.T if x['k'] == 'adt' and self.local_adt(x)}
        self.byres = {}
    @staticmethod
    def skip(p): return re.search(r'as clap_builder::derive::\w+>::', p) is not None
    @staticmethod
    def debug_impl(p):
        m = re.match(r'<(.*?)(?:<.*>)? as (?:core::fmt::\w+|serde(?:_core)?::\w+(?:::\w+)*)>::\w+', p)
        return m and m[1]
    def ts(self, t): return self.T[t]['s']
    def keyish(self, t):
        x = self.T[t]; s = x['s']
        return KEY in s and x['k'] not in ('fndef', 'closure', 'coroutine', 'fnptr') and '{' not in s
    def strip(self, t):
        while self.T[t]['k'] in ('ref', 'ptr') and 'to' in self.T[t]: t = self.T[t]['to']
        return t
    def owner(self, t):
        """identity of a type whose fields are tracked one by one"""
        x = self.T[t]
        if x['k'] == 'adt': return x['path'] if self.local_adt(x) else None
        if x['k'] == 'tuple' and all(self.T[e]['k'] == 'ref' for e in x.get('elems', [])): return None   # the operands of a format string
        if x['k'] in ('tuple', 'closure', 'coroutine', 'coroutine_closure'): return x['s'] + ('#%d' % t if x['k'] != 'tuple' else '')
        return None
    def local_adt(self, x):
        return x['path'].split('::')[0] not in externs()
    # ---- places
    def ptaint(self, k, p):
        f = self.fns[k]; t = f['locals'][p[0]]['t']; r = (k, p[0]) in self.V
        if self.keyish(t): r = True
        for e in p[1]:
            if e[0] == '*': t = self.deref(t); continue
            if e[0] == 'f':
                o = self.owner(self.base(t))
                if o is not None:
                    if (o, e[1]) in self.F: r = True
                t = e[3]
                if self.keyish(t): r = True
            elif e[0] == 'v': pass
        return (r or self.keyish(p[2])) and self.able(self.base(p[2]))
    def deref(self, t):
        x = self.T[t]
        return x.get('to', x.get('elem', t)) if x['k'] in ('ref', 'ptr') else t
    def base(self, t):
        while self.T[t]['k'] in ('ref', 'ptr') and 'to' in self.T[t]: t = self.T[t]['to']
        return t
    def otaint(self, k, o): return o[0] in ('cp', 'mv') and self.ptaint(k, o[1])
    def mark(self, k, p):
        """the value at place p is secret"""
        f = self.fns[k]; t = f['locals'][p[0]]['t']; last = None
        for e in p[1]:
            if e[0] == '*': t = self.deref(t)
            elif e[0] == 'f':
                o = self.owner(self.base(t))
                if o is not None: last = (o, e[1], e[2] if len(e) > 2 else '')
                t = e[3]
        if last is not None: return self.markf(last[0], last[1])
        if (k, p[0]) not in self.V: self.V.add((k, p[0])); self.ch = True
    def markf(self, o, i):
        if (o, i) not in self.F: self.F[o, i] = True; self.ch = True
    def able(self, t):
        x = self.T[t]
        return x['s'] not in ('bool', '()', 'usize', 'u64', 'u32', '!') and not (x['k'] == 'adt' and re.search(r'(Error|Err)$', x['path']))
    # ---- calls
    def callee(self, t):
        x = self.T[t[1]] if isinstance(t[1], int) else None
        if x is None: return None, '', ''
        i = x.get('inst'); path = self.I[i]['path'] if i is not None else x.get('path', x['s'])
        crate = self.I[i]['crate'] if i is not None else path.lstrip('<&').split('::')[0]
        return i, path, crate
    def bodies(self, t, seen=None):
        """closure / coroutine bodies contained in a type"""
        seen = set() if seen is None else seen
        if t in seen: return
        seen.add(t); x = self.T[t]
        if x['k'] in ('closure', 'coroutine', 'coroutine_closure') and x.get('inst') is not None: yield x['inst']
        for a in ([x['to']] if 'to' in x else []) + [a for a in x.get('args', []) if isinstance(a, int)]: yield from self.bodies(a, seen)
    def carries(self, t, show, seen=()):
        """does a value of this type hold a secret (show: and would formatting it reveal it)"""
        if t in seen: return False
        x = self.T[t]; seen = seen + (t,)
        if self.keyish(t) and x['k'] == 'adt' and x['path'] == KEY: return True
        if x['k'] in ('ref', 'ptr', 'array', 'slice'): return self.carries(x.get('to', x.get('elem', t)), show, seen)
        if x['k'] == 'tuple': return any(self.carries(e, show, seen) for e in x.get('elems', [])) or any(o == self.owner(t) for o, _ in self.F)
        if x['k'] != 'adt': return False
        o = self.owner(t)
        if o is not None and o in self.ADTS:
            if not any(q[0] == o for q in self.F): return False
            return not show or o in self.leaks
        return any(self.carries(a, show, seen) for a in x.get('args', []) if isinstance(a, int))
    def use(self, k, b, path, bad, sp):
        m = self.debug_impl(self.I[k]['path'])
        if m:
            if bad and m not in self.leaks: self.leaks.add(m); self.ch = True
            return
        key = (self.I[k]['path'], path)
        self.uses[key] = (self.uses.get(key, (False,))[0] or bad, sp)
    def call(self, k, b, t, sp):
        i, path, crate = self.callee(t)
        args, dest = t[3], t[4]
        ta = [n for n, o in enumerate(args) if self.otaint(k, o)]
        aty = [o[1][2] if o[0] in ('cp', 'mv') else None for o in args]
        res = False
        name = re.sub(r"::<.*?>", '', path)
        if re.search(r'::generate_vrf_keypair$', name):
            self.use(k, b, name, False, sp)
            o = self.owner(dest[2])
            if o is not None: self.markf(o, 0)
            else: self.mark(k, dest)
            return
        if re.search(r'^std::env::(args|args_os|vars|vars_os)$', name): return self.mark(k, dest)   # the command line and the environment hold the key
        if i is not None and i in self.fns:                        # followed
            for n in ta:
                if (i, n + 1) not in self.V and not self.keyish(self.fns[i]['locals'][n + 1]['t'] if n + 1 < len(self.fns[i]['locals']) else 0): self.V.add((i, n + 1)); self.ch = True
            if ta: self.use(k, b, name, False, sp)
            res = (i, 0) in self.V
        else:
            lib = crate in LIBS
            if SINK.search(path):
                shown = path_shows(path) and any(a is not None and self.carries(a, True) for a in aty)
                if ta or shown: self.use(k, b, name, True, sp)
            elif not ta and not lib and crate not in WS and not PUBLIC.search(name) and any(a is not None and self.carries(a, False) for a in aty): self.use(k, b, name, True, sp)
            elif ta:
                if PUBLIC.search(name): self.use(k, b, name, False, sp); res = False
                else:
                    self.use(k, b, name, not lib, sp)
                    res = lib
                    if lib:
                        for n, a in enumerate(aty):
                            if a is None: continue
                            if n not in ta and self.ts(a).startswith('&mut ') and not list(self.bodies(a)): self.mark(k, args[n][1])
                            for c in self.bodies(a):
                                if c in self.fns:
                                    for q in range(2, self.fns[c]['argc'] + 1):
                                        if (c, q) not in self.V and self.able(self.fns[c]['locals'][q]['t']): self.V.add((c, q)); self.ch = True
            for a in aty:
                if a is None: continue
                for c in self.bodies(a):
                    if (c, 0) in self.V: res = True
            # writing through what a call hands out: a guard, a dereferenced box, an entry
            if lib and len(args) == 1 and args[0][0] in ('cp', 'mv') and not dest[1] and (k, dest[0]) in self.V and not ta and ('&mut' in self.ts(dest[2]) or 'Guard' in self.ts(dest[2])):
                self.mark(k, args[0][1])
                if (k, args[0][1][0]) not in self.W: self.W.add((k, args[0][1][0])); self.ch = True
        if res and self.able(dest[2]): self.mark(k, dest)
    # ---- where the secrets come from: whatever a key is built from
    def sources(self):
        B = set()
        for k, f in self.fns.items():
            for b in f['blocks']:
                t = b['t']
                if t[0] == 'call' and re.search(r'Keypair::(from_|try_from|new_from|read)|read_keypair|keypair_from|Keypair as .*::(try_from|from_str)', self.callee(t)[1]):
                    for o in t[3]:
                        if o[0] in ('cp', 'mv'): B.add((k, o[1][0]))
        ch = True; seeds = set()
        def demand(k, o):
            if o[0] not in ('cp', 'mv'): return False
            p = o[1]; t = self.fns[k]['locals'][p[0]]['t']; hit = None
            for e in p[1]:
                if e[0] == '*': t = self.deref(t)
                elif e[0] == 'f':
                    w = self.owner(self.base(t))
                    if w is not None: hit = (w, e[1])
                    t = e[3]
            if hit is not None:
                if hit not in seeds: seeds.add(hit); return True
                return False
            if (k, p[0]) in B: return False
            B.add((k, p[0])); return True
        while ch:
            ch = False
            for k, f in self.fns.items():
                for b in f['blocks']:
                    for s in b['s']:
                        if s[0] != '=' : continue
                        r = s[2]
                        dem = (k, s[1][0]) in B and not any(e[0] == 'f' for e in s[1][1])
                        if dem:
                            if r[0] in ('use', 'rep'): ch |= demand(k, r[1])
                            elif r[0] == 'ref': ch |= demand(k, ['cp', r[1]])
                            elif r[0] == 'cast': ch |= demand(k, r[2])
                        if r[0] == 'agg':
                            o = self.owner(s[1][2])
                            for n, x in enumerate(r[4]):
                                if dem and o is None or o is not None and (o, n) in seeds: ch |= demand(k, x)
                    t = b['t']
                    if t[0] == 'call':
                        i, path, crate = self.callee(t)
                        if (k, t[4][0]) in B and i not in self.fns and not re.search(r'::(parse|try_parse|parse_from)$', path):
                            for o in t[3]: ch |= demand(k, o)
                        if i in self.fns:
                            for n, o in enumerate(t[3]):
                                if (i, n + 1) in B: ch |= demand(k, o)
        return seeds, B
    def solve(self):
        seeds, B = self.sources()
        for s in seeds: self.F[s] = True
        for k, l in B:
            if l > 0 and not self.keyish(self.fns[k]['locals'][l]['t']): self.V.add((k, l))
        self.B = B
        self.ch = True; n = 0
        while self.ch:
            self.ch = False; n += 1
            if n > 200: raise C.AnalysisError('taint analysis does not converge')
            for k, f in self.fns.items():
                for bn, b in enumerate(f['blocks']):
                    for s in b['s']:
                        if s[0] != '=': continue
                        p, r = s[1], s[2]
                        if r[0] in ('use', 'rep') and self.otaint(k, r[1]) or r[0] == 'cast' and self.otaint(k, r[2]): self.mark(k, p)
                        elif r[0] == 'ref':
                            if self.ptaint(k, r[1]): self.mark(k, p)
                            elif (r[2] or (k, p[0]) in self.W) and (k, p[0]) in self.V and not p[1]: self.mark(k, r[1])
                        elif r[0] == 'agg':
                            o = self.owner(p[2])
                            for j, x in enumerate(r[4]):
                                if self.otaint(k, x):
                                    if o is not None: self.markf(o, j)
                                    else: self.mark(k, p)
                        elif r[0] == 'bin' and (self.otaint(k, r[2]) or self.otaint(k, r[3])) and self.ts(p[2]) not in ('bool', 'usize'): self.mark(k, p)
                    t = b['t']
                    if t[0] == 'call': self.call(k, bn, t, b.get('sp'))
                    if t[0] == 'yield' and self.otaint(k, t[1]): pass
        return self

@rule('O09')
def o09(ctx):
    """taint analysis of the oracle and CLI binaries: from whatever strings a signing key is built from, every Keypair, and the VRF secret derived from it, through fields, calls, closures and awaits; the only operations they reach are
    key derivation, public-key extraction, signing, proof computation and data-structure plumbing - never formatting, I/O, serialisation, or another crate's interface"""
    for dump, tag in (('vrf_oracle-bin', 'oracle'), ('vrf_cli-bin', 'cli')):
        fl = Flow(dump, ctx, tag).solve()
        for k in fl.fns: ctx.scope.add(fl.I[k]['path'])
        ctx.ob('secret-source-found@' + tag, bool(fl.B), tag, lambda: 'nothing feeds a key')
        for (fn, path), (bad, sp) in sorted(fl.uses.items()):
            ctx.ob('secret-stays-inside@%s:%s->%s' % (tag, fn, path), not bad, '%s (%s:%s)' % (fn, sp[0], sp[1]) if sp else fn, lambda: 'a value derived from the secret key reaches %s' % path)
