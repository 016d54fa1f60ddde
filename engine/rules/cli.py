"""The management CLI: every path of the (async) main body against the operation each command names."""
from rules.base import *
import re
import rules.sdk as S
_c = {}; _r = {}
RPC = 'solana_rpc_client::rpc_client::RpcClient::'
EXIT = 'std::process::exit'
API = 'ephemeral_vrf_api::'
def engine():
    if not _c:
        e = C.Engine(extract.load('vrf_cli-bin', 'workspace'), offchain=True)
        e.eventful = lambda n: n.startswith(RPC) or n == EXIT or 'stdio::_print' in n or n.startswith('std::fs::') or '::signature::' in n and 'read_keypair' in n
        ks = [k for k, i in enumerate(e.insts) if i['path'] == 'main::{closure#0}' and i['body'] and str(k) in e.fns]
        if len(ks) != 1: raise C.AnalysisError('main body of the CLI not found')
        _c['e'] = e
        _c['outs'] = e.run(ks[0], [mk('sym', 'self'), mk('sym', 'cx')], C.State(), 0)
    return _c['e'], _c['outs']
def calls(o, pred):
    return [(n, x) for n, x in enumerate(o.st.events) if x.args[0] == 'call' and pred(x.args[1])]
def loopcalls(o):
    """names of the recorded calls made inside the loops of a path"""
    r = []
    def go(x):
        if isinstance(x, T):
            if x.op == 'ev' and x.args[0] == 'call': r.append(x.args[1])
            for y in x.args: go(y)
        elif isinstance(x, tuple):
            for y in x: go(y)
    for x in o.st.events:
        if x.args[0] == 'loop': go(x)
    return r
def variants(e):
    for t in e.types:
        if t['k'] == 'adt' and t['path'].split('::')[-1] == 'Commands': return [v['name'] for v in t['variants']]
    raise C.AnalysisError('CLI command type not found')
def command(o, names):
    """(command value, variant) decided on this path"""
    cmd = None; no = set()
    for f, v in o.st.facts.items():
        if f.op == 'isvar' and f.args[1] in names:
            cmd = f.args[0]
            if v: return cmd, f.args[1]
            no.add(f.args[1])
    left = [n for n in names if n not in no]
    return (cmd, left[0]) if len(left) == 1 else (cmd, None)
def txparts(t):
    """(instructions, payer, signers) of the signed transaction inside a submitted value"""
    t = strip(t)
    m = next((u.args[0] for u in walk(t) if u.op == 'mutby' and u.args[0].op == 'call' and 'Transaction::' in u.args[0].args[0]), None)
    if m is not None:
        if not re.search(r'Transaction::(try_)?(partial_)?sign$', m.args[0]): return None
        # an unsigned transaction, signed in place
        _, base, signers, blockhash = m.args[:4]; base = strip(base)
        if base.op == 'call' and base.args[0].endswith('Transaction::new_with_payer'): return base.args[1], base.args[2], signers, blockhash
        if base.op == 'call' and base.args[0].endswith('Transaction::new_unsigned'):
            for w in walk(strip(base.args[1])):
                if w.op == 'call' and w.args[0].split('::')[-1] in ('new', 'new_with_blockhash') and 'Message' in w.args[0]: return w.args[1], w.args[2], signers, blockhash
        return None
    for u in walk(t):
        if u.op != 'call': continue
        n = u.args[0].split('::')[-1]; a = u.args[1:]
        if n in ('new_signed_with_payer',): return a[0], a[1], a[2], a[3]
        if u.args[0].endswith('Transaction::new'):
            for w in walk(strip(a[1])):
                if w.op == 'call' and w.args[0].split('::')[-1] in ('new', 'new_with_blockhash') and 'Message' in w.args[0]: return w.args[1], w.args[2], a[0], a[2]
    return None
def is_budget(x): return x.op == 'call' and 'ComputeBudgetInstruction::' in x.args[0]
def parsed(e, o, text, ty='Pubkey'):
    """the successful results of parsing `text` on this path"""
    r = []
    for f, v in o.st.facts.items():
        if v and f.op == 'isvar' and f.args[1] == 'Ok' and f.args[0].op == 'call' and 'from_str' in f.args[0].args[0] and strip(f.args[0].args[1]) is text:
            r.append(mk('ok', f.args[0]))
    return r
def signer_ok(o, root, s):
    """the signing key pair: the parsed --keypair, or the built-in default when none is given"""
    s = strip(s)
    if not (s.op == 'call' and 'from_base58_string' in s.args[0]): return False
    a = strip(s.args[1]); k = fld(root, 'keypair')
    some = o.st.decide(isvar(k, 'Some')); none = o.st.decide(isvar(k, 'None'))
    if some is True or none is False: return a is fld(as_(k, 'Some'), '0', 0)
    if none is True or some is False: return a.op == 'bytes' or not any(u is k for u in walk(a))
    return False
def expected(e, o, root, signer, cmd, var):
    """what the API prescribes for this command on this path: per way of establishing the arguments, the instruction list of every
    outcome of the builder this path does not exclude; None when the arguments cannot be established"""
    me = mk('call', 'solana_signer::Signer::pubkey', mk('&', signer))
    V = as_(cmd, var)
    def build(fn, *args):
        r = []
        for x in run_api(e, o, 'sdk::' + fn, list(args)):
            if x.kind != 'ret': continue
            t = o.st.copy()
            for f, v in x.st.facts.items():
                if t.decide(f) is (not v): break
                t.assume(f, v)
            else:
                if not t.refuted(): r.append(x.val)
        return r
    one = lambda vs: [[[v] for v in vs]]
    for u in walk_all(o):
        if u.op == 'call' and u.args[0].split('<')[0] == 'solana_signer::Signer::pubkey' and strip(u.args[1]) is signer: me = u; break
    if var == 'Initialize': return one(build('initialize', me))
    if var == 'AddOracle':
        return [[[v] for v in build('add_oracle', me, i, k)] for i in parsed(e, o, fld(V, 'identity')) for k in parsed(e, o, fld(V, 'oracle_pubkey'))]
    if var == 'RemoveOracle': return [[[v] for v in build('remove_oracle', me, i)] for i in parsed(e, o, fld(V, 'identity'))]
    if var == 'InitializeOracleQueue':
        r = []
        for i in parsed(e, o, fld(V, 'identity')):
            r.append(build('initialize_oracle_queue', me, i, fld(V, 'index'), fld(V, 'bytes_to_allocate')))
        return r
    if var in ('DelegateOracleQueue', 'UndelegateOracleQueue', 'CloseOracleQueue'):
        r = []
        for q in parsed(e, o, fld(V, 'queue')):
            for ix in queue_index(e, o, q):
                if var == 'DelegateOracleQueue': r += one(build('delegate_oracle_queue', me, q, ix))
                if var == 'UndelegateOracleQueue': r += one(build('undelegate_oracle_queue', me, q, ix))
                if var == 'CloseOracleQueue': r += one(build('close_oracle_queue', me, ix))
        return r
    return None
def walk_all(o):
    for f in o.st.facts: yield from walk(f)
def queue_index(e, o, q):
    """the index fields of the queue accounts fetched for address q on this path"""
    r = []
    for n, x in calls(o, lambda n: n.startswith(RPC + 'get_account')):
        if not any(strip(y) is q for y in x.args[3:]): continue
        c = next((f.args[0] for f, v in o.st.facts.items() if v and f.op == 'isvar' and f.args[1] == 'Ok' and f.args[0].op == 'call' and f.args[0].args[:len(x.args) - 1] == x.args[1:]), None)
        if c is None: continue
        ok = mk('ok', c)
        for data in (fld(ok, 'data'), ok, fld(as_(fld(ok, 'value'), 'Some'), '0', 0)):
            if data.op == 'fld' and data.args[1] == '0': data = fld(data, 'data')
            for y in run_api(e, o, 'state::queue::Queue::try_from_bytes', [data]):
                if y.kind == 'ret' and y.val.op == 'agg' and y.val.args[1] == 'Ok' and all(o.st.decide(f) is v for f, v in y.st.facts.items()):
                    v = y.val.args[2]
                    while v.op == 'ref': v = e.loadref(y.st, v)
                    r.append(fld(strip(v), 'index'))
    return list(dict.fromkeys(r))
def run_api(e, o, suffix, args):
    if (suffix, tuple(args)) in _r: return _r[suffix, tuple(args)]
    ks = [k for k in e.find(API + suffix)]
    if len(ks) != 1: return []     # not linked into the CLI, so never called
    k = ks[0]; st = C.State()
    tys = [l['t'] for l in e.fns[str(k)]['locals'][1:1 + e.fns[str(k)]['argc']]]; a2 = []
    for j, (v, t) in enumerate(zip(args, tys)):
        if e.types[t]['k'] == 'ref': st.store[('arg', 'k%d' % j)] = v; a2.append(ref(('arg', 'k%d' % j)))
        else: a2.append(v)
    _r[suffix, tuple(args)] = e.run(k, a2, st, 0)
    return _r[suffix, tuple(args)]
def derived(e, o, root):
    """compressed VRF public key(s) the VRF crate derives for the selected signer"""
    r = []
    for s in {u for x in o.st.events for u in walk(x) if u.op == 'call' and 'from_base58_string' in u.args[0]}:
        if not signer_ok(o, root, s): continue
        k = S.fn(e, 'vrf::generate_vrf_keypair'); st = C.State(); st.store[('arg', 'kp')] = s
        for y in e.run(k, [ref(('arg', 'kp'))], st, 0):
            if y.kind == 'ret': r.append(mk('cmp', e.val(y.st, fld(y.val, '1', 1))))
    return r
READONLY = ('ListQueue', 'DerivePubkey')

@rule('K01', doc='on every path of the CLI the submitted transaction is the one the named command prescribes')
def k01(ctx):
    e, outs = engine(); ctx.saw(e, outs)
    where = where_fn(e, 'main::{closure#0}')
    names = variants(e); done = {n: 0 for n in names}
    for o in outs:
        if S.printing(o): continue
        cmd, var = command(o, names)
        label = var or 'undecided'
        ok = o.kind == 'ret' and o.val.op == 'agg' and o.val.args[1] == 'Ok'
        sends = calls(o, lambda n: n.startswith(RPC + 'send'))
        ctx.ob('no-submission-in-a-loop@' + label, not any(n.startswith(RPC + 'send') for n in loopcalls(o)), where, 'a transaction is submitted inside a loop')
        exits = calls(o, lambda n: n == EXIT)
        if o.kind == 'panic' and not exits:
            ctx.fail('no-panic@' + label, where, lambda: Tr(e, o, show(o.val)).text()[:2500]); continue
        code = exits[0][1].args[2] if exits else None
        success = ok or (code is not None and (code is ZERO or not isint(code)))
        if var in READONLY:
            ctx.ob('read-only@' + var, not sends, where, lambda: 'submits %s' % show(sends[0][1], 8))
            done[var] += success
            if var == 'DerivePubkey' and success and cmd is not None:
                root = cmd
                while root.op in ('fld', 'as'): root = root.args[0]
                want = derived(e, o, root)
                shown = [u for n, x in calls(o, lambda n: '_print' in n) for u in walk(x) if u.op == 'cmp']
                ctx.ob('derived-key-shown', bool(want) and any(u in want for u in shown), where, lambda: 'prints %s\nthe VRF key of the selected signer is %s' % ([show(u, 14) for u in shown], [show(u, 14) for u in want]))
            continue
        if var is None:
            ctx.ob('nothing-before-dispatch', not sends and not success, where, lambda: Tr(e, o, 'no command decided').text()[:2500]); continue
        ctx.ob('at-most-one-submission@' + var, len(sends) <= 1, where, lambda: '%d submissions' % len(sends))
        if success:
            ctx.ob('success-means-submitted@' + var, ok and len(sends) == 1, where, lambda: Tr(e, o, 'ends successfully without submitting').text()[:2500])
            # the submission itself must have been accepted
            good = sends and any(v and f.op == 'isvar' and f.args[1] == 'Ok' and f.args[0].op == 'call' and f.args[0].args[0].startswith(RPC + 'send') for f, v in o.st.facts.items())
            ctx.ob('success-means-accepted@' + var, bool(good), where, 'the result of the submission is ignored')
        for n, x in sends:
            tp = txparts(x)
            if not ctx.ob('transaction-form@' + var, tp is not None, where, lambda: 'submits %s' % show(x, 9)): continue
            ixs, payer, signers, bh = tp
            root = cmd
            while root.op in ('fld', 'as'): root = root.args[0]
            sg = strip(signers)
            sg = [strip(y) for y in sg.args] if sg.op == 'arr' else None
            if not ctx.ob('one-signer@' + var, sg is not None and len(sg) == 1, where, lambda: show(signers, 8)): continue
            signer = sg[0]
            ctx.ob('selected-signer@' + var, signer_ok(o, root, signer), where, lambda: 'signs with %s' % show(signer, 9))
            p = payer.args[2] if payer.op == 'agg' and payer.args[1] == 'Some' else payer
            p = strip(p)
            ctx.ob('payer-is-signer@' + var, p.op == 'call' and 'pubkey' in p.args[0] and strip(p.args[1]) is signer, where, lambda: 'fees paid by %s' % show(p, 8))
            ctx.ob('recent-blockhash@' + var, bh.op == 'ok' and bh.args[0].op == 'call' and bh.args[0].args[0].startswith(RPC + 'get_latest_blockhash'), where, lambda: show(bh, 8))
            exp = expected(e, o, root, signer, cmd, var)
            got = [y for y in catargs(strip(ixs)) if not is_budget(y)]
            alts = [[[y for y in (catargs(w) if isinstance(w, T) else w)] for w in ws] for ws in exp or []]
            want = [w for ws in alts for w in ws]
            ctx.ob('prescribed-instruction@' + var, any(ws and all(got == w for w in ws) for ws in alts), where,
                   lambda: 'submits\n%s\nthe API prescribes\n%s' % ('\n'.join(show(y, 12) for y in got), '\n'.join(show(y, 12) for w in want for y in w) or '(no value for these arguments on this path)'))
            done[var] += 1
            if var in ('CloseOracleQueue', 'DelegateOracleQueue', 'UndelegateOracleQueue') and var == 'CloseOracleQueue':
                V = as_(cmd, var)
                hit = False
                for q in parsed(e, o, fld(V, 'queue')):
                    for y in got:
                        ix = S.ixparts(y)
                        if ix and any(k is q or o.st.decide(eqv(k, q)) is True for k, s, w in ix[1]): hit = True
                ctx.ob('named-queue-addressed@' + var, hit, where, lambda: 'the instruction does not address the named queue: ' + '\n'.join(show(y, 10) for y in got))
    for n in names:
        ctx.ob('command-has-effect@' + n, done[n] > 0, where, 'no path of this command completes')
def catargs(v):
    v = strip(v)
    if v.op in ('arr',): return list(v.args)
    if v.op == 'cat':
        r = []
        for x in v.args: r += catargs(x)
        return r
    return [v]
