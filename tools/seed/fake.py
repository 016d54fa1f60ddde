"""A stand-in RPC node on the loopback interface, and just enough of the wire formats to read what was sent to it."""
import base64, hashlib, json, os, signal, socket, struct, subprocess, threading, time
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
AL = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
def b58d(s):
    n = 0
    for c in s: n = n * 58 + AL.index(c)
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return b'\0' * (len(s) - len(s.lstrip('1'))) + b
def b58e(b):
    n = int.from_bytes(b, 'big'); s = ''
    while n: n, r = divmod(n, 58); s = AL[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + s
PR = 2**255 - 19
def on_curve(b):
    y = int.from_bytes(b, 'little') & (2**255 - 1)
    if y >= PR: y %= PR
    d = -121665 * pow(121666, PR - 2, PR) % PR
    x2 = (y * y - 1) * pow(d * y * y + 1, PR - 2, PR) % PR
    return x2 == 0 or pow(x2, (PR - 1) // 2, PR) == 1
def pda(seeds, prog):
    for bump in range(255, -1, -1):
        h = hashlib.sha256(b''.join(seeds) + bytes([bump]) + prog + b'ProgramDerivedAddress').digest()
        if not on_curve(h): return h
PROGRAM = b58d('Vrf1RNUjXmQGjmQrQLvJHs9SNkvDJEsRVFPkfSQUwGz')
IDENTITY = 'D4fURjsRpMj1vzfXqHgL94UeJyXR8DFyfyBDmbY647PnpuDzszvbRocMQu6Tzr1LUzBTQvXjarCxeb94kSTqvYx'
ORACLE = b58d(IDENTITY)[32:]
def cu16(b, i):
    n = s = 0
    while True:
        x = b[i]; i += 1; n |= (x & 127) << s; s += 7
        if not x & 128: return n, i
def parse(tx):
    """instructions of a legacy transaction: (program, [accounts], data)"""
    n, i = cu16(tx, 0); i += 64 * n
    i += 3
    n, i = cu16(tx, i); keys = [tx[i + 32 * k:i + 32 * k + 32] for k in range(n)]; i += 32 * n + 32
    n, i = cu16(tx, i); ixs = []
    for _ in range(n):
        p = tx[i]; i += 1
        m, i = cu16(tx, i); acc = [keys[x] for x in tx[i:i + m]]; i += m
        m, i = cu16(tx, i); ixs.append((keys[p], acc, tx[i:i + m])); i += m
    return ixs
class Node:
    def __init__(self):
        self.sent = []; self.accounts = {}; self.slot = 1000; self.confirm = True; self.lock = threading.Lock(); node = self
        class H(BaseHTTPRequestHandler):
            protocol_version = 'HTTP/1.1'
            def log_message(self, *a): pass
            def do_POST(self):
                q = json.loads(self.rfile.read(int(self.headers['content-length'])))
                try: r = {'result': node.answer(q['method'], q.get('params') or [])}
                except Exception as e: r = {'error': {'code': -32000, 'message': str(e)}}
                b = json.dumps(dict(jsonrpc='2.0', id=q['id'], **r)).encode()
                self.send_response(200); self.send_header('content-type', 'application/json'); self.send_header('content-length', str(len(b))); self.end_headers(); self.wfile.write(b)
        self.srv = ThreadingHTTPServer(('127.0.0.1', 0), H); self.srv.daemon_threads = True
        self.url = 'http://127.0.0.1:%d' % self.srv.server_port
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()
    def ui(self, a): return {'lamports': 10**9, 'owner': b58e(PROGRAM), 'data': [base64.b64encode(a).decode(), 'base64'], 'executable': False, 'rentEpoch': 0, 'space': len(a)}
    def answer(self, m, p):
        ctx = {'slot': self.slot, 'apiVersion': '3.0.0'}
        if m == 'getLatestBlockhash': return {'context': ctx, 'value': {'blockhash': b58e(hashlib.sha256(b'%d' % self.slot).digest()), 'lastValidBlockHeight': 10**9}}
        if m == 'getVersion': return {'solana-core': '3.0.0', 'feature-set': 1}
        if m == 'getProgramAccounts':
            with self.lock: return [{'pubkey': b58e(k), 'account': self.ui(a)} for k, a in self.accounts.items()]
        if m == 'getAccountInfo': 
            a = self.accounts.get(b58d(p[0]))
            return {'context': ctx, 'value': self.ui(a) if a is not None else None}
        if m == 'sendTransaction':
            tx = base64.b64decode(p[0]) if (len(p) > 1 and p[1].get('encoding') == 'base64') else b58d(p[0])
            with self.lock: self.sent.append((time.time(), parse(tx)))
            return b58e(tx[1:65])
        if m == 'getSignatureStatuses':
            if not self.confirm: raise RuntimeError('unavailable')
            return {'context': ctx, 'value': [{'slot': self.slot, 'confirmations': 40, 'err': None, 'status': {'Ok': None}, 'confirmationStatus': 'finalized'} for _ in p[0]]}
        if m == 'getBlockHeight' or m == 'getSlot': return self.slot
        if m == 'isBlockhashValid': return {'context': ctx, 'value': True}
        raise RuntimeError('not here: ' + m)
    def ops(self):
        """(time, accounts, data) of the program's instructions sent so far"""
        with self.lock: return [(t, acc, d) for t, ixs in self.sent for pr, acc, d in ixs if pr == PROGRAM]
def queue(index, items, size=60):
    """account bytes of a queue; items: (id, slot)"""
    body = b''
    for k, (i, slot) in enumerate(items):
        body += struct.pack('<Q32s32sIIIHHHBB', slot, i, hashlib.sha256(b'cb').digest(), 0, 0, 0, 0, 0, 0, 0, 1) + b'\0' * 4
    body = b''.join(x[:96] for x in [body[j:j + 96] for j in range(0, len(body), 96)])
    hdr = struct.pack('<II', len(items), 16 + 96 * len(items)) + bytes([index, 0, 0, 0])
    return struct.pack('<Q', 3) + hdr + b'\0' * 4 + body + b'\0' * (96 * size)
def queue_key(index, oracle=ORACLE): return pda([b'queue', oracle, bytes([index])], PROGRAM)
class Service:
    """the built oracle, pointed at the node"""
    def __init__(self, node):
        self.log = open(os.devnull, 'w')
        self.p = subprocess.Popen([os.environ.get('VRF_BIN', '/repo/target/debug/vrf-oracle'), '--rpc-url', node.url, '--websocket-url', 'ws://127.0.0.1:9'], stdout=self.log, stderr=self.log,
                                  env=dict(os.environ, RUST_LOG='off'))
    def stop(self): self.p.kill(); self.p.wait()
def until(f, t):
    end = time.time() + t
    while time.time() < end:
        if f(): return True
        time.sleep(0.2)
    return f()
