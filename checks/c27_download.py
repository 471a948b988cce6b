"""Explores every reachable state of the download directory: from each state, the script is run under every server
fault and with a crash, an interrupt or an error at every one of its file operations."""
import concurrent.futures
import hashlib
import io
import itertools
import os
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import threading
import time
import zipfile

import build

HERE = os.path.dirname(os.path.abspath(__file__))


def archive():
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w', zipfile.ZIP_STORED) as z:
        for k in range(3):
            z.writestr(zipfile.ZipInfo(f'org/antlr/v4/Tool{k}.class'), b''.join(hashlib.sha256(b'%d %d' % (k, i)).digest() for i in range(3100)))
    return b.getvalue()


BODY = archive()


class Server:
    """One thread per connection; the first path component is the run, the second the fault."""

    def __init__(self):
        self.s = socket.socket()
        self.s.bind(('127.0.0.1', 0))
        self.s.listen(256)
        self.port = self.s.getsockname()[1]
        dead = socket.socket()
        dead.bind(('127.0.0.1', 0))   # bound, never listening: connections are refused
        self.dead, self.dead_port = dead, dead.getsockname()[1]
        self.requests = {}
        self.holding = {}
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        try:
            c.settimeout(30)
            data = b''
            while b'\r\n\r\n' not in data:
                more = c.recv(65536)
                if not more:
                    return
                data += more
            path = data.split(b' ')[1].decode()
            _, run, fault = path.split('/')[:3]
            self.requests[run] = self.requests.get(run, 0) + 1
            kind, _, arg = fault.partition('-')
            full = b'HTTP/1.1 200 OK\r\nContent-Type: application/java-archive\r\nContent-Length: %d\r\nConnection: close\r\n\r\n' % len(BODY)
            k = int(arg or 0) if kind != 'status' else 0
            if k < 0:
                k += len(BODY)
            if kind == 'ok':
                c.sendall(full + BODY)
            elif kind == 'status':
                c.sendall(b'HTTP/1.1 %s Something\r\nContent-Type: text/html\r\nContent-Length: 20\r\nConnection: close\r\n\r\n<html>no jar</html>\n' % arg.encode())
            elif kind == 'short':
                c.sendall(full + BODY[:k])
            elif kind == 'chunked':
                c.sendall(b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n%x\r\n' % len(BODY) + BODY[:k])
            elif kind == 'eof':
                c.sendall(b'HTTP/1.0 200 OK\r\n\r\n' + BODY[:k])
            elif kind == 'head':
                c.sendall(full[:k])
            elif kind == 'garbage':
                c.sendall(b'this is not HTTP\r\n\r\n')
            elif kind == 'reset':
                c.sendall(full + BODY[:k])
                self.drained(c)
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            elif kind in ('holdkill', 'holdint', 'holdterm'):
                c.sendall(full + BODY[:k])
                self.drained(c)
                self.holding[run] = True
                try:
                    c.recv(1)  # until the client is gone
                except OSError:
                    pass
        except OSError:
            pass
        finally:
            c.close()

    @staticmethod
    def drained(c):
        import fcntl
        import termios
        for _ in range(2000):
            if struct.unpack('i', fcntl.ioctl(c.fileno(), termios.TIOCOUTQ, b'\0' * 4))[0] == 0:
                break
            time.sleep(0.001)
        time.sleep(0.03)


def fingerprint(root, jar):
    """what is in the directory, without names that are different every time"""
    items = []
    for d, dirs, names in os.walk(root):
        for n in names:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            b = open(p, 'rb').read() if not os.path.islink(p) else b'link'
            what = 'complete' if b == BODY else f'{len(b)} bytes' if BODY.startswith(b) else f'{len(b)} other bytes'
            items.append(('jar' if rel == jar else 'other', what))
        for n in dirs:
            items.append(('dir', n if d == root else 'sub'))
    return tuple(sorted(set(items)))


class Explorer:
    def __init__(self, tier):
        self.tier = tier
        self.scratch = tempfile.mkdtemp(prefix='verif-c27-')
        self.server = Server()
        self.ids = itertools.count()
        self.script = os.path.join(build.REPO, 'scripts', 'generate_antlr_parser.py')
        self.violations, self.samples = [], []
        self.runs = self.faults_hit = 0
        self.jar = None
        s = self.scratch
        os.makedirs(s + '/bin')
        with open(s + '/archive', 'wb') as f:
            f.write(BODY)
        # the generator: notes which archive it was run with
        with open(s + '/bin/java', 'w') as f:
            f.write('''#!/bin/sh
jar=; out=
while [ $# -gt 0 ]; do
  case "$1" in -jar) jar="$2"; shift;; -o) out="$2"; shift;; esac
  shift
done
if cmp -s "$jar" %s/archive; then echo "ok $jar" >> "$JAVA_LOG"; else echo "bad $jar $(wc -c < "$jar" 2>/dev/null)" >> "$JAVA_LOG"; exit 1; fi
echo x > "$out/CqasmLexer.h"; echo x > "$out/CqasmLexer.cpp"
exit $JAVA_STATUS
''' % s)
        os.chmod(s + '/bin/java', 0o755)
        self.lib = s + '/inject.so'
        subprocess.run(['gcc', '-shared', '-fPIC', '-w', '-O1', '-o', self.lib, os.path.join(HERE, 'c27_inject.c'), '-ldl'], check=True)

    def run(self, state, server='ok', inject=None, java_status=0):
        """one run of the script on a copy of the state; returns what happened"""
        i = next(self.ids)
        root = f'{self.scratch}/run{i}'
        # the state is at the same path in every run: paths may be stored inside
        st = root + '/state'
        os.makedirs(root)
        if state:
            shutil.copytree(state, st, symlinks=True)
        else:
            os.makedirs(st + '/tmp')
            os.makedirs(st + '/home')
        for d in ('in', 'out', 'inc'):
            os.makedirs(f'{root}/{d}')
        tmp = st + '/tmp'
        env = {'PATH': self.scratch + '/bin:/usr/bin:/bin', 'HOME': st + '/home', 'TMPDIR': tmp, 'TEMP': tmp, 'TMP': tmp, 'LANG': 'C.UTF-8',
               'JAVA_LOG': root + '/java.log', 'JAVA_STATUS': str(java_status), 'PYTHONDONTWRITEBYTECODE': '1', 'no_proxy': '*', 'NO_PROXY': '*',
               'LD_PRELOAD': self.lib, 'INJ_DIR': st, 'INJ_LOG': root + '/ops.log'}
        if inject:
            env.update(INJ_AT=str(inject[0]), INJ_ACTION=inject[1], INJ_AMOUNT=str(inject[2]))
        base = {'unreachable': 'unreachable', 'refused': f'http://127.0.0.1:{self.server.dead_port}/r{i}/x'}.get(server, f'http://127.0.0.1:{self.server.port}/r{i}/{server}')
        p = subprocess.Popen([sys.executable, '-B', os.path.join(HERE, 'c27_child.py'), base, self.script, root + '/in', root + '/out', root + '/inc'], env=env, cwd=tmp,
                             stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        if server.startswith('hold'):
            for _ in range(6000):
                if self.server.holding.get(f'r{i}') or p.poll() is not None:
                    break
                time.sleep(0.005)
            if p.poll() is None:
                p.send_signal({'holdkill': signal.SIGKILL, 'holdint': signal.SIGINT, 'holdterm': signal.SIGTERM}[server.split('-')[0]])
        try:
            out = p.communicate(timeout=60)[0].decode('utf-8', 'replace')
            status = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, status = p.communicate()[0].decode('utf-8', 'replace'), 'hang'
        java = open(root + '/java.log').read().splitlines() if os.path.exists(root + '/java.log') else []
        ops = [l.split(' ', 3) for l in open(root + '/ops.log').read().splitlines()] if os.path.exists(root + '/ops.log') else []
        for d in ('in', 'out', 'inc'):
            shutil.rmtree(f'{root}/{d}')
        self.runs += 1
        return {'root': root, 'state': st, 'status': status, 'java': java, 'requests': self.server.requests.get(f'r{i}', 0), 'ops': ops, 'out': out}

    def judge(self, history, has_jar, action, r):
        server, inject, java_status = action
        who = ' ; '.join(map(str, history + [action]))

        def bad(what):
            if len(self.violations) < 10:
                self.violations.append({'case': who, 'what': f'{what} (status {r["status"]}, generator runs {r["java"]}, {r["requests"]} downloads, output: {r["out"][-300:]!r})'})
        if r['status'] == 'hang':
            return bad('the script does not end')
        if any(l.startswith('bad') for l in r['java']):
            return bad('the generator is run with an archive that is not complete')
        if r['status'] == 0 and not r['java']:
            return bad('the script reports success without having run the generator')
        if has_jar and r['requests']:
            return bad('a complete archive is already there, but it is downloaded again')
        if has_jar and not inject and (not r['java'] or (r['status'] != 0 and not java_status)):
            return bad('a complete archive is already there, but it is not used')
        if not has_jar and server != 'ok' and (r['java'] or r['status'] == 0):
            return bad('the download failed, but the script does not end with an error status without running the generator')
        if server == 'ok' and not inject and not java_status and (r['status'] != 0 or not r['java']):
            return bad('nothing is wrong with the download, but the parser is not generated')

    def has_jar(self, st):
        try:
            return open(os.path.join(st, self.jar), 'rb').read() == BODY
        except OSError:
            return False

    def explore(self):
        n = len(BODY)
        cuts = [0, 1, 4, 8191, 65536, 150000, n - 1] if self.tier == 'thorough' else [0, 1, 70000, n - 1]
        servers = ['unreachable', 'refused', 'garbage', 'head-0', 'head-9', 'head-40']
        servers += [f'status-{c}' for c in (400, 403, 404, 429, 500, 502, 503)]
        servers += [f'{k}-{c}' for k in ('short', 'chunked', 'reset', 'eof') for c in cuts]
        servers += [f'{k}-{c}' for k in ('holdkill', 'holdint', 'holdterm') for c in (cuts if self.tier == 'thorough' else (0, 70000, n - 1))]
        depth = 3 if self.tier == 'thorough' else 2
        # the first healthy run tells where the archive is kept
        r = self.run(None)
        self.judge([], False, ('ok', None, 0), r)
        oks = [l[3:] for l in r['java'] if l.startswith('ok ')]
        if not oks:
            return
        self.jar = os.path.relpath(oks[0], r['state'])
        placed = self.scratch + '/placed'
        os.makedirs(os.path.dirname(os.path.join(placed, self.jar)))
        os.makedirs(placed + '/home', exist_ok=True)
        states = {(): (None, [])}
        frontier = [((), None, [])]
        shutil.copy(self.scratch + '/archive', os.path.join(placed, self.jar))
        os.utime(os.path.join(placed, self.jar), (0, 0))
        fp = fingerprint(placed, self.jar)
        states[fp] = (placed, ['an old complete archive'])
        frontier.append((fp, placed, ['an old complete archive']))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for level in range(depth + 1):
                jobs = []
                for fp, st, hist in frontier:
                    has = bool(st) and self.has_jar(st)
                    acts = [('ok', None, 0), ('unreachable', None, 0), ('ok', None, 7)]
                    if level < depth:
                        # the operations the script performs from here, as seen in an undisturbed and in a failing run
                        for server in ('ok', 'short-70000'):
                            probe = self.run(st, server)
                            self.judge(hist, has, (server, None, 0), probe)
                            for k, (_, armed, name, *_) in enumerate(probe['ops'], 1):
                                modes = [('die', 0), ('int', 0), ('term', 0)]
                                if armed == '1':
                                    modes += [('error', 0)]
                                    if name == 'write':
                                        modes += [('error', 70000)]
                                if name == 'write':
                                    modes += [('torn', c) for c in (1, 70000, -1)] + ([('torn', c) for c in cuts] if self.tier == 'thorough' else [])
                                acts += [(server, (k,) + m, 0) for m in modes]
                            shutil.rmtree(probe['root'])
                        acts += [(s, None, 0) for s in servers]
                    jobs += [(fp, st, hist, has, a, ex.submit(self.run, st, a[0], a[1], a[2])) for a in acts]
                new = []
                for fp, st, hist, has, a, fut in jobs:
                    r = fut.result()
                    if (self.runs & (self.runs - 1)) == 0:
                        self.samples.append(' ; '.join(map(str, hist + [a])) + f' -> status {r["status"]}, {len(r["java"])} generator runs')
                    self.judge(hist, has, a, r)
                    f2 = fingerprint(r['state'], self.jar)
                    if f2 not in states:
                        states[f2] = (r['state'], hist + [a])
                        new.append((f2, r['state'], hist + [a]))
                    else:
                        shutil.rmtree(r['root'])
                frontier = new
                if len(self.violations) >= 10 or not frontier:
                    break
        self.states = len(states)

    states = 0


def run(tier):
    e = Explorer(tier)
    try:
        e.explore()
        return {'states': e.states, 'transitions': e.runs, 'validated': e.runs, 'samples': (e.samples or ['none'])[-6:], 'violations': e.violations}
    finally:
        e.server.s.close()
        subprocess.run(['rm', '-rf', e.scratch])
