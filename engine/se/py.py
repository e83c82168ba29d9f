"""Runs a Python harness symbolically, path by path, and replays candidates on the package with real numpy."""
import os
import signal
import socket
import struct
import subprocess
import time

from .build import ENG, REPO
from .cpp import CppRun

PY = '/opt/vp/venv/bin/python'
RT = os.path.join(ENG, 'py', 'rt.py')


class Proc:
    """a forked child of the zygote"""
    def __init__(self, pid):
        self.pid = pid

    def poll(self):
        return None if os.path.exists('/proc/%d' % self.pid) else 0

    def wait(self, t=30):
        t0 = time.time()
        while self.poll() is None:
            if time.time() - t0 > t:
                raise subprocess.TimeoutExpired('python path', t)
            time.sleep(0.001)

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


class PyRun(CppRun):
    def __init__(self, cfg):
        CppRun.__init__(self, None, None, cfg)
        self.harness = os.path.join(ENG, 'harness', cfg['py'])
        self.henv.update(VERIF_REPO=REPO, MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
        a, b = socket.socketpair()
        self.zy = subprocess.Popen([PY, '-B', RT, 'zygote', str(b.fileno()), self.harness], pass_fds=(b.fileno(),), env=self.henv,
                                   stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                   stderr=None if os.environ.get('VERIF_TRACE') else subprocess.DEVNULL)
        b.close()
        self.sock = a

    def spawn(self, prefix, w, r):
        body = prefix.encode()
        socket.send_fds(self.sock, [struct.pack('<I', len(body)) + body], [w, r])
        got = b''
        while len(got) < 4:
            x = self.sock.recv(4 - len(got))
            if not x:
                raise RuntimeError('the package could not be loaded')
            got += x
        return Proc(struct.unpack('<I', got)[0])

    def excname(self, line):
        return line.split()[1]

    def sameexc(self, q, detail):
        # an exception of the encoding itself, or of another input problem, is not the one found on the path
        return detail.split()[1:2] == [q['why']]

    def natcmd(self, cand):
        return [PY, '-B', RT, 'native', self.harness, cand]

    def explore(self):
        try:
            return CppRun.explore(self)
        finally:
            self.sock.close()
            try:
                self.zy.wait(5)
            except subprocess.TimeoutExpired:
                self.zy.kill()
                self.zy.wait()
