"""Run the real code (native replay binary) on concrete inputs."""
import subprocess, struct, os, select, time, numpy as np
from .api import API

class Native:
    def __init__(self, path, env=None):
        self.path = path; self.p = None; self.env = env
    def start(self):
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL if self.env else None, env=self.env)
    def run(self, name, inputs):
        """inputs: uint32 array (n, nin) -> (status array, outputs (n, nout)); status 0 ok, 1 panic, 2 crash, 3 does not return (or not run after such a call)"""
        a = API[name]; n = inputs.shape[0]; nin, nout = a['nin'], a['nout']
        inputs = np.ascontiguousarray(inputs, dtype='<u4').reshape(n, nin)
        st = np.zeros(n, dtype=np.uint32); out = np.zeros((n, nout), dtype=np.uint32)
        i = 0
        CH = 2048
        while i < n:
            k = min(CH, n - i)
            if self.p is None or self.p.poll() is not None: self.start()
            nm = name.encode()
            msg = struct.pack('<I', len(nm)) + nm + struct.pack('<I', k) + inputs[i:i+k].tobytes()
            want = k * 4 * (1 + nout)
            import threading
            def feed(p=self.p):
                try: p.stdin.write(msg); p.stdin.flush()
                except (OSError, ValueError): pass
            th = threading.Thread(target=feed); th.start()
            data, hung = self.read(want, 30.0 if k > 1 else 10.0)
            if hung: self.close()
            th.join()
            got = len(data) // (4 * (1 + nout))
            if got:
                d = np.frombuffer(data[:got * 4 * (1 + nout)], dtype='<u4').reshape(got, 1 + nout)
                st[i:i+got] = d[:, 0]; out[i:i+got] = d[:, 1:]
            if got < k:
                self.close()
                if CH == 1 and hung:
                    st[i:] = 3; break
                elif CH == 1:
                    st[i] = 2; i += 1; CH = 2048
                else:
                    CH = 1 if got == 0 else CH
                    CH = 1
                    i += got
                continue
            i += k
        return st, out
    def read(self, want, tmo):
        fd = self.p.stdout.fileno(); buf = bytearray(); end = time.time() + tmo
        while len(buf) < want:
            if not select.select([fd], [], [], max(0.0, end - time.time()))[0]: return bytes(buf), True
            b = os.read(fd, min(1 << 20, want - len(buf)))
            if not b: break
            buf += b
        return bytes(buf), False
    def close(self):
        if self.p:
            try: self.p.kill()
            except Exception: pass
            self.p.wait(); self.p = None
