# starts the debug laya-server of the current directory's build on a scratch image directory
import socket, subprocess, sys, tempfile, time, os, shutil
PORT = 43594
def ask(path, method="GET"):
    s = socket.create_connection(("127.0.0.1", PORT), 10); s.settimeout(10)
    s.sendall(f"{method} {path} HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n".encode())
    b = b""
    while True:
        c = s.recv(65536)
        if not c: break
        b += c
    s.close()
    head, _, body = b.partition(b"\r\n\r\n")
    return int(head.split()[1]), body.decode("utf8", "replace")
class Server:
    def __init__(self, files={}, args=None):
        self.top = tempfile.mkdtemp(prefix="demo-")
        self.root = os.path.join(self.top, "images"); os.mkdir(self.root)
        for n, d in files.items():
            p = os.path.join(self.root, n); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(d)
    def __enter__(self):
        self.p = subprocess.Popen([os.path.join(os.getcwd(), "target/debug/laya-server"), "--path", self.root], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=self.top)
        t0 = time.time(); ok = 0
        while time.time() - t0 < 60 and ok < 40:
            try: ask("/x/full/max/0/default.jpg"); ok += 1
            except OSError: time.sleep(0.1)
        return self
    def __exit__(self, *a):
        self.p.kill(); self.p.wait(); shutil.rmtree(self.top)
