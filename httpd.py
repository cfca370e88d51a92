"""a loopback web server with scripted content, shared by the checks that need a server"""
import gzip
import threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer


class Server:
    """routes: path (with query) -> dict(body=, status=, etag=, modified=, gzip=, chunked=, truncate=, redirect=, no_date=, ctype=, delay=)"""

    def __init__(self):
        self.routes = {}
        self.requests = []  # (method, path, headers, body)
        outer = self

        class H(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"
            disable_nagle_algorithm = True
            wbufsize = -1

            def log_message(self, *a):
                pass

            def handle(self):
                try:
                    super().handle()
                except (ConnectionError, OSError):
                    pass

            def do_GET(self):
                self.answer("GET", b"")

            def do_POST(self):
                n = self.headers.get("Content-Length")
                if n is not None:
                    body = self.rfile.read(int(n))
                else:
                    body = b""
                    while True:
                        size = int(self.rfile.readline().strip() or b"0", 16)
                        chunk = self.rfile.read(size)
                        self.rfile.readline()
                        body += chunk
                        if not size:
                            break
                self.answer("POST", body)

            def answer(self, method, body):
                outer.requests.append((method, self.path, dict(self.headers.items()), body))
                r = outer.routes.get(self.path)
                if callable(r):
                    r = r(self.path, self.headers)
                if r is None:
                    r = {"status": 404, "body": b"not found " * 20}
                if r.get("delay"):
                    threading.Event().wait(r["delay"])
                if r.get("redirect") is not None:
                    self.send_response(r.get("status", 302))
                    self.send_header("Location", r["redirect"])
                    self.send_header("Content-Length", "3")
                    self.end_headers()
                    self.wfile.write(b"go!")
                    return
                data = r.get("body", b"")
                etag, modified = r.get("etag"), r.get("modified")
                if etag and self.headers.get("If-None-Match") == etag or \
                        not etag and modified and "If-None-Match" not in self.headers and self.headers.get("If-Modified-Since") == modified:
                    self.send_response_only(304)
                    if etag:
                        self.send_header("ETag", etag)
                    self.end_headers()
                    return
                self.send_response_only(r.get("status", 200))
                if not r.get("no_date"):
                    self.send_header("Date", self.date_time_string())
                if etag:
                    self.send_header("ETag", etag)
                if modified:
                    self.send_header("Last-Modified", modified)
                if r.get("gzip") and "gzip" in self.headers.get("Accept-Encoding", ""):
                    data = gzip.compress(data)
                    self.send_header("Content-Encoding", "gzip")
                if r.get("ctype"):
                    self.send_header("Content-Type", r["ctype"])
                cut = r.get("truncate")
                sent = data if cut is None else data[:int(len(data) * cut)]
                if cut is not None:
                    self.close_connection = True
                if r.get("chunked"):
                    self.send_header("Transfer-Encoding", "chunked")
                    self.end_headers()
                    step = max(1, len(data) // 3)
                    for i in range(0, len(sent), step):
                        piece = sent[i:i + step]
                        self.wfile.write(b"%x\r\n%s\r\n" % (len(piece), piece))
                    if cut is None:
                        self.wfile.write(b"0\r\n\r\n")
                else:
                    self.send_header("Content-Length", str(len(data)))
                    self.end_headers()
                    self.wfile.write(sent)

        class S(ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 64

            def handle_error(self, *a):
                pass

        self.httpd = S(("127.0.0.1", 0), H)
        self.port = self.httpd.server_address[1]
        self.base = f"http://127.0.0.1:{self.port}"
        threading.Thread(target=self.httpd.serve_forever, kwargs={"poll_interval": 0.05}, daemon=True).start()

    def reset(self):
        self.routes, self.requests = {}, []


_server = None


def server():
    global _server
    if _server is None:
        _server = Server()
    _server.reset()
    return _server
