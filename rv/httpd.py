"""A loopback HTTP server that records every request it receives."""
import http.server
import socket
import ssl
import threading
import urllib.parse


class Req:
    def __init__(self, n, method, target, headers, body):
        self.n, self.method, self.target, self.headers, self.body = n, method, target, headers, body
        self.path, _, self.query = target.partition("?")

    def params(self):
        """Query-string parameters, strictly decoded."""
        return decode_form(self.query)

    def header(self, name):
        return self.headers.get(name)

    def __repr__(self):
        return "%s %s %r %r" % (self.method, self.target[:300], {k: v for k, v in self.headers.items() if k.lower() in ("accept", "content-type", "content-length")}, self.body[:300])


def decode_form(s):
    """Ordered (name, value) pairs of a form-encoded string; ValueError if malformed."""
    if not s:
        return []
    return urllib.parse.parse_qsl(s, keep_blank_values=True, strict_parsing=True, encoding="utf-8", errors="strict")


class Reply:
    def __init__(self, status=200, ctype=None, body=b"", headers=(), drop=None):
        self.status, self.ctype, self.body, self.headers, self.drop = status, ctype, body, list(headers), drop


class Server:
    def __init__(self, cert=None):
        self.log = []
        self.lock = threading.Lock()
        self.handler = lambda req: Reply(500)
        self.errors = []
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"
            timeout = 120

            def log_message(self, *a):
                pass

            def setup(self):
                super().setup()
                self.connection.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)

            def any(self):
                n = self.headers.get("Content-Length")
                if self.headers.get("Transfer-Encoding", "").lower() == "chunked":
                    body = b""
                    while True:
                        k = int(self.rfile.readline().split(b";")[0], 16)
                        body += self.rfile.read(k)
                        self.rfile.readline()
                        if k == 0:
                            break
                else:
                    body = self.rfile.read(int(n)) if n else b""
                with outer.lock:
                    req = Req(len(outer.log), self.command, self.path, self.headers, body)
                    outer.log.append(req)
                try:
                    r = outer.handler(req)
                except Exception as e:  # the harness's own fault
                    import traceback
                    outer.errors.append(traceback.format_exc())
                    r = Reply(599, "text/plain", b"harness error")
                if r.drop == "before":
                    self.close_connection = True
                    self.connection.shutdown(socket.SHUT_RDWR)
                    return
                self.send_response(r.status)
                if r.ctype is not None:
                    self.send_header("Content-Type", r.ctype)
                for k, v in r.headers:
                    self.send_header(k, v)
                body = r.body if r.status not in (204, 304) and self.command != "HEAD" else b""
                if r.status not in (204, 304):
                    self.send_header("Content-Length", str(len(body)))
                if r.drop:
                    self.send_header("Connection", "close")
                self.end_headers()
                if r.drop == "middle":
                    self.wfile.write(body[: len(body) // 2])
                    self.wfile.flush()
                    self.close_connection = True
                    self.connection.shutdown(socket.SHUT_RDWR)
                    return
                self.wfile.write(body)
                self.wfile.flush()
                if r.drop:
                    self.close_connection = True

            do_GET = do_POST = do_PUT = do_DELETE = do_PATCH = do_HEAD = do_OPTIONS = any

        class S(http.server.ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 128

            def handle_error(self, request, client_address):
                pass  # dropped connections

            def get_request(self):
                conn, addr = super().get_request()
                if tls is not None:  # the handshake happens in the connection's own thread
                    conn.settimeout(120)
                    conn = tls.wrap_socket(conn, server_side=True, do_handshake_on_connect=False)
                return conn, addr

        tls = None
        if cert is not None:
            tls = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            tls.load_cert_chain(cert)

        self.httpd = S(("127.0.0.1", 0), H)
        self.port = self.httpd.server_address[1]
        self.url = "%s://127.0.0.1:%d" % ("https" if cert else "http", self.port)
        threading.Thread(target=self.httpd.serve_forever, daemon=True).start()

    def take(self):
        """Requests since the last call."""
        with self.lock:
            out, self.log = self.log, []
        return out


_server = None


def server():
    """The server of this process."""
    global _server
    if _server is None:
        _server = Server()
    _server.take()
    return _server
