"""A stand-in for the Hamilton UI backend: records every request it is sent (strict JSON)."""
import json
import threading
import time
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import parse_qs, urlparse


def _no_const(x):
    raise ValueError(f"not JSON: {x}")


class Server:
    def __init__(self):
        self.lock = threading.RLock()
        self.reset()
        me = self

        class H(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def log_message(self, *a):
                pass

            def _do(self):
                n = int(self.headers.get("Content-Length") or 0)
                raw = self.rfile.read(n) if n else b""
                code, body = me.handle(self.command, self.path, raw, dict(self.headers))
                out = json.dumps(body).encode()
                self.send_response(code)
                self.send_header("Content-Type", "application/json")
                self.send_header("Content-Length", str(len(out)))
                self.end_headers()
                self.wfile.write(out)
            do_GET = do_POST = do_PUT = _do

        self.httpd = ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.httpd.daemon_threads = True
        self.url = f"http://127.0.0.1:{self.httpd.server_port}"
        threading.Thread(target=self.httpd.serve_forever, daemon=True).start()

    def reset(self):
        with self.lock:
            self.templates, self.runs, self.bulks, self.ends = {}, {}, [], []
            self.bad, self.requests = [], []
            self.delay = None
            self.next_id = 100
            self.refuse = False
            self.nbulk = 0

    def reset_records(self):
        """Forget the runs, keep the templates."""
        with self.lock:
            self.runs, self.bulks, self.ends, self.nbulk = {}, [], [], 0

    def new_id(self):
        self.next_id += 1
        return self.next_id

    def handle(self, method, path, raw, headers):
        u = urlparse(path)
        q = {k: v[0] for k, v in parse_qs(u.query).items()}
        d = self.delay
        if d and "bulk" in u.path:
            time.sleep(d())
        try:
            data = json.loads(raw, parse_constant=_no_const) if raw else None
        except ValueError as e:
            with self.lock:
                self.bad.append((path, str(e)))
            return 400, None
        with self.lock:
            self.requests.append((method, u.path))
            p = u.path.replace("/api/v1", "").rstrip("/")
            if p == "/phone_home":
                return 200, True
            if p.startswith("/projects/"):
                return 200, {"id": 1}
            if p == "/dag_templates/exists":
                for tid, t in self.templates.items():
                    if (t["dag_hash"], t["code_hash"], t["name"]) == (
                            q["dag_hash"], q["code_hash"], q["dag_name"]):
                        return 200, {"id": tid}
                return 200, None
            if p == "/dag_templates":
                i = self.new_id()
                self.templates[i] = data
                return 200, {"id": i}
            if p == "/dag_runs":
                i = self.new_id()
                self.runs[i] = dict(data, template=int(q["dag_template_id"]))
                return 200, {"id": i}
            if p == "/dag_runs_bulk":
                self.nbulk += 1
                if self.refuse:
                    return 500, None
                self.bulks.append((int(q["dag_run_id"]), data))
                return 200, None
            if p.startswith("/dag_runs/") and method == "PUT":
                self.ends.append((int(p.split("/")[-1]), data))
                return 200, None
            self.bad.append((path, "unknown request"))
            return 404, None

    def tasks(self, run):
        """node_name -> merged task record, the way the backend merges updates."""
        out = {}
        with self.lock:
            for r, d in self.bulks:
                if r == run:
                    for t in d["task_updates"]:
                        out.setdefault(t["node_name"], {}).update(t)
        return out

    def attrs(self, run):
        out = {}
        with self.lock:
            for r, d in self.bulks:
                if r == run:
                    for a in d["attributes"]:
                        out.setdefault(a["node_name"], []).append(a)
        return out
