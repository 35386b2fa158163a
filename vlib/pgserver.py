"""A server that speaks enough of PostgreSQL's protocol (version 3) for one client that only reads:
what is asked is computed by SQLite, from the tables of the database that the client names."""
import math, re, socketserver, sqlite3, struct, threading

INT8, TEXT, NUMERIC, TIMESTAMP, FLOAT8, BOOL = 20, 25, 1700, 1114, 701, 16
TYPES = {"integer": 4, "int4": 4, "int": 4, "bigint": 8, "int8": 8, "smallint": 2, "int2": 2, "numeric": 0, "decimal": 0, "text": "t", "varchar": "t", "float8": 0}


class Error(Exception):
    pass


def cast(v, kind):
    if v is None:
        return None
    k = TYPES[kind]
    if k == "t":
        return str(v)
    if k == 0:
        return float(v) if isinstance(v, str) else v
    n = int(v) if isinstance(v, int) or isinstance(v, str) else int(math.floor(abs(v) + 0.5) * (1 if v >= 0 else -1))
    if not -(1 << (8 * k - 1)) <= n < 1 << (8 * k - 1):
        raise OverflowError("%s out of range" % kind)
    return n


def translate(q):
    """e::type and CAST(e AS type) as functions."""
    q = re.sub(r"--[^\n]*", " ", q)
    q = re.sub(r'(?i)(?<!["\w])transaction(?![\w"])', '"transaction"', q)
    while True:
        m = re.search(r"::\s*(double\s+precision|\w+)(\s*\([\d, ]*\))?", q)
        if not m:
            break
        end = m.start()
        i = end
        while i > 0 and q[i - 1].isspace():
            i -= 1
        if q[i - 1] == ")":
            n = 0
            while i > 0:
                i -= 1
                n += {")": 1, "(": -1}.get(q[i], 0)
                if n == 0:
                    break
        while i > 0 and (q[i - 1].isalnum() or q[i - 1] in "_.\"'"):
            i -= 1
        kind = m.group(1).lower()
        if kind.startswith("double"):
            kind = "float8"
        if kind not in TYPES:
            q = q[:end] + q[m.end():]        # the text is as good
        else:
            q = q[:i] + "pgcast(" + q[i:end] + ", '" + kind + "')" + q[m.end():]
    q = re.sub(r"(?i)\bcast\s*\(((?:[^()]|\([^()]*\))*?)\s+as\s+(%s)\s*\)" % "|".join(TYPES), lambda m: "pgcast(%s, '%s')" % (m.group(1), m.group(2).lower()), q)
    return q


class Database:
    """accounts: [id, parent, name, code]; transactions: [id, datetime, description]; splits: [transaction, account, amount].
    broken: table -> rows that can be read before something fails (-1: not even the first answer)"""

    def __init__(self, accounts, transactions, splits, broken=None):
        self.broken = broken or {}
        self.error = None
        db = self.db = sqlite3.connect(":memory:", check_same_thread=False)
        self.lock = threading.Lock()

        def pgcast(v, k):
            try:
                return cast(v, k)
            except Exception as e:
                self.error = str(e)
                raise
        db.create_function("pgcast", 2, pgcast)
        db.executescript("create table account (id integer primary key, parent_id integer, name text, code text);"
                         "create table 'transaction' (id integer primary key, datetime text, description text);"
                         "create table split (n integer primary key, transaction_id integer, account_id integer, value numeric);")
        db.executemany("insert into account values (?,?,?,?)", accounts)
        db.executemany("insert into 'transaction' values (?,?,?)", transactions)
        db.executemany("insert into split (transaction_id, account_id, value) values (?,?,?)", splits)
        db.executescript("create view money as select s.rowid as n, t.datetime, s.transaction_id, s.account_id, t.description, s.value,"
                         " (select sum(s2.value) from split s2 where s2.account_id = s.account_id and s2.n <= s.n) as balance"
                         " from split s join 'transaction' t on t.id = s.transaction_id order by s.n;")

    def ask(self, q, args=()):
        """columns, rows, error after those rows"""
        with self.lock:
            self.error = None
            tables = [t for t in self.broken if re.search(r"(?i)\b%s\b" % t, q)]
            try:
                cur = self.db.execute(re.sub(r"\$(\d+)", r"?\1", translate(q)), list(args))
                cols = [d[0] for d in cur.description or []]
                rows = cur.fetchall()
            except (sqlite3.Error, OverflowError) as e:
                return None, [], self.error or str(e)
            for t in tables:
                n = self.broken[t]
                return (None if n < 0 else cols), rows[:max(n, 0)], "broken"
            return cols, rows, None


class Handler(socketserver.BaseRequestHandler):
    def read(self, n):
        b = b""
        while len(b) < n:
            x = self.request.recv(n - len(b))
            if not x:
                raise ConnectionError
            b += x
        return b

    def send(self, kind, body=b""):
        self.out += kind + struct.pack("!i", len(body) + 4) + body

    def flush(self):
        self.request.sendall(self.out)
        self.out = b""

    def fail(self, text, code="XX000"):
        self.send(b"E", b"SERROR\0C" + code.encode() + b"\0M" + text.encode() + b"\0\0")

    def handle(self):
        self.out = b""
        try:
            self.serve()
        except (ConnectionError, OSError):
            pass

    def serve(self):
        while True:
            n, code = struct.unpack("!ii", self.read(8))
            body = self.read(n - 8)
            if code == 80877103:        # SSL
                self.request.sendall(b"N")
                continue
            if code == 80877102:        # cancel
                return
            break
        f = body.split(b"\0")
        args = dict(zip(f[::2], f[1::2]))
        db = self.server.dbs.get(args.get(b"database", b"").decode())
        if db is None:
            self.fail("database does not exist", "3D000")
            self.flush()
            return
        self.send(b"R", struct.pack("!i", 0))
        for k, v in ((b"server_version", b"12.0"), (b"client_encoding", b"UTF8"), (b"DateStyle", b"ISO, MDY"), (b"TimeZone", b"UTC"), (b"integer_datetimes", b"on"), (b"standard_conforming_strings", b"on")):
            self.send(b"S", k + b"\0" + v + b"\0")
        self.send(b"K", struct.pack("!ii", 1, 1))
        self.send(b"Z", b"I")
        self.flush()
        self.prepared, self.portals, failed = {}, {}, False
        while True:
            kind = self.read(1)
            n, = struct.unpack("!i", self.read(4))
            body = self.read(n - 4)
            if kind == b"X":
                return
            if kind in b"PBDECH":
                if not failed:
                    failed = not self.extended(db, kind, body)
                if kind == b"H":
                    self.flush()
                continue
            if kind == b"Q":
                self.query(db, body.rstrip(b"\0").decode())
                self.send(b"Z", b"I")
                self.flush()
            elif kind == b"S":
                failed = False
                self.send(b"Z", b"I")
                self.flush()
            else:
                self.fail("only simple queries")
                self.flush()

    def extended(self, db, kind, body):
        """Statements with parameters; returns whether it went well."""
        if kind == b"P":
            name, q, _ = body.split(b"\0", 2)
            self.prepared[name] = q.decode()
            self.send(b"1")
        elif kind == b"B":
            portal, name, rest = body.split(b"\0", 2)
            k, = struct.unpack("!h", rest[:2])
            formats = struct.unpack("!%dh" % k, rest[2:2 + 2 * k])
            rest = rest[2 + 2 * k:]
            n, = struct.unpack("!h", rest[:2])
            rest, args = rest[2:], []
            for i in range(n):
                size, = struct.unpack("!i", rest[:4])
                rest = rest[4:]
                v = None if size < 0 else rest[:size]
                rest = rest[max(size, 0):]
                if v is not None:
                    binary = formats and formats[i if len(formats) > 1 else 0]
                    v = v if binary else v.decode("utf8", "surrogateescape")
                    if isinstance(v, str) and re.fullmatch(r"-?\d{1,18}", v):
                        v = int(v)
                args.append(v)
            k, = struct.unpack("!h", rest[:2])
            self.portals[portal] = (self.prepared.get(name, ""), args, struct.unpack("!%dh" % k, rest[2:2 + 2 * k]))
            self.send(b"2")
        elif kind == b"D":
            name = body[1:].rstrip(b"\0")
            q, args = self.portals.get(name, ("", [], ()))[:2] if body[:1] == b"P" else (self.prepared.get(name, ""), None)
            n = max([int(x) for x in re.findall(r"\$(\d+)", q)] or [0])
            if args is None:
                self.send(b"t", struct.pack("!h", n) + struct.pack("!i", 0) * n)
            cols, rows, err = db.ask(q, args if args is not None else [None] * n) if q.strip() else ([], [], None)
            if cols is None and args is None and n == 0:
                self.fail(err)
                return False
            if not cols:
                self.send(b"n")
            else:
                self.columns(cols, rows if args is not None or n == 0 else None)
        elif kind == b"E":
            q, args, formats = self.portals.get(body.split(b"\0", 1)[0], ("", [], ()))
            return self.query(db, q, args, False, formats)
        elif kind == b"C":
            self.send(b"3")
        return True

    def columns(self, cols, rows):
        types = []
        for i, c in enumerate(cols):
            vs = [r[i] for r in rows or [] if r[i] is not None]
            if c == "datetime" or (vs and all(isinstance(v, str) and re.fullmatch(r"\d{4,}-\d\d-\d\d \d\d:\d\d:\d\d", v) for v in vs) and re.search("date|time", c)):
                types.append(TIMESTAMP)
            elif all(isinstance(v, int) for v in vs) and vs:
                types.append(INT8)
            elif vs and all(isinstance(v, (int, float)) for v in vs):
                types.append(NUMERIC)
            else:
                types.append(TEXT)
        self.send(b"T", struct.pack("!h", len(cols)) + b"".join(c.encode() + b"\0" + struct.pack("!ihihih", 0, 0, t, -1, -1, 0) for c, t in zip(cols, types)))

    def query(self, db, q, args=(), describe=True, formats=()):
        if not q.strip(" ;\n\t"):
            self.send(b"I")
            return True
        first = q.split()[0].lower()
        if first in ("begin", "start", "commit", "rollback", "end", "set"):
            self.send(b"C", first.upper().encode() + b"\0")
            return True
        cols, rows, err = db.ask(q, args)
        if cols is None:
            self.fail(err)
            return False
        if describe:
            self.columns(cols, rows)
        for r in rows:
            b = struct.pack("!h", len(r))
            for i, v in enumerate(r):
                if isinstance(v, int) and formats and formats[i if len(formats) > 1 else 0]:
                    b += struct.pack("!iq", 8, v)
                elif v is None:
                    b += struct.pack("!i", -1)
                else:
                    s = str(v).encode("utf8", "surrogateescape")
                    b += struct.pack("!i", len(s)) + s
            self.send(b"D", b)
        if err:
            self.fail(err)
        else:
            self.send(b"C", b"SELECT %d\0" % len(rows))
        return not err


class Server(socketserver.ThreadingTCPServer):
    daemon_threads = True
    allow_reuse_address = True
    request_queue_size = 128

    def __init__(self):
        super().__init__(("127.0.0.1", 0), Handler)
        self.dbs = {}
        threading.Thread(target=self.serve_forever, daemon=True).start()

    def source(self, name):
        return "postgres://u@127.0.0.1:%d/%s?sslmode=disable" % (self.server_address[1], name)

    def handle_error(self, request, client_address):
        pass
