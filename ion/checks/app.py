"""The program as started: main() from its command line to the running server (C19, C20, C21, C24, C26)."""
from .util import *
from ..models import Exc, default_value, path_of
from ..values import Fn
from . import server
from .server import World, Pass, ok, cst, num, callees, SERVER, LISTENER, POLLFD, EPERM
from .transport import ctx_hooks

SIGINT, SIGPIPE, SIGTERM = 2, 13, 15
SIGNALS = {SIGINT: "SIGINT", SIGPIPE: "SIGPIPE", SIGTERM: "SIGTERM"}
PR_SET_NO_NEW_PRIVS, PR_GET_NO_NEW_PRIVS = 38, 39
CERT, KEY = b"/given/cert.pem", b"/given/key.pem"
TLS = {"--tls-cert-path": CERT, "--tls-key-path": KEY}


def given(q, b):
    """Whether a string is the given one, or the path made from it."""
    return isinstance(q, Seq) and (const_bytes(q) == b or any(p[0] == "s" and p[1] == ("path", ("of", ("c", b))) for p in q.pieces))


class App(World):
    """main() over a scripted command line, file system, OpenSSL, kernel and poller."""

    def __init__(self, D, rep, given, faults=()):
        World.__init__(self, D, rep, cleartext="--cleartext" in given)
        self.given, self.all = dict(given), tuple(faults)
        self.all_faults = True
        ctx_hooks(self)
        e = self.eng
        e.opaque_prefix = ("opentelemetry::", "CLI::", "spdlog::")
        h = e.hooks
        for q in ("add_option", "add_flag", "add_option_no_stream", "add_option_function", "add_flag_callback"):
            h["CLI::App::" + q] = self.add_option
        h["CLI::App::parse"] = self.parse
        h["getenv"] = h["secure_getenv"] = self.getenv
        h["signal"] = h["sysv_signal"] = self.signal
        h["sigaction"] = self.sigaction
        for q in ("sigemptyset", "sigfillset", "sigaddset", "pthread_sigmask", "sigprocmask"):
            h[q] = lambda e, c: [(c.st, ZERO)]
        h["prctl"] = self.prctl
        for q in ("basic_logger_mt", "basic_logger_st", "rotating_logger_mt", "daily_logger_mt", "create"):
            h["spdlog::" + q] = self.log_open
        for q in ("fopen", "open"):
            h[q] = self.log_open
        h["listen"] = self.listen
        h["write"] = self.write
        e.pre[SERVER + "::start"] = self.port
        h[SERVER + "::" + SERVER.split("::")[-1]] = self.created
        for cls in ("ion::app::Telemetry",):
            h[cls + "::" + cls.split("::")[-1]] = lambda e, c: [(c.st, Opaque(clean(c.f["cls"]), ("telemetry",)))]
        for q in ("SSL_CTX_use_certificate_file", "SSL_CTX_use_certificate_chain_file", "SSL_CTX_use_PrivateKey_file",
                  "SSL_CTX_check_private_key"):
            h[q] = self.ctx_step
        h["std::filesystem::exists"] = h["std::filesystem::is_regular_file"] = self.exists
        e.fn("main")

    # ---- the command line
    def add_option(self, e, c):
        st = c.st
        names = None
        for s, q in as_seq(e, st, c.args[0]):
            if isinstance(q, Seq) and all(p[0] == "c" for p in q.pieces):
                names = b"".join(p[1] for p in q.pieces).rstrip(b"\0").decode()
        if names is not None and len(c.args) > 1 and isinstance(c.args[1], Ptr):
            v = st.store.get(c.args[1].path[0])
            st.ghost["opts"] = st.ghost["opts"] + ((tuple(names.split(",")), c.args[1].path, v.cls if isinstance(v, Struct) else None),)
        return e.opaque_call(c)

    def parse(self, e, c):
        """What CLI11 does: a given option's value goes where the option was bound to, the others are left alone."""
        st = c.st
        sts = [st]
        for o, v in self.given.items():
            hit = [x for x in st.ghost["opts"] if o in x[0]]
            if not hit:
                self.bad(st, "options", e, c, "there is no option %s" % o)
                continue
            p = self.live(st, *hit[0][1:])
            if p is None:
                raise Giveup("option %s is bound to an object that cannot be found" % o)
            sts = [y for s in sts for y in e.write(s, p, v if not isinstance(v, bytes) else Seq("str", L(len(v)), (("c", v),), None, None))]
        return [(s, VOID) for s in sts]

    def live(self, st, p, cls):
        """The bound object; a local that its function returned is the object it initialised (the copy is elided)."""
        if p[0] in st.store:
            return p
        same = [r for r, x in st.store.items() if isinstance(x, Struct) and x.cls == cls]
        return (same[-1],) + p[1:] if cls and same else None

    # ---- what start-up does, in order
    def getenv(self, e, c):
        st = c.st
        return [(st, Ptr(None, True))]

    def signal(self, e, c):
        st = c.st
        n = num(c, 0)
        if n is None:
            raise Giveup("signal() of an unknown signal")
        v = c.val(1)[0][1]
        d = dict(st.ghost["sig"])
        old = d.get(n)
        d[n] = v
        st.ghost["sig"] = tuple(sorted(d.items()))
        self.log(st, "signal", n, v, e.where(c.n, c.fr))
        return [(st, old if old is not None else Ptr(None, True))]

    def sigaction(self, e, c):
        st = c.st
        n = num(c, 0)
        p = c.args[1]
        if n is None or not isinstance(p, Ptr) or p.path is None:
            return [(st, ZERO)]
        d = dict(st.ghost["sig"])
        found = []

        def walk(v):
            if isinstance(v, Fn):
                found.append(v)
            elif isinstance(v, Struct):
                for _, x in v.fields:
                    walk(x)
        for s, v in e.read(st, p.path):
            walk(v)
        d[n] = found[0] if found else Ptr(None, True)
        st.ghost["sig"] = tuple(sorted(d.items()))
        self.log(st, "signal", n, d[n], e.where(c.n, c.fr))
        return [(st, ZERO)]

    def prctl(self, e, c):
        st = c.st
        op, arg = num(c, 0), num(c, 1)
        if op == PR_SET_NO_NEW_PRIVS and arg == 1 and all(num(c, i) in (0, None) for i in range(2, len(c.args))):
            st.ghost["nnp"] = True
        self.log(st, "prctl", op, arg)
        if op == PR_GET_NO_NEW_PRIVS:
            return [(st, L(st.ghost.get("nnp_get", 0)))]
        return [(st, L(-1) if "prctl" in self.all else ZERO)]

    def step(self, e, c, what):
        st = c.st
        self.log(st, "step", what)
        if not st.ghost["nnp"]:
            self.bad(st, "no-new-privs", e, c, "%s before no-new-privileges is set" % what)

    def log_open(self, e, c):
        self.step(e, c, "a log is opened")
        for a in c.args:
            for s, q in (as_seq(e, c.st, a) if isinstance(a, (Seq, Ptr, It)) else []):
                if isinstance(q, Seq) and const_bytes(q):
                    self.log(s, "log", const_bytes(q).rstrip(b"\0"))
        if c.q in self.all:
            e.raise_(c.st, Exc("spdlog::spdlog_ex", Top("exc"), e.where(c.n, c.fr)))
            return []
        return e.opaque_call(c)

    def listen(self, e, c):
        self.step(e, c, "the server listens")
        c.st.ghost["served"] = (dict(c.st.ghost["sig"]), c.st.ghost["ctx"], e.where(c.n, c.fr), self.fname(c.fr))
        return self.plain(e, c)

    def created(self, e, c):
        if not c.ctor:
            return NotImplemented
        self.step(e, c, "the server is created")
        for i, a in enumerate(c.args):
            for s, v in c.val(i):
                if isinstance(v, Struct) and v.cls == "ion::ServerConfiguration":
                    s.ghost["config"] = v
        d = c.dest if c.dest is not None else c.this
        self.this = d if isinstance(d, Ptr) else Ptr(tuple(d), False)
        return NotImplemented

    def port(self, e, c):
        for s, v in c.val(0):
            self.log(s, "port", cst(v))

    def write(self, e, c):
        fd = num(c, 0)
        if fd in (1, 2) and fd in self.script[min(c.st.ghost["pass"], len(self.script)) - 1].broken:
            c.st.ghost["errno"] = 32
            return [(c.st, L(-1))]
        return [(c.st, c.val(2)[0][1])]

    def ctx_step(self, e, c):
        """OpenSSL's context: what was loaded from where, and whether certificate and key belong together."""
        st = c.st
        path = None
        if len(c.args) > 1:
            for _, q in as_seq(e, st, c.args[1]):
                path = CERT if given(q, CERT) else KEY if given(q, KEY) else q
        cert, key = st.ghost["ctx"]
        good = c.q not in self.all
        odd = "mismatch" in self.all
        if "certificate" in c.q and good:
            cert = path
            if key is not None and odd:
                key = None
        elif "PrivateKey_file" in c.q and good:
            good = not (cert is not None and odd)
            key = path if good else key
        elif "check" in c.q and good:
            good = cert is not None and key is not None and not odd
        st.ghost["ctx"] = (cert, key)
        self.log(st, "tls", c.q, good)
        return [(st, ONE if good else ZERO)]

    def exists(self, e, c):
        st = c.st
        for s, k in path_of(e, st, c.val(0)[0][1]):
            missing = any(("exists", p) in self.all and repr(p) in repr(k) for p in (CERT, KEY))
            self.log(s, "exists", k, not missing)
            return [(s, not missing)]

    def p_poll(self, e, c):
        st = c.st
        self.log(st, "wait")
        k = st.ghost["pass"]
        if k == 0:
            self.live_frames = set()
            f = c.fr
            while f is not None:
                self.live_frames.add(f.id)
                f = f.parent
        p = self.script[k] if k < len(self.script) else None
        if p is None or not p.signal:
            return World.p_poll(self, e, c)
        h = dict(st.ghost["sig"]).get(p.signal)
        out = []
        if isinstance(h, Fn):
            self.wait(e, c, st, k, c.val(0)[0][1])
            for s, _ in e.call_value(st, h, [L(p.signal)], c.n, c.fr, None):
                s.ghost["pass"] = k + 1
                s.ghost["handled"] = s.ghost["handled"] + ((p.signal, len(s.ghost["waits"])),)
                err = self.E.E.get("ion::PollError", {"": 0})
                out.append((s, Opt(False, VOID, L(err.get("Interrupted", sorted(err.values())[0])), "exp", c.n.get("t", c.f.get("r")))))
            return out
        if h is not None and h != Ptr(None, True) and self.ignored(h):
            return World.p_poll(self, e, c)
        self.log(st, "killed", p.signal)
        self.killed.append((st, p.signal))
        return []

    def ignored(self, h):
        """SIG_IGN is the address 1."""
        return isinstance(h, Ptr) and h.path == (("addr", 1),)

    # ---- running
    def start(self, script):
        e = self.eng
        e.steps = 0
        self.script = script
        self.ends = []
        self.this = None
        self.killed = []
        st = self.blank()
        st.ghost.update(handled=(), ctx=(None, None), opts=(), sig=(), nnp=False, nctx=0)
        e.gone_uses = []
        res, exc = e.run("main", st, None, [L(1), Ptr((("obj", "argv", None),), False)])
        return res, self.ends, exc


class Run:
    """One start of the program, judged."""

    def __init__(self, D, rep, what, opts, faults=(), script=()):
        self.rep, self.what = rep, what
        w = self.w = App(D, rep, opts, faults)
        self.res, self.ends, self.exc = w.start(list(script))
        self.e = w.eng
        rep.count("starts")
        self.at = where_fn(w.eng, "main")
        if not self.res and not self.ends and not self.exc:
            rep.undecided("start", "no path reaches the end of the start-up '%s'" % what)

    def states(self):
        return [(s, v) for s, v in self.res] + [(s, None) for s in self.ends] + [(s, None) for s in self.exc]

    def judge(self, rid, st, ok, text, fn="main", at=None):
        self.rep.judge(rid, self.e, st, ok, fn, at or self.at, "%s: %s" % (self.what, text))

    def bads(self, st, rid):
        hit = False
        for r, at, text, fn in st.ghost["bad"]:
            if r == rid:
                hit = True
                self.judge(rid, st, False, text, fn, at)
        if not hit:
            self.rep.ok(rid)

    def done(self):
        self.rep.absorb(self.e)


LOGS = {"--access-log": b"/given/access.log"}
ALL = {"--under-test": True, "--status-page": True, "--custom-404-file-path": b"/given/404.html"}


def pair(a, b):
    return Seq("vec", L(2), tuple(("v", Seq("str", L(len(x)), (("c", x),), None, None)) for x in (a, b)), None, None)


STATIC = {"--static": pair(b"/static", b"/given/www")}


def starts(tier):
    """Command lines that serve."""
    yield "TLS", dict(TLS)
    yield "cleartext", {"--cleartext": True}
    yield "TLS with an access log", dict(TLS, **LOGS)
    yield "everything", dict(TLS, **LOGS, **ALL, **STATIC)
    yield "cleartext with everything", dict({"--cleartext": True}, **LOGS, **ALL, **STATIC)


def c26(D, rep, tier):
    rep.rule("no-new-privs", "whenever the server is created, a log is opened or the server listens, prctl(PR_SET_NO_NEW_PRIVS, 1) has been called")
    rep.rule("reported", "the test route answers 200 if and only if prctl(PR_GET_NO_NEW_PRIVS) says the flag is set")
    for what, opts in starts(tier):
        for faults in ((), ("prctl",), ("spdlog::basic_logger_mt",), ("mismatch",), ("listen",)):
            r = Run(D, rep, what + (" (%s fails)" % faults if faults else ""), opts, faults)
            for st, v in r.states():
                r.bads(st, "no-new-privs")
            r.done()
    r = Run(D, rep, "under test", dict(TLS, **ALL))
    for st in r.ends:
        for flag in (0, 1, -1):
            s0 = st.copy()
            got = [(s, x) for s, h in handler(r, s0, b"/_tests/no_new_privs", b"GET") for s, x in asked(r, s, h, flag)]
            for s, x in got:
                code = x.get("status_code") if isinstance(x, Struct) else None
                if code is None or cst(code) is None:
                    rep.undecided("reported", "the answer's status is %r" % (code,))
                    continue
                r.judge("reported", s, (cst(code) == 200) == (flag == 1), "the no-new-privileges route answers %d when prctl() returns %d" %
                        (cst(code), flag), "TestRoutes::add_test_routes", where_any(r.e, "TestRoutes::add_test_routes"))
            if not got:
                rep.undecided("reported", "the test route gives no answer")
    r.done()


def where_any(e, name):
    try:
        return where_fn(e, name)
    except AnalysisBroken:
        return "app"


def handler(r, st, path, method):
    """[(state, handler)] the running server's router gives."""
    e = r.e
    rt = (r.w.this.path[0],)
    v = e.read(st, rt)[0][1]
    name = [n for n, x in v.fields if isinstance(x, Struct) and x.cls == "ion::Router"]
    if len(name) != 1:
        raise AnalysisBroken("the server holds no single router")
    this = Ptr(rt + (name[0],), False)
    mk = lambda b: b if isinstance(b, Seq) else Seq("str", L(len(b)), (("c", b),), None, None)
    live, exc = e.run("ion::Router::get_handler", st, this, [var(st, "path", mk(path)), var(st, "method", mk(method))], 2)
    return live


def asked(r, st, h, flag):
    st.ghost["nnp_get"] = flag
    req, _ = make(r.e, st, "request", "ion::HttpRequest")
    out = []
    for s, p in req:
        n = {"k": "Call", "l": [0, 0]}
        out += r.e.call_value(s, h, [p], n, Frame(r.e.fid(None, ("entry", "ask")), None, None, None, None, None), None)
    return out


# ---- C20
def c20(D, rep, tier):
    rep.rule("tls-start", "the server listens without cleartext mode only with a certificate and a matching key loaded from the given files; in every "
             "other case the start ends with an error and nothing is served")
    rep.rule("options", "each command-line option reaches the configuration field it names, and a field whose option was not given stays unset")
    rep.rule("tls-connection", "unless cleartext mode was asked for, every connection is given a TLS transport")
    steps = ("SSL_CTX_new", "SSL_CTX_use_certificate_file", "SSL_CTX_use_certificate_chain_file", "SSL_CTX_use_PrivateKey_file",
             "SSL_CTX_check_private_key", "mismatch", ("exists", CERT), ("exists", KEY))
    faults = [()] + [(f,) for f in steps] + [steps[1:3]]
    cmds = [("TLS", TLS), ("only a certificate", {"--tls-cert-path": CERT}), ("only a key", {"--tls-key-path": KEY}), ("nothing", {}),
            ("cleartext", {"--cleartext": True}), ("cleartext with TLS files", dict(TLS, **{"--cleartext": True})),
            ("everything but TLS", dict(LOGS, **ALL, **STATIC))]
    for what, opts in cmds:
        clear = "--cleartext" in opts
        for f in faults if not clear else [()]:
            r = Run(D, rep, what + (" (%s)" % (f,) if f else ""), opts, f, [ok(), ok()])
            for st, v in r.states():
                served = st.ghost.get("served")
                if served is not None and not clear:
                    cert, key = served[1]
                    good = "mismatch" not in f and all(("exists", p) not in f for p in (CERT, KEY))
                    r.judge("tls-start", st, cert == CERT and key == KEY and good, "the server listens although %s" %
                            ("no certificate was loaded" if cert is None else "the certificate is not the given one" if cert != CERT else
                             "no private key was loaded" if key is None else "the private key is not the given one" if key != KEY else
                             "the private key does not match" if "mismatch" in f else "a given file does not exist"), served[3], served[2])
                elif served is None:
                    failed = v is None or cst(v) not in (None, 0)
                    r.judge("tls-start", st, failed, "nothing is served and yet the program reports success")
                    if not f and (clear or what == "TLS"):
                        r.judge("tls-start", st, False, "the program does not start although its configuration is complete")
                r.bads(st, "options")
                for cls, at, fn in st.ghost["kinds"]:
                    if not clear:
                        r.judge("tls-connection", st, server.ssl_class(r.w, cls), "a connection is served over %s although cleartext was not asked for" %
                                cls, fn, at)
                config(r, st, opts)
            rep.engine(r.e, {"opt", "null"}, "tls-start")
    effects(D, rep)


def config(r, st, opts):
    """The configuration the server was created with."""
    v = st.ghost.get("config")
    if v is None:
        return
    at = where_any(r.e, "Args::to_server_config")
    for name, opt in (("cert_path", "--tls-cert-path"), ("key_path", "--tls-key-path")):
        x = v.get(name)
        if not isinstance(x, Opt):
            r.rep.undecided("options", "configuration field %s" % name)
            continue
        if opt in opts:
            k = x.val.data if isinstance(x.val, Opaque) else None
            r.judge("options", st, x.has is True and (k == ("of", ("c", opts[opt])) or given(x.val, opts[opt])),
                    "%s does not reach the server's %s (%r)" % (opt, name, x.val if x.has else "unset"), "Args::to_server_config", at)
        else:
            r.judge("options", st, x.has is False, "%s is set although %s was not given" % (name, opt), "Args::to_server_config", at)
    c = v.get("cleartext")
    if not isinstance(c, bool):
        r.rep.undecided("options", "configuration field cleartext")
    else:
        r.judge("options", st, c == ("--cleartext" in opts), "cleartext mode is %s although --cleartext was %sgiven" %
                ("on" if c else "off", "" if "--cleartext" in opts else "not "), "Args::to_server_config", at)


def effects(D, rep):
    """What the other options do, seen from outside."""
    at = "Args::register_opts"
    for what, opts in (("--port", {"--port": L(9443)}), ("--access-log", LOGS), ("--under-test", {"--under-test": True}),
                       ("--status-page", {"--status-page": True}), ("none", {})):
        r = Run(D, rep, "%s given" % what, dict(TLS, **opts))
        for st in r.ends:
            log = st.ghost["log"]
            port = [x[1] for x in log if x[0] == "port"]
            logs = [x[1] for x in log if x[0] == "log"]
            r.judge("options", st, port == [9443 if what == "--port" else 8443], "the server is started on port %s" % port)
            opened = any(x == LOGS["--access-log"] for x in logs)
            anylog = any(x[:2] == ("step", "a log is opened") for x in log)
            if what == "--access-log":
                r.judge("options", st, opened, "the access log is not opened at the given path")
            else:
                r.judge("options", st, not anylog, "a log is opened although --access-log was not given")
            for path, opt in ((b"/_tests/ok", "--under-test"), (b"/_ion/status", "--status-page")):
                hs = handler(r, st.copy(), path, b"GET")
                for s, h in hs:
                    codes = [cst(x.get("status_code")) for _, x in asked(r, s, h, 0) if isinstance(x, Struct) and x.get("status_code") is not None]
                    if not codes or None in codes:
                        rep.undecided("options", "the answer of %s" % path.decode())
                        continue
                    r.judge("options", s, all((c != 404) == (what == opt) for c in codes), "%s answers %s although %s was %sgiven" %
                            (path.decode(), codes, opt, "" if what == opt else "not "))
        if not r.ends:
            rep.undecided("options", "the program does not start with %s" % what)
        r.done()


# ---- C19
def c19(D, rep, tier):
    rep.rule("installed", "when the server listens, SIGINT and SIGTERM run a handler of the program and SIGPIPE runs one or is ignored")
    rep.rule("restored", "when the program ends after serving, none of these signals still runs a handler of the program")
    rep.rule("stops", "a SIGINT or SIGTERM that arrives during a wait makes the loop end after at most one further wait; a SIGPIPE while standard "
             "output and standard error work does not end it")
    found = {}
    for what, opts in list(starts(tier))[:2] + list(starts(tier))[3:4]:
        for sig in SIGNALS:
            p = Pass(signal=sig)
            r = Run(D, rep, "%s, %s" % (what, SIGNALS[sig]), opts, (), [ok(), p, Pass(), Pass(), Pass()])
            for st, s in r.w.killed:
                r.judge("installed", st, False, "%s ends the process" % SIGNALS[s], "SignalHandler::SignalHandler", where_any(r.e, "SignalHandler::SignalHandler"))
            for st, v in r.states():
                if st.ghost.get("served") is None:
                    continue
                inst = st.ghost["served"][0]
                for k, n in SIGNALS.items():
                    h = inst.get(k)
                    r.judge("installed", st, isinstance(h, Fn) or k == SIGPIPE and r.w.ignored(h), "%s has no handler when the server listens" % n,
                            st.ghost["served"][3], st.ghost["served"][2])
                    if isinstance(h, Fn):
                        found[h.u] = (n, h)
                after = st.ghost["waits"][st.ghost["handled"][-1][1]:] if st.ghost["handled"] else ()
                if sig != SIGPIPE and st.ghost["handled"]:
                    r.judge("stops", st, v is not None and len(after) <= 1, "after %s the loop waits %d more times%s" %
                            (SIGNALS[sig], len(after), "" if v is not None else " and does not end"), SERVER + "::start", where_fn(r.e, SERVER + "::start"))
                if sig == SIGPIPE:
                    r.judge("stops", st, v is None and st in r.ends, "a SIGPIPE ends the server although its output works", SERVER + "::start",
                            where_fn(r.e, SERVER + "::start"))
                if v is not None:
                    left = [n for k, n in SIGNALS.items() if isinstance(dict(st.ghost["sig"]).get(k), Fn)]
                    r.judge("restored", st, not left, "%s still has a handler when the program ends" % ", ".join(left))
            r.done()
    if not found:
        rep.undecided("installed", "no handler is installed")
    handlers(D, rep, found)


SAFE_C = set("""_exit _Exit abort accept access alarm bind cfgetispeed chdir chmod clock_gettime close connect dup dup2 dup3 execve faccessat
fchdir fchmod fchown fcntl fdatasync fork fstat fsync ftruncate getegid geteuid getgid getpeername getpgrp getpid getppid getsockname getsockopt
getuid kill link listen lseek lstat mkdir open openat pause pipe poll ppoll pselect pthread_kill pthread_self pthread_sigmask raise read readlink
recv recvfrom recvmsg rename rmdir select sem_post send sendmsg sendto setpgid setsid setsockopt shutdown sigaction sigaddset sigdelset
sigemptyset sigfillset sigismember signal sigpending sigprocmask sigqueue sigsuspend sleep sockatmark socket socketpair stat symlink time
timer_getoverrun times umask uname unlink utime wait waitpid write memcpy memmove memset memcmp strlen strcmp strncmp eventfd_write
__errno_location""".split())
SAFE_STD = {"std::move", "std::forward", "std::exchange", "std::addressof", "std::min", "std::max", "std::to_underlying", "std::as_const",
            "std::atomic_signal_fence", "std::atomic_thread_fence", "std::swap", "std::signal", "std::_Exit", "std::abort", "std::array::data",
            "std::array::size", "std::basic_string_view::data", "std::basic_string_view::size", "std::basic_string_view::basic_string_view",
            "std::size", "std::data", "std::operator|", "std::operator&"}
ATOMIC = ("std::atomic::", "std::__atomic_base::", "std::atomic_flag::", "std::__atomic_flag_base::")


def nodes(n):
    if isinstance(n, dict):
        if "k" in n:
            yield n
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                yield from nodes(v)
    elif isinstance(n, list):
        for x in n:
            yield from nodes(x)


def handlers(D, rep, found):
    """The functions a signal can run, and everything they can call."""
    rep.rule("safe", "every function reachable from an installed handler calls only async-signal-safe functions and lock-free atomic operations, "
             "neither allocates, throws nor initialises a local static")
    rep.rule("flag", "a member that a handler writes and the running loop reads is volatile or a lock-free atomic")
    e = Engine(D)
    F = D["functions"]
    over = {}
    for u, f in F.items():
        for o in f.get("overrides", ()):
            over.setdefault(o if isinstance(o, str) else o.get("u"), []).append(u)
    todo = [(u, (h.q,)) for u, (n, h) in found.items()]
    seen = set()
    written = {}
    while todo:
        u, path = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        f = F.get(u)
        if f is None or f.get("body") is None:
            rep.undecided("safe", "the body of %s is not available" % (u,))
            continue
        fn = clean(f["q"])
        rep.count("handler_functions")
        bad = []
        body = [f["body"]] + list(f.get("inits") or ())
        for n in nodes(body):
            k = n["k"]
            at = "%s:%s" % (relfile(f["file"]), (n.get("l") or [f["line"]])[0])
            if k in ("New", "Delete"):
                bad.append((at, "%s memory" % ("allocates" if k == "New" else "frees")))
            elif k == "Throw":
                bad.append((at, "throws"))
            elif k == "Decl":
                for d in n["d"]:
                    if d.get("static") and d.get("apv") is None:
                        bad.append((at, "initialises the local static %s, which takes a lock" % d.get("name")))
            elif k == "Bin" and n["op"] == "=" or k == "CAssign":
                x = n.get("x")
                while isinstance(x, dict) and x.get("k") == "Cast":
                    x = x.get("e")
                if isinstance(x, dict) and x.get("k") == "Member":
                    written[(x.get("n"), member_class(e, x))] = (e.T(x["t"]), fn, at)
            c = n.get("f")
            if not isinstance(c, dict) or "q" not in c or k == "Member":
                if k == "Call" and not isinstance(c, dict):
                    rep.undecided("safe", "an indirect call at %s" % at)
                continue
            q = clean(c["q"])
            rep.count("handler_calls")
            if c.get("u") in F and F[c["u"]].get("body") is not None:
                todo.append((c["u"], path + (q,)))
                if c.get("vt"):
                    todo += [(o, path + (q,)) for o in over.get(c["u"], ())]
            elif k == "Ref":
                continue
            elif c.get("vt"):
                todo += [(o, path + (q,)) for o in over.get(c.get("u"), ())]
            elif q.startswith(ATOMIC):
                t = e.targ(c["clst"], 0) if c.get("clst") is not None and "flag" not in q else None
                if t is not None and e.T(e.strip(t))["k"] not in ("int", "bool", "ptr", "enum"):
                    bad.append((at, "uses an atomic that is not lock-free (%s)" % q))
            elif q.replace("std::", "") in SAFE_C and (q.count("::") == 0 or q.startswith("std::")) or q in SAFE_STD or c.get("constexpr") or \
                    q.startswith(("std::chrono::duration", "__builtin_")):
                pass
            elif k == "Construct" and trivial(e, n):
                pass
            else:
                bad.append((at, "calls %s, which is not async-signal-safe" % q))
        for at, what in bad:
            rep.violation("safe", fn, at, "%s, which a signal handler runs (%s), %s" % (fn, " -> ".join(path), what))
        if not bad:
            rep.ok("safe")
        rep.sample("safe", "%s reached through %s" % (fn, " -> ".join(path)))
    loop_reads = reads_in_loops(D, SERVER + "::start")
    for (name, cls), (t, fn, at) in sorted(written.items(), key=str):
        if (name, cls) in loop_reads:
            good = "volatile" in t.get("s", "") or t.get("s", "").startswith(("std::atomic", "const std::atomic"))
            if good:
                rep.ok("flag")
            else:
                rep.violation("flag", fn, at, "%s, which a signal handler writes and the loop reads, is neither volatile nor atomic" % name)


def member_class(e, x):
    b = x.get("b") or {}
    t = b.get("t")
    if t is None:
        return None
    while e.T(e.strip(t))["k"] == "ptr":
        t = e.T(e.strip(t))["to"]
    return e.tname(t)


def trivial(e, n):
    t = n.get("t")
    return t is not None and e.T(e.strip(t))["k"] in ("int", "bool", "enum", "ptr", "float") or not n.get("a") and n["f"].get("df")


def reads_in_loops(D, name):
    """Members read inside a loop of the function, or in what it calls from there."""
    e = Engine(D)
    F = D["functions"]
    out = set()
    seen = set()

    def visit(body):
        for n in nodes(body):
            if n["k"] == "Member":
                out.add((n.get("n"), member_class(e, n)))
            c = n.get("f")
            if isinstance(c, dict) and c.get("u") in F and c["u"] not in seen:
                seen.add(c["u"])
                visit(F[c["u"]].get("body"))
    for u, f in F.items():
        if clean(f["q"]) == name:
            for n in nodes(f.get("body")):
                if n["k"] in ("While", "For", "Do"):
                    visit(n)
    return out


# ---- C21
def c21(D, rep, tier):
    from .route import judge_refs
    rep.rule("lifetime", "no closure that the router or the application returns or stores refers, directly or through what it captured, to "
             "a parameter or local of a call that has returned, to an argument of the call, or to an element of a growing container")
    for what, opts in list(starts("thorough"))[2:]:
        r = Run(D, rep, what, opts)
        for st in r.ends:
            frames = r.w.live_frames
            server = r.w.this.path[0]

            def alive(root, p):
                if root[0] in ("v", "t"):
                    if root[1] not in frames:
                        return "an object local to a call that has returned"
                    if root not in st.store:
                        return "an object that has been destroyed"
                    if root[0] == "t":
                        return "a temporary"
                    x = None
                    for c in p[1:]:
                        if isinstance(c, tuple) and c[0] == "i" and root == server:
                            return "an element of the server's %s, which moves when it grows" % (x,)
                        x = c
                return None
            v = st.store.get(server)
            for n, x in (v.fields if isinstance(v, Struct) else ()):
                if isinstance(x, Struct) and x.cls == "ion::Router":
                    for nm, y in x.fields:
                        if isinstance(y, (Seq, MapV, Clo, Opt)):
                            judge_refs(rep, r.e, st, y, "main", where_any(r.e, "run_server"), "what the router holds in %s while the server runs" % nm,
                                       alive)
            for path in (b"/static/x", b"/_ion/status", b"/nowhere"):
                for s, h in handler(r, st.copy(), path, b"GET"):
                    judge_refs(rep, r.e, s, h, "main", where_any(r.e, "run_server"), "the handler got for %s" % path.decode(), alive)
        if not r.ends:
            rep.undecided("lifetime", "the server does not start with %s" % what)
        r.done()
