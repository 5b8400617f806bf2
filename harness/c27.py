import http.client
import multiprocessing
import os
import socket as socket_module
import sys
import time
import types
import urllib
import urllib.error
import urllib.request
from multiprocessing import connection

from clubs.render import graphic

from harness.common import Card, Dealer, base_config, error

PROPERTY = "C27"
BOUNDS = ("up to 3 rendered states with arbitrary numbers in them, up to 2 browsers that connect at "
          "any point, up to 2 empty looks at the connection before any state; opening: up to 3 "
          "refused attempts, a clock that advances by any amount; any host and port")
ASSUMPTIONS = [
    "the operating system and the web framework are stand-ins: a process that records its target, "
    "a connection that keeps messages in order, a clock, and a web server with the documented "
    "behaviour of flask, flask-socketio and gevent (handlers per event, emit to everybody or to "
    "one browser, background tasks that share the processor at sleeps and connection operations)"]
OUTSIDE = "the frameworks themselves, the network, the script in the browser (C28)"

REAL = dict(time=time, multiprocessing=multiprocessing, connection=connection,
            socket=socket_module, urllib=urllib, request=urllib.request)


class Module(object):
    """a module of which some parts are stand-ins"""

    def __init__(self, real, **parts):
        self.__dict__.update(parts)
        self.__dict__["_real"] = real

    def __getattr__(self, name):
        return getattr(self.__dict__["_real"], name)


class World(object):
    """the computer the table is shown on"""

    def __init__(self, ctx, refuse=0, tick_lo=0, tick_hi=None, clock=False):
        self.ctx = ctx
        self.refuse = refuse        # connection attempts that may fail
        self.clock = clock
        self.tick = (tick_lo, tick_hi)
        self.now = 0
        self.looks = 0
        self.seen = []              # what the clock showed
        self.attempts = []
        self.wire = []              # messages sent and not yet received
        self.process = None
        self.made = 0
        self.calls = {"client": 0, "web": 0}

    # the clock
    def time(self):
        if self.clock:
            d = self.ctx.int("tick%d" % len(self.seen), *self.tick)
            self.now = self.now + d
        self.seen.append(self.now)
        return self.now

    def sleep(self, seconds=0):
        pass

    # connections
    def fails(self, kind):
        """whether this attempt to reach the server fails, and how"""
        k = self.calls[kind]
        self.calls[kind] = k + 1
        self.attempts.append(kind)
        if k >= self.refuse:
            return 0
        kinds = 3 if kind == "client" else 2
        return self.ctx.choice("%s%d" % (kind, k), list(range(kinds)))

    def client(self, address, *a, **kw):
        f = self.fails("client")
        self.ctx.check(self.process is not None and self.process.started,
                       "the server process runs before it is used")
        if f == 1:
            raise ConnectionRefusedError("refused")
        if f == 2:
            raise OSError("unreachable")
        self.address = address
        return ClientEnd(self)

    def urlopen(self, url, *a, **kw):
        f = self.fails("web")
        self.url = getattr(url, "full_url", url)
        if f == 1:
            raise urllib.error.URLError("refused")
        r = types.SimpleNamespace()
        r.status = r.code = 200
        r.getcode = lambda: 200
        r.read = lambda *b: b""
        r.close = lambda: None
        return r

    def make_process(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.process = Process(target, args, kwargs or {})
        self.made += 1
        return self.process

    def free_port(self, *a, **kw):
        return Socket()

    def install(self):
        """put the stand-ins wherever the viewer refers to the real things"""
        conn = Module(connection, Client=self.client, Listener=self.listener)
        mp = Module(multiprocessing, Process=self.make_process, connection=conn)
        mp.get_context = lambda *a: mp
        clock = Module(time, time=self.time, monotonic=self.time, perf_counter=self.time,
                       sleep=self.sleep)
        request = Module(urllib.request, urlopen=self.urlopen)
        lib = Module(urllib, request=request)
        sock = Module(socket_module, socket=self.free_port)
        swap = [(time, clock), (time.time, self.time), (time.monotonic, self.time),
                (time.perf_counter, self.time), (time.sleep, self.sleep),
                (multiprocessing, mp), (multiprocessing.Process, self.make_process),
                (connection, conn), (connection.Client, self.client),
                (connection.Listener, self.listener), (urllib, lib), (urllib.request, request),
                (urllib.request.urlopen, self.urlopen), (socket_module, sock),
                (socket_module.socket, self.free_port)]
        names = vars(graphic)
        self.saved = {}
        for name in list(names):
            for real, fake in swap:
                if names[name] is real:
                    self.saved[name] = real
                    names[name] = fake
        self.saved["REQUIREMENTS"] = names["REQUIREMENTS"]
        names["REQUIREMENTS"] = True
        names["print"] = lambda *a, **k: None
        self.modules = {}
        for name, m in self.frameworks().items():
            self.modules[name] = sys.modules.get(name)
            sys.modules[name] = m

    def remove(self):
        names = vars(graphic)
        names.update(self.saved)
        names.pop("print", None)
        for name, m in self.modules.items():
            if m is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = m

    # the web server
    def frameworks(self):
        w = self
        gevent = types.ModuleType("gevent")
        monkey = types.ModuleType("gevent.monkey")
        monkey.patch_all = lambda *a, **k: None
        gevent.monkey = monkey
        gevent.sleep = lambda *a, **k: w.turn()
        gevent.spawn = lambda f, *a, **k: w.tasks.append((f, a, k))
        flask = types.ModuleType("flask")
        w.asker = types.SimpleNamespace(sid=None)
        flask.request = w.asker

        class Flask(object):
            def __init__(self, *a, **kw):
                w.app = self
                self.folders = kw
                self.config = {}
                self.pages = {}

            def route(self, path, **kw):
                def put(f):
                    self.pages[path] = f
                    return f
                return put
            get = route

            def add_url_rule(self, path, endpoint=None, view_func=None, **kw):
                self.pages[path] = view_func
        flask.Flask = Flask
        flask.render_template = lambda name, **kw: (name, kw)
        sio = types.ModuleType("flask_socketio")

        class SocketIO(object):
            def __init__(self, app=None, **kw):
                pass

            def init_app(self, app, **kw):
                pass

            def on(self, name, **kw):
                def put(f):
                    w.handlers[name] = f
                    return f
                return put

            def event(self, f):
                w.handlers[f.__name__] = f
                return f

            def on_event(self, name, f, **kw):
                w.handlers[name] = f

            def emit(self, event, *args, **kw):
                w.deliver(kw.get("to", kw.get("room")), event, args)

            def start_background_task(self, f, *a, **kw):
                w.tasks.append((f, a, kw))

            def sleep(self, seconds=0):
                w.turn()

            def run(self, app, host=None, port=None, **kw):
                w.serve(host, port)
        sio.SocketIO = SocketIO

        def emit(event, *args, **kw):
            to = kw.get("to", kw.get("room"))
            if to is None and not kw.get("broadcast"):
                to = w.asker.sid
            w.deliver(to, event, args)
        sio.emit = emit
        safe = types.ModuleType("markupsafe")
        safe.Markup = Markup
        flask.Markup = Markup
        return {"gevent": gevent, "gevent.monkey": monkey, "flask": flask, "flask_socketio": sio,
                "markupsafe": safe}

    def start_server(self, browsers, idle):
        self.browsers = []          # [first state it could know of, what it got]
        self.may_connect = browsers
        self.idle = idle
        self.after_end = 0
        self.received = []
        self.ended = False
        self.handlers = {}
        self.tasks = []
        self.turns = 0
        self.served = None
        p = self.process
        p.target(*p.args, **p.kwargs)

    def deliver(self, to, event, args):
        self.ctx.check(event == "config" and len(args) == 1, "browsers get the state")
        for i, b in enumerate(self.browsers):
            if to is None or to == i:
                b[1].append(args[0])

    def connect(self):
        i = len(self.browsers)
        self.browsers.append([len(self.received), []])
        self.asker.sid = i
        f = self.handlers.get("connect")
        if f is not None:
            f()
        self.asker.sid = None

    def turn(self):
        """the other parts of the server may run"""
        if len(self.browsers) < self.may_connect:
            self.turns += 1
            if self.ctx.choice("connect%d" % self.turns, [False, True]):
                self.connect()
        if self.asker.sid is None:
            self.current()

    def current(self):
        """everybody shows the last state now"""
        k = len(self.received) - 1
        if k < 0 or self.in_recv:
            return
        for first, got in self.browsers:
            self.ctx.check(got != [] and number(got[-1]) == k, "everybody sees the last state")

    in_recv = False

    def serve(self, host, port):
        self.served = (host, port)
        while self.tasks:
            f, a, kw = self.tasks.pop(0)
            f(*a, **kw)
        while len(self.browsers) < self.may_connect:
            self.connect()
        self.current()

    def listener(self, address, *a, **kw):
        self.listening = address
        self.closed = [False, False]
        return Listener(self)


class Markup(str):
    pass


class Listener(object):
    def __init__(self, world):
        self.world = world

    def accept(self):
        return ServerEnd(self.world)

    def close(self):
        self.world.closed[1] = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class ServerEnd(object):
    def __init__(self, world):
        self.world = world

    def poll(self, timeout=0):
        w = self.world
        w.turn()
        if not w.wire:
            w.after_end += 1
            w.ctx.check(w.after_end < 5, "the server stops when it is told to")
            if w.after_end >= 5:
                raise EOFError()
            return False
        if w.idle > 0:
            w.looks += 1
            if w.ctx.choice("idle%d" % w.looks, [False, True]):
                w.idle -= 1
                return False
        return True

    def recv(self):
        w = self.world
        if not w.wire:
            raise EOFError()
        m = w.wire.pop(0)
        if m["content"] == "close":
            w.ended = True
        else:
            w.received.append(m["content"])
        return m

    def close(self):
        self.world.closed[0] = True

    def fileno(self):
        return 3

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def pickled(x):
    """what arrives at the other end of a connection: a copy"""
    if isinstance(x, dict):
        return {k: pickled(x[k]) for k in x}
    if isinstance(x, (list, tuple)):
        return type(x)([pickled(y) for y in x])
    return x


class ClientEnd(object):
    def __init__(self, world):
        self.world = world

    def send(self, message):
        if not self.world.process.alive:
            raise BrokenPipeError()
        self.world.wire.append(pickled(message))

    def close(self):
        pass


class Process(object):
    def __init__(self, target, args, kwargs):
        self.target, self.args, self.kwargs = target, args, kwargs
        self.started = self.alive = self.joined = False
        self.daemon = False

    def start(self):
        self.started = self.alive = True

    def is_alive(self):
        return self.alive

    def terminate(self):
        self.alive = False
    kill = terminate

    def join(self, timeout=None):
        self.joined = True

    def close(self):
        pass


class Socket(object):
    """finds a free port"""

    def __init__(self, *a):
        pass

    def bind(self, address):
        pass

    def setsockopt(self, *a):
        pass

    def getsockname(self):
        return ("0.0.0.0", 4242)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def number(got):
    """which state this is (the states are numbered by their player to act)"""
    return got.get("action") if isinstance(got, dict) else None


def state(ctx, k):
    num = lambda name: ctx.int("%s_%d" % (name, k), 0)  # noqa: E731
    fold = ctx.bool("fold_%d" % k)
    return dict(
        action=k, active=[fold, True], all_in=[False, ctx.bool("allin_%d" % k)],
        community_cards=[Card("Ah"), Card("Td")][:k], button=k % 2, done=ctx.bool("done_%d" % k),
        hole_cards=[[Card("2c")], [Card("Ks")]], pot=num("pot"), payouts=[num("win"), 0],
        prev_action=(1, num("bet"), fold) if k else None,
        street_commits=[num("commit"), num("other")], stacks=[num("stack"), num("deep")])


def same(ctx, a, b):
    """same plain data, whatever the type of sequence"""
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and ctx.all([same(ctx, a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and \
            ctx.all([same(ctx, x, y) for x, y in zip(a, b)])
    return a == b


def text(c):
    return [str(x) for x in c]


def expected(c):
    c = dict(c)
    c["community_cards"] = text(c["community_cards"])
    c["hole_cards"] = [text(h) for h in c["hole_cards"]]
    return c


def deliver(ctx, states=2, browsers=2, idle=1, host="127.0.0.1", port=4000):
    """render some states, close, and let the server see it all in any timing"""
    w = World(ctx)
    if port == "sym":
        port = ctx.int("port", 1, 65534)
    w.install()
    try:
        v = graphic.GraphicViewer(2, 1, 2, host=host, port=port)
        ctx.check(w.process.alive, "the server runs")
        want = []
        for k in range(states):
            c = state(ctx, k)
            want.append(expected(c))
            v.render(c)
        ctx.check(len(w.wire) == states, "every state is sent")
        v.close()
        ctx.check(not w.process.alive, "closing ends the server process")
        ctx.check(len(w.wire) == states + 1, "the server is told to stop")
        v.close()
        ctx.check(not w.process.alive, "closing twice is harmless")
        w.start_server(browsers, idle)
        ctx.check(w.address == w.listening, "the viewer and its server meet")
        if w.served is not None:
            at = w.served[0] or "127.0.0.1"
            ctx.check(at in (host, "0.0.0.0") and w.served[1] == port,
                      "the page is served at the host and port asked for")
        else:
            ctx.check(False, "the page is served")
        ctx.check(w.ended and len(w.received) == states, "the server gets every state")
        ctx.check(w.closed[0] or w.closed[1], "the connection is closed at the end")
        page = w.app.pages.get("/")
        ctx.check(page is not None, "there is a page")
        if page is not None:
            name, parts = page()
            ctx.check(os.path.exists(os.path.join(w.app.folders["template_folder"], name)),
                      "the page has a template")
            ctx.check(str(v.svg_poker.base_svg) in [str(x) for x in parts.values()],
                      "the page holds the table")
        ctx.check(os.path.isdir(w.app.folders["static_folder"]), "the page has its parts")
        for first, got in w.browsers:
            # what the browser showed, one after the other, without repetitions
            ks = []
            for m in got:
                k = number(m)
                if k is None:
                    ctx.check(m == {} or m is None, "nothing to see before the first state")
                    ctx.check(not ks, "nothing to see before the first state")
                    continue
                ctx.check(0 <= k < states and same(ctx, want[k], m), "browsers get what was rendered")
                if ks[-1:] != [k]:
                    ks.append(k)
            start = max(first - 1, 0)
            ctx.check(ks == list(range(start, states)), "every state from then on, in order")
            ctx.cover("late" if first == states else "browser")
    finally:
        w.remove()


def opening(ctx, refuse=3, port=4000, host="127.0.0.1", hopeless=False):
    """the server takes its time, or never answers"""
    w = World(ctx, refuse=12 if hopeless else refuse, clock=True, tick_lo=2 if hopeless else 0)
    w.install()
    try:
        v = graphic.GraphicViewer.__new__(graphic.GraphicViewer)
        try:
            v.__init__(2, 1, 2, host=host, port=port)
            failed = False
        except error.RenderInitializationError:
            failed = True
        ctx.check(w.process.started, "a server process is started")
        if failed:
            ctx.cover("gave up")
            ctx.check(w.now > 10, "it does not give up within ten seconds")
            ctx.check(not w.process.alive, "a failed opening leaves no process behind")
        else:
            ctx.cover("open")
            ctx.check(w.calls["client"] > 0 and w.calls["web"] > 0, "it waits for the server")
            ctx.check(w.attempts[-1] == "web", "it waits for the page")
            url = w.url
            ctx.check("%s:%d" % (host, v.port) in url, "it waits for the page asked for")
            ctx.check(w.address == (host, v.port + 1), "the connection is at the next port")
            c = state(ctx, 0)
            v.render(c)
            ctx.check(len(w.wire) == 1 and same(ctx, w.wire[0]["content"], expected(c)),
                      "the state is sent")
        v.close()
        ctx.check(not w.process.alive, "closing ends the server process")
        v.__del__()
        ctx.check(not w.process.alive, "closing twice is harmless")
    finally:
        w.remove()


def missing(ctx):
    """without the web framework the viewer is refused"""
    w = World(ctx)
    w.install()
    try:
        graphic.REQUIREMENTS = False
        v = graphic.GraphicViewer.__new__(graphic.GraphicViewer)
        try:
            v.__init__(2, 1, 2)
            ctx.check(False, "missing parts are reported")
        except error.MissingImportsError:
            ctx.cover("refused")
        ctx.check(w.process is None, "nothing is started")
        v.process = Process(None, (), {})
    finally:
        w.remove()


def table(ctx, how="default", host=None, port=None, acts=2):
    """a table shown in the browser shows every rendered state at the place asked for"""
    w = World(ctx)
    if port == "sym":
        port = ctx.int("port", 1, 65534)
    kw = {}
    if how == "named":
        kw["mode"] = "human"
    if host is not None:
        kw["host"] = host
    if port is not None:
        kw["port"] = port
    w.install()
    try:
        d = Dealer(**base_config(3, 2, blinds=[1, 2, 0], antes=0, raise_sizes=["inf"] * 2,
                                 num_raises=[float("inf")] * 2, start_stack=ctx.int("stack", 4)))
        d.reset()
        for k in range(acts + 1):
            if k:
                d.step(ctx.int("bet%d" % k))
            shown = dict(action=d.action, active=list(d.active), pot=d.pot, button=d.button,
                         stacks=list(d.stacks), street_commits=list(d.street_commits),
                         community_cards=text(d.community_cards),
                         hole_cards=[text(h) for h in d.hole_cards])
            d.render(**kw)
            ctx.check(w.process is not None and w.process.alive, "the server runs")
            if w.process is None:
                return
            ctx.check(len(w.wire) == k + 1, "every state is sent once")
            got = w.wire[-1]["content"]
            ctx.check(all(name in got for name in shown), "the state is sent")
            for name in shown:
                ctx.check(same(ctx, shown[name], got[name]), "the table as it is: " + name)
        ctx.check(w.made == 1, "one server for one table")
        v = d.viewer
        v.close()
        ctx.check(not w.process.alive, "closing ends the server process")
        w.start_server(0, 0)
        ctx.check(w.address == w.listening, "the viewer and its server meet")
        ctx.check(w.served is not None, "the page is served")
        if w.served is not None:
            ctx.check((w.served[0] or "127.0.0.1") in (host or "127.0.0.1", "0.0.0.0"),
                      "the page is served at the host asked for")
            ctx.check(w.served[1] == (4242 if port is None else port),
                      "the page is served at the port asked for")
        ctx.check(len(w.received) == acts + 1, "the server gets every state")
        page = w.app.pages.get("/")
        if page is not None:
            want = str(graphic.GraphicViewer(3, 1, 1).svg_poker.base_svg)
            ctx.check(want in [str(x) for x in page()[1].values()], "the page holds this table")
        ctx.cover("shown")
    finally:
        w.remove()


def case(name, covers, fn, **kw):
    return dict(name=name, fn=fn, params=kw, covers=covers, bounds=str(kw))


def cases(tier):
    out = [
        case("no state", ("late",), deliver, states=0, browsers=1),
        case("two states", ("browser", "late"), deliver, states=2, browsers=2, idle=1),
        case("three states", ("browser", "late"), deliver, states=3, browsers=1, idle=2),
        case("another host and port", ("browser",), deliver, states=1, browsers=1, idle=0,
             host="0.0.0.0", port=8080),
        case("another address", ("browser",), deliver, states=1, browsers=1, idle=0,
             host="192.0.2.7", port=5000),
        case("slow server", ("open", "gave up"), opening, refuse=3),
        case("any port", ("open",), opening, refuse=1, port=0),
        case("no server", ("open", "gave up"), opening, hopeless=True),
        case("a table shown", ("shown",), table),
        case("a table shown elsewhere", ("shown",), table, how="named", host="192.0.2.7",
             port="sym", acts=1),
        case("framework missing", ("refused",), missing),
    ]
    if tier == "thorough":
        out += [
            case("four states", ("browser", "late"), deliver, states=4, browsers=3, idle=2),
            case("very slow server", ("open", "gave up"), opening, refuse=6),
        ]
    return out
