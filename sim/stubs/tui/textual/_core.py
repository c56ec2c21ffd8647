"""A small model of Textual: a widget tree in which every widget has its own first-in-first-out message queue
and its own task, as in the real library. The simulator decides which widget's task handles its next message.
Rendering, style and input devices are left out; what is not modelled raises HarnessError, never a verdict.
"""
import contextlib, inspect, re
from collections import deque
from core import HarnessError


class Sim:
    def __init__(self):
        self.reset()

    def reset(self):
        self.pumps = []      # every message pump, in tree order
        self.active = []     # stack of pumps whose handler runs
        self.compose = []    # stacks of containers being composed
        self.timers = []     # [due, seq, pump, callback, interval]
        self.now = 0.0
        self.seq = 0
        self.app = None
        self.notifications = []
        self.errors = []
        self.handled = 0


SIM = Sim()


def gap(what):
    raise HarnessError(f"stub: textual {what}")


def snake(name):
    return re.sub(r"(?<=[a-z0-9])([A-Z])|(?<!^)([A-Z])(?=[a-z])", lambda m: "_" + m.group(0), name).lower()


# ------------------------------------------------------------------ messages
class Message:
    bubble = True
    handler_name = "on_message"

    def __init_subclass__(cls, bubble=None, verbose=False, no_dispatch=False, namespace=None, **k):
        super().__init_subclass__(**k)
        if bubble is not None:
            cls.bubble = bubble
        parts = [p for p in cls.__qualname__.split(".") if p != "<locals>"]
        ns = namespace if namespace is not None else (snake(parts[-2]) if len(parts) > 1 else "")
        cls.handler_name = f"on_{ns}_{snake(parts[-1])}" if ns else f"on_{snake(parts[-1])}"

    def __init__(self):
        self._stop = False
        self._no_default = False
        self._sender = SIM.active[-1] if SIM.active else None
        self.time = SIM.now

    @property
    def control(self):
        return None

    @property
    def is_forwarded(self):
        return False

    def stop(self, stop=True):
        self._stop = stop
        return self

    def prevent_default(self, prevent=True):
        self._no_default = prevent
        return self

    def can_replace(self, message):
        return False

    def set_sender(self, s):
        self._sender = s
        return self


class Event(Message):
    bubble = False


class Callback(Message):
    bubble = False

    def __init__(self, fn):
        super().__init__()
        self.fn = fn


def on(message_type, selector=None, **kwargs):
    if kwargs:
        gap("on(**selectors)")

    def deco(fn):
        fn.__dict__.setdefault("_textual_on", []).append((message_type, selector)) if hasattr(fn, "__dict__") else None
        return fn
    return deco


# ------------------------------------------------------------------ reactive attributes
class Reactive:
    always = False

    def __init__(self, default=None, *, layout=False, repaint=True, init=True, always_update=False, compute=True, recompose=False, bindings=False, toggle_class=None):
        self.default, self.init, self.always, self.toggle_class = default, init, always_update, toggle_class
        if recompose:
            gap("reactive(recompose=True)")

    def __class_getitem__(cls, item):
        return cls

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        d = obj.__dict__.setdefault("_reactive", {})
        if self.name not in d:
            v = self.default
            d[self.name] = v() if callable(v) else v
        comp = getattr(obj, "compute_" + self.name, None)
        if comp:
            old = d[self.name]
            d[self.name] = comp()
            self.changed(obj, old, d[self.name])
        return d[self.name]

    def changed(self, obj, old, new):
        if old == new and not self.always:
            return
        if self.toggle_class:
            for c in self.toggle_class.split():
                obj.set_class(bool(new), c)
        for pre in ("_watch_", "watch_"):
            w = getattr(obj, pre + self.name, None)
            if w:
                n = len(inspect.signature(w).parameters)
                r = w(*([old, new][2 - n:] if n < 2 else [old, new]))
                if inspect.isawaitable(r):
                    gap("asynchronous watcher")
        for o, name, cb in list(SIM.__dict__.get("watchers", [])):
            if o is obj and name == self.name:
                n = len(inspect.signature(cb).parameters)
                cb(*([old, new][2 - n:] if n < 2 else [old, new]))

    def __set__(self, obj, value):
        d = obj.__dict__.setdefault("_reactive", {})
        old = self.__get__(obj)
        for pre in ("_validate_", "validate_"):
            v = getattr(obj, pre + self.name, None)
            if v:
                value = v(value)
        d[self.name] = value
        self.changed(obj, old, value)
        if obj.__dict__.get("_running"):
            for k in dir(type(obj)):
                if k.startswith("compute_") and k != "compute_" + self.name:
                    getattr(obj, k[8:])


class reactive(Reactive):
    pass


class var(Reactive):
    pass


# ------------------------------------------------------------------ message pumps
class MessagePump:
    def __init__(self):
        self._queue = deque()
        self._parent = None
        self._prevented = []
        self._running = False

    @property
    def app(self):
        return SIM.app

    @property
    def is_running(self):
        return self._running

    @property
    def parent(self):
        return self._parent

    def post_message(self, message):
        if not isinstance(message, Message):
            raise TypeError(f"post_message takes a Message, not {type(message).__name__}")
        if not hasattr(message, "_stop"):
            raise RuntimeError(f"{type(self).__name__}: {type(message).__name__} is missing a call to super().__init__()")
        if any(isinstance(message, t) for p in SIM.prevented for t in p):
            return False
        self._queue.append(message)
        return True

    @contextlib.contextmanager
    def prevent(self, *types):
        SIM.prevented.append(types)
        try:
            yield
        finally:
            SIM.prevented.remove(types)

    def call_later(self, fn, *a, **k):
        self._queue.append(Callback(lambda: fn(*a, **k)))
        return True

    call_after_refresh = call_next = call_later

    def set_timer(self, delay, callback=None, *, name=None, pause=False):
        return Timer(self, delay, callback, None, pause)

    def set_interval(self, interval, callback=None, *, name=None, repeat=0, pause=False):
        return Timer(self, interval, callback, interval, pause, repeat)

    def watch(self, obj, attr, cb, init=True):
        SIM.watchers.append((obj, attr, cb))

    def _handlers(self, message):
        for cls in type(self).__mro__:
            if message._no_default:
                break
            for v in list(cls.__dict__.values()):
                for t, sel in getattr(v, "_textual_on", ()):
                    if isinstance(message, t):
                        if sel:
                            c = message.control
                            if c is None:
                                raise RuntimeError("@on with a selector needs a message with a control")
                            if not matches(c, sel):
                                continue
                        yield v
            for n in ("_" + message.handler_name, message.handler_name):
                m = cls.__dict__.get(n)
                if m is not None and not getattr(m, "_textual_on", None):
                    yield m

    def _handle_next(self):
        message = self._queue.popleft()
        while self._queue and message.can_replace(self._queue[0]):
            message = self._queue.popleft()
        SIM.active.append(self)
        SIM.handled += 1
        try:
            if isinstance(message, Callback):
                settle(message.fn())
                return
            for h in self._handlers(message):
                n = len(inspect.signature(h).parameters)
                settle(h(self, message) if n > 1 else h(self))
            if message.bubble and not message._stop and self._parent is not None:
                self._parent.post_message(message)
        finally:
            SIM.active.pop()

    def notify(self, message, *, title="", severity="information", timeout=None, markup=True):
        if severity not in ("information", "warning", "error"):
            raise ValueError(severity)
        SIM.notifications.append((severity, title, message))

    def bell(self):
        pass

    def log(self, *a, **k):
        pass

    def run_worker(self, *a, **k):
        gap("run_worker")

    def __getattr__(self, name):
        if name.startswith("_") or name in ABSENT or name.startswith(("watch_", "validate_", "compute_", "on_", "key_", "action_")):
            raise AttributeError(f"{type(self).__name__!r} object has no attribute {name!r}")
        if "_queue" not in self.__dict__ or not self.__dict__.get("_running"):
            raise AttributeError(name)
        if name in KNOWN:
            gap(f"{type(self).__name__}.{name}")
        raise AttributeError(f"{type(self).__name__!r} object has no attribute {name!r}")


ABSENT = set()
KNOWN = set("""mount mount_all remove recompose refresh scroll_visible focus blur loading styles size region content_size begin_capture_print
push_screen pop_screen switch_screen exit suspend call_from_thread copy_to_clipboard clipboard workers screen title sub_title theme dark animate
selection cursor_location document history undo redo insert delete replace selected_text select_all move_cursor get_text_range line_count wrapped_document
children walk_children ancestors sort_children batch_update run_action simulate_key simulate_press border_title border_subtitle can_focus has_focus is_attached
cursor_node cursor_line select_node hover_line root_node get_node_by_id max_lines min_width auto_scroll lines save_screenshot panic fatal_error post_display_hook""".split())


def settle(r):
    """The result of a handler, a coroutine included, as long as it waits for nothing outside the model."""
    if inspect.iscoroutine(r):
        try:
            for _ in range(1000):
                if r.send(None) is not None:
                    r.close()
                    gap("handler that awaits something outside the model")
        except StopIteration:
            return
        gap("handler that never finishes")
    if inspect.isawaitable(r):
        for _ in r.__await__():
            pass


class Timer:
    def __init__(self, pump, delay, callback, interval, pause, repeat=0):
        self.pump, self.callback, self.interval, self.repeat = pump, callback, interval, repeat
        self.delay = delay
        self.paused = pause
        SIM.seq += 1
        self.seq = SIM.seq
        self.due = SIM.now + delay
        self.count = 0
        SIM.timers.append(self)

    def stop(self):
        if self in SIM.timers:
            SIM.timers.remove(self)

    def pause(self):
        self.paused = True

    def resume(self):
        self.paused = False

    def reset(self):
        self.due = SIM.now + self.delay
        if self not in SIM.timers:
            SIM.timers.append(self)

    def fire(self):
        SIM.now = max(SIM.now, self.due)
        self.count += 1
        if self.interval is None or (self.repeat and self.count > self.repeat):
            self.stop()
        else:
            self.due += self.interval
        if self.callback is not None:
            cb = self.callback
            # as in the library, the callback is skipped when the timer was stopped before it is handled
            self.pump._queue.append(Callback(cb))


# ------------------------------------------------------------------ widgets
class AwaitDone:
    def __await__(self):
        return iter(())


class DOMNode(MessagePump):
    def __init__(self, *children, name=None, id=None, classes=None, disabled=False, markup=True, expand=False, shrink=False):
        super().__init__()
        self.name = name
        if id is not None and not re.fullmatch(r"[a-zA-Z_\-][a-zA-Z0-9_\-]*", id):
            raise ValueError(f"bad id {id!r}")
        self.id = id
        self._classes = set((classes or "").split())
        self._nodes = list(children)
        self.disabled = disabled
        self._tooltip = None
        if SIM.compose:
            SIM.compose[-1].append(self)
            for c in children:
                if c in SIM.compose[-1]:
                    SIM.compose[-1].remove(c)

    # composition
    def compose(self):
        return iter(())

    def __enter__(self):
        SIM.compose.append([])
        return self

    def __exit__(self, *e):
        self._nodes += SIM.compose.pop()
        return False

    def _build(self):
        if not self.__dict__.get("_composed"):
            self._composed = True
            SIM.compose.append([])
            try:
                got = []
                for w in self.compose():
                    got.append(w)
                stack = SIM.compose[-1]
            finally:
                SIM.compose.pop()
            # a widget yielded or created inside a `with` block of its parent belongs to that parent
            inner = set()
            for w in stack + got:
                inner |= {id(x) for x in w._nodes}
            for w in stack + got:
                if id(w) not in inner and w not in self._nodes:
                    self._nodes.append(w)
        for c in self._nodes:
            c._parent = self
            c._build()

    def _start(self):
        SIM.pumps.append(self)
        self._running = True
        for c in self._nodes:
            c._start()

    def _walk(self):
        for c in self._nodes:
            yield c
            yield from c._walk()

    @property
    def children(self):
        return list(self._nodes)

    # classes
    @property
    def classes(self):
        return frozenset(self._classes)

    @classes.setter
    def classes(self, v):
        self._classes = set(v.split() if isinstance(v, str) else v)

    def has_class(self, *names):
        return set(names) <= self._classes

    def add_class(self, *names, update=True):
        self._classes |= set(names)
        return self

    def remove_class(self, *names, update=True):
        self._classes -= set(names)
        return self

    def toggle_class(self, *names):
        self._classes ^= set(names)
        return self

    def set_class(self, add, *names, update=True):
        return self.add_class(*names) if add else self.remove_class(*names)

    def set_classes(self, v):
        self.classes = v
        return self

    def set_reactive(self, r, value):
        self.__dict__.setdefault("_reactive", {})[r.name] = value

    def mutate_reactive(self, r):
        pass

    def refresh(self, *a, **k):
        return self

    def focus(self, *a, **k):
        return self

    def blur(self):
        return self

    # queries
    def query(self, selector=None):
        return DOMQuery([w for w in self._walk() if selector is None or matches(w, selector)])

    def query_one(self, selector, expect_type=None):
        for w in self._walk():
            if matches(w, selector):
                if expect_type is not None and not isinstance(w, expect_type):
                    raise WrongType(f"{w!r} is not a {expect_type.__name__}")
                return w
        raise NoMatches(f"No nodes match {selector!r} on {self!r}")

    def query_exactly_one(self, selector, expect_type=None):
        got = [w for w in self._walk() if matches(w, selector)]
        if not got:
            raise NoMatches(f"No nodes match {selector!r} on {self!r}")
        if len(got) > 1:
            raise TooManyMatches("Call to query_one resulted in more than one matched node")
        if expect_type is not None and not isinstance(got[0], expect_type):
            raise WrongType(f"{got[0]!r} is not a {expect_type.__name__}")
        return got[0]

    def get_widget_by_id(self, id, expect_type=None):
        return self.query_one("#" + id, expect_type)

    get_child_by_id = get_widget_by_id

    @property
    def tooltip(self):
        return self._tooltip

    @tooltip.setter
    def tooltip(self, v):
        self._tooltip = v

    visible = display = True

    def __repr__(self):
        return f"{type(self).__name__}(id={self.__dict__.get('id')!r})"

    __hash__ = object.__hash__


class QueryError(Exception):
    pass


class NoMatches(QueryError):
    pass


class TooManyMatches(QueryError):
    pass


class WrongType(QueryError):
    pass


class InvalidQueryFormat(QueryError):
    pass


def matches(w, selector):
    if isinstance(selector, type):
        return isinstance(w, selector)
    for alt in str(selector).split(","):
        chain = [p for p in alt.replace(">", " > ").split() if p]
        if chain and match_chain(w, chain):
            return True
    return False


def match_chain(w, chain):
    if not match_one(w, chain[-1]):
        return False
    rest = chain[:-1]
    if not rest:
        return True
    direct = rest[-1] == ">"
    if direct:
        rest = rest[:-1]
    p = w._parent
    while p is not None:
        if match_chain(p, rest):
            return True
        if direct:
            return False
        p = p._parent
    return False


def match_one(w, s):
    m = re.fullmatch(r"(\*|[A-Za-z_]\w*)?((?:[#.][\w\-]+)*)", s)
    if not m:
        raise InvalidQueryFormat(s)
    t, rest = m.groups()
    if t and t != "*" and t not in [c.__name__ for c in type(w).__mro__]:
        return False
    for k, n in re.findall(r"([#.])([\w\-]+)", rest):
        if (k == "#" and w.id != n) or (k == "." and n not in w._classes):
            return False
    return True


class DOMQuery(list):
    def first(self, t=None):
        if not self:
            raise NoMatches("No nodes match")
        return self[0]

    def last(self, t=None):
        if not self:
            raise NoMatches("No nodes match")
        return self[-1]

    def only_one(self, t=None):
        if len(self) != 1:
            raise (TooManyMatches if self else NoMatches)("not exactly one")
        return self[0]

    def results(self, t=None):
        return iter(w for w in self if t is None or isinstance(w, t))

    def filter(self, sel):
        return DOMQuery(w for w in self if matches(w, sel))

    def exclude(self, sel):
        return DOMQuery(w for w in self if not matches(w, sel))

    def add_class(self, *n):
        for w in self:
            w.add_class(*n)
        return self

    def remove_class(self, *n):
        for w in self:
            w.remove_class(*n)
        return self

    def set_class(self, add, *n):
        for w in self:
            w.set_class(add, *n)
        return self

    def toggle_class(self, *n):
        for w in self:
            w.toggle_class(*n)
        return self

    __hash__ = object.__hash__


class Widget(DOMNode):
    BINDINGS = []
    DEFAULT_CSS = ""
    can_focus = False


class App(DOMNode):
    CSS_PATH = None
    CSS = ""
    BINDINGS = []
    TITLE = None
    _exit = False

    def __class_getitem__(cls, item):
        return cls

    def __init__(self, driver_class=None, css_path=None, watch_css=False, ansi_color=False):
        super().__init__()
        SIM.app = self

    def run(self, *a, **k):
        gap("App.run")

    def exit(self, *a, **k):
        self._exit = True

    def copy_to_clipboard(self, text):
        gap("copy_to_clipboard")

    @contextlib.contextmanager
    def batch_update(self):
        yield

    def _press(self, key):
        """A key with a binding: its action is looked up as the library does."""
        for cls in type(self).__mro__:
            for b in cls.__dict__.get("BINDINGS", ()):
                k, action = (b[0], b[1]) if isinstance(b, tuple) else (b.key, b.action)
                if key in [x.strip() for x in k.split(",")]:
                    self._queue.append(Callback(lambda: self._run_action(action)))
                    return True
        return False

    def _run_action(self, action):
        m = re.fullmatch(r"(?:app\.)?(\w+)(?:\((.*)\))?", action)
        if not m:
            gap(f"action {action!r}")
        import ast
        args = ast.literal_eval(f"({m.group(2)},)") if m.group(2) else ()
        fn = getattr(self, "action_" + m.group(1), None) or getattr(self, "_action_" + m.group(1), None)
        if fn is not None:
            settle(fn(*args))


_reset = Sim.reset


def reset(self):
    _reset(self)
    self.prevented = []
    self.watchers = []


Sim.reset = reset
SIM.reset()


# ------------------------------------------------------------------ driving the application
def start(app):
    app._build()
    app._start()
    for p in list(SIM.pumps):
        for cls in (type(p),):
            p._queue.append(Mount())
    return app


class Mount(Event):
    pass


class Ready(Event):
    pass


class Key(Event):
    bubble = True


def busy():
    return [p for p in SIM.pumps if p._queue]


def step(pick):
    """Lets one seeded task handle its next message, or the next timer fire; False when nothing is left to do."""
    ready = busy()
    due = sorted([t for t in SIM.timers if not t.paused and t.interval is None], key=lambda t: (t.due, t.seq))
    n = len(ready) + (1 if due else 0)
    if not n:
        return False
    i = pick(n)
    if i < len(ready):
        ready[i]._handle_next()
    else:
        due[0].fire()
    return True
