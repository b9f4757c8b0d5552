"""A stand-in for a CUDA device: tensors whose operations wait in streams until somebody needs them.

Streams are queues run in order; between streams only events order anything.
A stream runs when the schedule says so, or when a thread synchronises with it,
and then only as far as needed: the slowest device there can be.
"""
import threading

import torch

LOCK = threading.RLock()
CURRENT = threading.local()
GARBAGE = -77777
PATIENCE = None         # called by a thread about to wait for the device


class Stuck(RuntimeError):
    pass


class Event:
    def __init__(self, *args, **kwargs):
        self.ticket = None

    def record(self, stream=None):
        (stream or current_stream()).enqueue(self.mark())

    def mark(self):
        with LOCK:
            ticket = self.ticket = dict(done=False, stream=None)
        return ("record", ticket)

    def wait(self, stream=None):
        (stream or current_stream()).wait_event(self)

    def query(self):
        return self.ticket is None or self.ticket["done"]

    def synchronize(self):
        if self.ticket is not None and not self.ticket["done"]:
            if PATIENCE:
                PATIENCE()
            drive(self.ticket)


def drive(ticket, deep=0):
    """Run the stream a record is in until it is passed."""
    while not ticket["done"]:
        with LOCK:
            if ticket["done"]:
                return
            if deep > 50 or ticket["stream"] is None:
                raise Stuck("streams wait for each other")
            ticket["stream"].step(deep)


class Stream:
    def __init__(self, device=None, priority=0, **kwargs):
        self.queue = []
        self.device = torch.device("cuda", 0)

    def enqueue(self, op):
        with LOCK:
            if op[0] == "record":
                op[1]["stream"] = self
            self.queue.append(op)

    def stuck(self):
        return not self.queue or (self.queue[0][0] == "wait" and not self.queue[0][1]["done"])

    def step(self, deep=0):
        """One operation; a wait makes the other stream run first."""
        with LOCK:
            if not self.queue:
                raise Stuck("nothing to run")
            kind, what = self.queue[0]
            if kind == "wait" and not what["done"]:
                drive(what, deep + 1)
                return
            self.queue.pop(0)
            if kind == "record":
                what["done"] = True
            elif kind == "do":
                what()

    def run(self):
        """As far as it can on its own."""
        with LOCK:
            while not self.stuck():
                self.step()

    def wait_event(self, event):
        if event.ticket is not None:
            self.enqueue(("wait", event.ticket))

    def wait_stream(self, other):
        event = Event()
        event.record(other)
        self.wait_event(event)

    def record_event(self, event=None):
        event = event or Event()
        event.record(self)
        return event

    def synchronize(self):
        if self.queue and PATIENCE:
            PATIENCE()
        with LOCK:
            while self.queue:
                self.step()

    def query(self):
        return not self.queue


DEFAULT = Stream()


def reset():
    with LOCK:
        DEFAULT.queue = []
    CURRENT.__dict__.clear()


def current_stream(device=None):
    return getattr(CURRENT, "stream", DEFAULT)


class stream:
    def __init__(self, which):
        self.which = which

    def __enter__(self):
        self.before = current_stream()
        if self.which is not None:
            CURRENT.stream = self.which

    def __exit__(self, *exc):
        CURRENT.stream = self.before


class StreamContext(stream):
    pass


def install():
    """Put the stand-ins in place of torch.cuda's streams."""
    for name, what in dict(Stream=Stream, Event=Event, stream=stream, StreamContext=StreamContext, current_stream=current_stream,
                           default_stream=lambda device=None: DEFAULT, synchronize=lambda device=None: current_stream().synchronize(),
                           set_stream=lambda s: setattr(CURRENT, "stream", s)).items():
        setattr(torch.cuda, name, what)


def raw(x):
    return x.as_subclass(torch.Tensor) if isinstance(x, Dev) else x


def plain(x):
    if isinstance(x, (list, tuple)):
        return type(x)(plain(v) for v in x)
    return raw(x)


class Dev(torch.Tensor):
    """A tensor on the stand-in device; the bytes are on the host, the operations in a stream."""
    allowed = None      # clones left before memory runs out

    @staticmethod
    def make(value):
        return torch.Tensor._make_subclass(Dev, value.clone())

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        name = getattr(func, "__name__", "")
        owner = getattr(func, "__self__", None)
        with torch._C.DisableTorchFunctionSubclass():
            if owner is torch.Tensor.device:
                return torch.device("cuda", 0)
            if owner is torch.Tensor.is_cuda:
                return True
            if owner is torch.Tensor.is_cpu:
                return False
            if name == "__get__" or name in ("dim", "size", "numel", "stride", "element_size", "is_floating_point", "is_contiguous", "data_ptr",
                                             "storage_offset", "__len__", "record_stream", "nelement", "untyped_storage", "__hash__", "is_complex",
                                             "type", "get_device", "is_set_to", "requires_grad_"):
                if name == "get_device":
                    return 0
                if name == "record_stream":
                    return None
                out = func(*plain(args), **kwargs)
                return Dev.alias(out) if isinstance(out, torch.Tensor) else out
            if name in ("detach", "view_as", "alias"):
                return Dev.alias(func(*plain(args), **kwargs))
            if name == "copy_":
                return cls.copying(args[0], args[1])
            if name in ("empty_like", "zeros_like", "new_empty", "full_like"):
                cls.room()
                like = raw(args[0])
                if name == "new_empty":
                    like = like.new_empty(args[1])
                out = torch.full_like(like, GARBAGE)
                if name in ("zeros_like", "full_like"):
                    fill = 0 if name == "zeros_like" else args[1]
                    current_stream().enqueue(("do", lambda: out.fill_(fill)))
                return out if str(kwargs.get("device", "cuda")).startswith("cpu") else Dev.alias(out)
            if name in ("clone", "contiguous", "to", "cpu", "cuda"):
                rest = [a for a in args[1:]] + list(kwargs.values())
                host = name == "cpu" or any(str(a).startswith("cpu") for a in rest if isinstance(a, (str, torch.device)))
                source = raw(args[0])
                if name == "contiguous" or (name in ("to", "cuda") and not host and kwargs.get("copy") is not True):
                    return args[0]
                if not host:
                    cls.room()
                out = torch.full_like(source, GARBAGE)
                where = current_stream()
                where.enqueue(("do", lambda: out.copy_(source)))
                if host and not kwargs.get("non_blocking", False):
                    where.synchronize()
                return out if host else Dev.alias(out)
            if name in ("fill_", "zero_", "add_", "mul_", "sub_"):
                target, rest = raw(args[0]), plain(list(args[1:]))
                current_stream().enqueue(("do", lambda: func(target, *rest)))
                return args[0]
            # anything else needs the values: wait for the stream
            current_stream().synchronize()
            return func(*plain(list(args)), **{k: plain(v) for k, v in kwargs.items() if k not in ("device", "non_blocking")})

    @classmethod
    def room(cls):
        if cls.allowed is not None:
            if cls.allowed <= 0:
                cls.allowed = None
                raise torch.cuda.OutOfMemoryError("stand-in device is full")
            cls.allowed -= 1

    @staticmethod
    def alias(value):
        return torch.Tensor._make_subclass(Dev, value)

    @classmethod
    def copying(cls, target, source):
        a, b = raw(target), raw(source)
        if not isinstance(source, Dev) and isinstance(target, Dev):
            b = b.clone()
        current_stream().enqueue(("do", lambda: a.copy_(b)))
        if not isinstance(target, Dev):
            current_stream().synchronize()
        return target


def read(x):
    """What a serialiser sees: the stream of this thread is waited for."""
    if isinstance(x, Dev):
        current_stream().synchronize()
        with torch._C.DisableTorchFunctionSubclass():
            return raw(x).clone()
    return x
