from vrosworld import W
from . import node, logging  # noqa
from .node import Node
from .task import Future  # noqa


def init(args=None, **kw):
    W.inited = True


def ok(**kw):
    return W.inited


def shutdown(**kw):
    W.inited = False
    W.log("shutdown")


def try_shutdown(**kw):
    shutdown()


def create_node(name, **kw):
    return Node(name)


def spin_once(node, *, executor=None, timeout_sec=None):
    W.step(1.0 if timeout_sec is None else timeout_sec)


def spin_until_future_complete(node, future, executor=None, timeout_sec=None):
    end = None if timeout_sec is None or timeout_sec < 0 else W.now + timeout_sec
    while not future.done():
        if end is not None and W.now >= end:
            return
        W.step(0.5 if end is None else min(0.5, end - W.now))


def spin(node, executor=None):
    raise RuntimeError("spins forever")
