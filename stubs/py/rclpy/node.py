from vrosworld import W
from .logging import Logger
from .task import Future


class Client:
    def __init__(self, typ, name):
        self.srv_type, self.srv_name = typ, name

    def service_is_ready(self):
        return W.ready(self.srv_name)

    def wait_for_service(self, timeout_sec=None):
        end = None if timeout_sec is None or timeout_sec < 0 else W.now + timeout_sec
        while not W.ready(self.srv_name):
            if end is not None and W.now >= end:
                return False
            W.advance(0.25 if end is None else min(0.25, end - W.now))
        return True

    def call_async(self, request):
        if not isinstance(request, self.srv_type.Request):
            raise TypeError("request of type %s" % type(request))
        ready = W.ready(self.srv_name)
        W.log("request", service=W.resolve(self.srv_name), action=request.action, filename=request.filename, ready=ready)
        f = Future(self.srv_type.Response(), W.now + W.cfg["reply_after"] if ready else None)
        W.pending.append(f)
        return f

    def call(self, request, timeout_sec=None):
        f = self.call_async(request)
        while not f.done():
            W.step(0.5)
        return f.result()

    def remove_pending_request(self, f):
        if f in W.pending:
            W.pending.remove(f)

    def destroy(self):
        pass


class Node:
    def __init__(self, node_name, **kw):
        if not W.inited:
            raise RuntimeError("rclpy was not initialized")
        self._name = node_name

    def get_logger(self):
        return Logger()

    def get_name(self):
        return self._name

    def create_client(self, srv_type, srv_name, **kw):
        return Client(srv_type, srv_name)

    def destroy_client(self, c):
        return True

    def destroy_node(self):
        W.log("destroy_node")
