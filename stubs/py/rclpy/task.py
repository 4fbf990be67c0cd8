from vrosworld import W


class Future:
    def __init__(self, result, at):
        self._done, self._result, self._at, self._cbs = False, result, at, []

    def _finish(self):
        self._done = True
        W.log("reply_arrived")
        for c in self._cbs:
            c(self)

    def done(self):
        return self._done

    def result(self):
        return self._result if self._done else None

    def exception(self):
        return None

    def cancelled(self):
        return False

    def add_done_callback(self, c):
        if self._done:
            c(self)
        else:
            self._cbs.append(c)
