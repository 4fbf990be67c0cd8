class Logger:
    def _log(self, *a, **k):
        pass
    debug = info = warn = warning = error = fatal = _log


def get_logger(name):
    return Logger()
