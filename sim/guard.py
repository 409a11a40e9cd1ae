"""A limit in processor time: a run that loops forever inside one call is a finding, not a stuck check."""
import signal


class Stuck(BaseException):
    pass


class cpu_limit:
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def hit(_s, _f):
            raise Stuck("more than %d s of processor time in one run" % self.seconds)
        self.old = signal.signal(signal.SIGVTALRM, hit)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)
        return self

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)
        return False
