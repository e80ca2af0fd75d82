class Violation(Exception):
    """The property under check does not hold.  cls is the violation class that
    minimisation must preserve."""

    def __init__(self, cls, message):
        Exception.__init__(self, '%s: %s' % (cls, message))
        self.cls = cls
        self.message = message


class HarnessError(Exception):
    """The simulator itself failed: never a verdict about the property."""


class SimKill(SystemExit):
    """Unwinds a simulated thread whose process died (SystemExit: asyncore and
    threading let it through)."""


class Livelock(SystemExit):
    """Code under test spins for ever without the simulated world moving."""


class Injected(Exception):
    """Carries an exception a simulated user raises on purpose inside a callback."""

    def __init__(self, exc):
        Exception.__init__(self, 'injected')
        self.exc = exc


def blame(e, what=''):
    """An exception came out of a call the harness made: the code under test raised
    it (a Violation) or the harness itself is broken (a HarnessError)."""
    import os
    import traceback
    if isinstance(e, (Violation, HarnessError)):
        return e
    repo = os.path.realpath(os.environ.get('DST_REPO', '/repo')) + '/nbc/'
    tb = e.__traceback__
    inside = False
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(repo):
            inside = True
        tb = tb.tb_next
    text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    if inside:
        return Violation('call-raised', '%s%s: %s\n%s' % (what, type(e).__name__, e, text[-1500:]))
    return HarnessError('%s%s' % (what, text))
