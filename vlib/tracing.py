"""Helpers shared by the drivers."""
import io, os, contextlib, logging, random, sys, traceback


def quiet():
    logging.disable(logging.CRITICAL)


@contextlib.contextmanager
def silence():
    """Swallows what the code under test prints."""
    with contextlib.redirect_stdout(io.StringIO()), \
         contextlib.redirect_stderr(io.StringIO()):
        yield


def rng(chk, salt):
    return random.Random('%d/%s' % (chk.seed, salt))


def error_event(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = '%s:%s' % (os.path.basename(tb[-1].filename), tb[-1].name) if tb else ''
    return dict(a='error', what='%s: %s' % (type(exc).__name__, str(exc)[:200]),
                where=where)
