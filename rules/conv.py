"""Obligations about conversions: what a path received, reconstructed from its path condition, against what it returns."""
from .lib import *


def received(o, v, depth=6):
    """the value as far as the path's own case distinctions determine it"""
    v = collapse(v)
    if depth and v[0] == 'sym':
        f = o.st.facts.get(v[1])
        if f is not None and f[0] == 'adt':
            return ('adt', f[1], f[2], tuple(received(o, x, depth - 1) for x in f[3]))
    if v[0] == 'adt':
        return ('adt', v[1], v[2], tuple(received(o, x, depth - 1) for x in v[3]))
    return v


def equal(o, a, b):
    """a and b denote the same value on this path"""
    a, b = collapse(a), collapse(b)
    if same(a, b):
        return True
    ra, rb = received(o, a), received(o, b)
    if ra[0] == 'adt' and rb[0] == 'adt':
        return ra[1:3] == rb[1:3] and len(ra[3]) == len(rb[3]) and all(equal(o, x, y) for x, y in zip(ra[3], rb[3]))
    return same(ra, rb)


def kind(o, F, v):
    """variant name of the value on this path, '?' when the path does not distinguish"""
    r = received(o, v)
    if r[0] != 'adt':
        return '?'
    n = F.variant(r[1], r[2])
    if r[1] == SE and n == 'Timeout':
        x = received(o, r[3][0])
        if x[0] == 'adt':
            n += '(Some)' if x[2] == 1 else '(None)'
    return n


def payload(o, F, v):
    """the message or error carried by a SendError/RemoteSendError, or None"""
    r = received(o, v)
    if r[0] != 'adt' or not r[3]:
        return None
    p = r[3][0]
    if r[1] == SE and F.variant(r[1], r[2]) == 'Timeout':
        p = received(o, p)
        return p[3][0] if p[0] == 'adt' and p[2] == 1 else None
    return p


ALL_SE = {'ActorNotRunning', 'ActorStopped', 'MailboxFull', 'HandlerError', 'Timeout(Some)', 'Timeout(None)'}
MSG_SE = {'ActorNotRunning', 'MailboxFull', 'Timeout(Some)'}
