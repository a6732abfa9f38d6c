"""What a sequence of stream operations writes, in a form that does not depend on how the operations are split."""
from interp import truth, eq, add, sub
import models

class Unknown(Exception):
    """a piece whose text cannot be told"""

def render(pieces, width=0, fill=None):
    """list of bytes | ('d', term, width, fill) decimal number | ('t', text term, width, fill); adjacent literal text is merged"""
    out = []
    st = {'w': width, 'f': fill, 'base': 'dec'}
    def put(x):
        if isinstance(x, bytes):
            if not x:
                return
            if out and isinstance(out[-1], bytes):
                out[-1] += x
            else:
                out.append(x)
        else:
            out.append(x)
    def text(t):
        w = st['w']
        st['w'] = 0
        if isinstance(w, int) and w <= 1 and t[0] == 'cat':
            for p in t[1]:
                text(p)
            return
        if t[0] == 'sl':
            if isinstance(w, int) and w <= len(t[1]):
                put(t[1])
            else:
                put(('t', t, w, st['f']))
        elif t[0] == 'fmt' and isinstance(w, int) and w <= 1:
            for x in render(t[1], 0, 32):
                put(x)
        else:
            put(('t', t, w if not isinstance(w, int) or w > 0 else 0, st['f'] if w else None))
    for p in pieces:
        k = p[0]
        if k == 's':
            text(p[1])
        elif k in ('i', 'u'):
            w = st['w']
            st['w'] = 0
            if isinstance(w, int) and w <= 1:
                w = 0
            if st['base'] != 'dec':
                raise Unknown('a number in base %s' % st['base'])
            if isinstance(p[1], int) and w == 0:
                put(str(p[1]).encode())
            else:
                put(('d', p[1], w, st['f'] if w else None))
        elif k == 'm' and p[1] == 'setw':
            st['w'] = p[2]
        elif k == 'm' and p[1] == 'setfill':
            st['f'] = p[2]
        elif k == 'm' and p[1] in ('hex', 'oct'):
            st['base'] = p[1]
        elif k == 'm' and p[1] in ('dec', 'right', 'flush'):
            st['base'] = 'dec'
        elif k == 'm' and p[1] in ('endl',):
            put(b'\n')
        elif k == 'to_string f':
            put(p)
        else:
            raise Unknown(str(p)[:80])
    return out
