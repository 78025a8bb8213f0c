"""An independent scanner of C text: what is still open at a given point of a file."""


def splice(b):
    """Phase 2 line splicing. Returns the text and for each byte its original offset."""
    out, off = bytearray(), []
    i, n = 0, len(b)
    while i < n:
        if b[i] == 92 and i + 1 < n and b[i + 1] == 10:
            i += 2
            continue
        out.append(b[i])
        off.append(i)
        i += 1
    return bytes(out), off


class State:
    def __init__(self):
        self.open = None          # 'comment', 'string', 'char', 'directive' at the end of the text
        self.conds = 0            # open #if groups
        self.depth = 0            # open ( [ {
        self.last = b''           # last significant byte outside directives, at any depth
        self.confused = False
        self.no_newline = False


def scan(b):
    """State at the end of the bytes b, or with .confused set if the text is not simple enough to judge."""
    st = State()
    if b'??' in b:
        st.confused = True
        return st
    if b.endswith(b'\\\n') or b.endswith(b'\\'):
        st.confused = True
    t, _ = splice(b)
    n = len(t)
    i = 0
    bol = True                    # only white space or comments since the newline
    directive = False
    dtext = bytearray()
    stack = []                    # [depth at #if, depth at the end of the first branch or None, last byte at #if]

    def end_directive():
        nonlocal directive
        w = bytes(dtext).strip()
        directive = False
        if not w.startswith(b'#'):
            return
        w = w[1:].strip()
        k = 0
        while k < len(w) and (w[k:k + 1].isalpha()):
            k += 1
        name = w[:k]
        if name in (b'if', b'ifdef', b'ifndef'):
            stack.append([st.depth, None, st.last])
        elif name in (b'else', b'elif'):
            if stack:
                if stack[-1][1] is not None and stack[-1][1] != st.depth:
                    st.confused = True
                stack[-1][1] = st.depth
                st.depth = stack[-1][0]
            else:
                st.confused = True
        elif name == b'endif':
            if stack:
                d0, d1, last = stack.pop()
                # whether the group's text counts is not known here: do not judge declarations that began before or in it
                st.last = last if last in (b'', b';', b'}') else b';'
                if d1 is not None and d1 != st.depth:
                    st.confused = True
                if d1 is None and d0 != st.depth:
                    st.confused = True
            else:
                st.confused = True

    while i < n:
        c = t[i]
        if c == 10:
            if directive:
                end_directive()
                dtext.clear()
            bol = True
            i += 1
            continue
        if c == 47 and i + 1 < n and t[i + 1] == 42:
            j = t.find(b'*/', i + 2)
            if j < 0:
                st.open = 'comment'
                i = n
                break
            if directive:
                dtext += b' '
            i = j + 2
            continue
        if c == 47 and i + 1 < n and t[i + 1] == 47:
            j = t.find(b'\n', i)
            if j < 0:
                i = n
                st.open = 'line comment'
                break
            i = j
            continue
        if c in (34, 39):
            # In a directive such as #error or #include <...> quotes may be loose.
            j = i + 1
            while j < n and t[j] != c and t[j] != 10:
                j += 2 if t[j] == 92 else 1
            if j >= n:
                st.open = 'string' if c == 34 else 'char'
                i = n
                break
            if t[j] == 10:
                st.confused = True
                i = j
                continue
            if directive:
                dtext += t[i:j + 1]
            else:
                st.last = b'"'
            bol = False
            i = j + 1
            continue
        if c == 35 and bol:
            directive = True
            dtext.clear()
        if directive:
            dtext.append(c)
            bol = False
            i += 1
            continue
        if c in b' \t\r\v\f':
            i += 1
            continue
        bol = False
        if c in b'([{':
            st.depth += 1
        elif c in b')]}':
            st.depth -= 1
        st.last = bytes([c])
        i += 1
    if directive and st.open is None:
        st.open = 'directive'
    st.conds = len(stack)
    st.no_newline = n > 0 and t[-1] != 10
    return st


def safe_line_starts(b):
    """Offsets at which a line begins outside comments, literals and continued lines."""
    out = []
    i, n = 0, len(b)
    start = True
    while i < n:
        if start:
            out.append(i)
            start = False
        c = b[i]
        if c == 10:
            start = i == 0 or b[i - 1] != 92
            i += 1
        elif c == 92:
            i += 2 if i + 1 < n and b[i + 1] != 10 else 1
            if i < n and b[i] == 10 and b[i - 1] == 92:
                i += 1
        elif b[i:i + 2] == b'/*':
            j = b.find(b'*/', i + 2)
            if j < 0:
                return out
            i = j + 2
        elif b[i:i + 2] == b'//':
            j = i
            while True:
                j = b.find(b'\n', j)
                if j < 0:
                    return out
                if b[j - 1] == 92:
                    j += 1
                    continue
                break
            i = j
        elif c in (34, 39):
            j = i + 1
            while j < n and b[j] != c:
                if b[j] == 10:
                    break
                j += 2 if b[j] == 92 else 1
            i = j + 1 if j < n and b[j] == c else j
        else:
            i += 1
    return out
