"""rep.py FILE < json [[old,new],...]  -- exact replacement keeping CRLF (development helper)"""
import sys
def rep(path, pairs):
    s = open(path, newline="").read()
    crlf = "\r\n" in s
    for old, new in pairs:
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (s.count(old), old)
        s = s.replace(old, new)
    open(path, "w", newline="").write(s)
