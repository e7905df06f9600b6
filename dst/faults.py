"""Fault plans drawn against the operation counts of an undisturbed execution."""
import errno

from .simlib import A, K

WRITE_SIDE = ["WRITE", "OPEN_W", "MKDIR", "CLOSE_W", "RENAME", "FSYNC", "UNLINK"]
READ_SIDE = ["OPEN_R", "READ", "OPENDIR"]
ERR = {
    "WRITE": [errno.ENOSPC, errno.EIO, errno.EDQUOT],
    "OPEN_W": [errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.EROFS],
    "MKDIR": [errno.EACCES, errno.ENOSPC, errno.EROFS],
    "CLOSE_W": [errno.EIO, errno.ENOSPC],
    "RENAME": [errno.EIO, errno.ENOSPC, errno.EACCES],
    "FSYNC": [errno.EIO],
    "UNLINK": [errno.EIO, errno.EACCES],
    "OPEN_R": [errno.EACCES, errno.EMFILE, errno.EIO, errno.ENOENT, errno.ESTALE],
    "READ": [errno.EIO, errno.ESTALE],
    "OPENDIR": [errno.EACCES, errno.EMFILE, errno.EIO],
}


def kinds_present(kcount, kinds):
    return [k for k in kinds if kcount[K[k]]]


def one(f, kcount, kinds, soft=False):
    """one failing operation [(kind, nth, act, arg)...] or []"""
    present = kinds_present(kcount, kinds)
    if not present:
        return []
    k = f.pick(present)
    n = kcount[K[k]]
    nth = f.draw(n + 1)          # one past the end: does not fire
    if k == "WRITE" and soft and f.chance(1, 3):
        return [(K[k], nth, A["SHORT"] if f.chance(1, 2) else A["EINTR"], 1 + f.draw(40))]
    if k == "READ" and soft and f.chance(1, 3):
        return [(K[k], nth, A["SHORTREAD"] if f.chance(1, 2) else A["EINTR"], 1 + f.draw(40))]
    e = f.pick(ERR[k])
    if f.chance(1, 4) and k in ("WRITE", "OPEN_W", "MKDIR"):      # a disk that stays full / a directory that stays closed
        return [(K[k], i, A["ERRNO"], e) for i in range(nth, min(n + 4, nth + 16))]
    return [(K[k], nth, A["ERRNO"], e)]


def crash(f, kcount, kinds=("WRITE", "OPEN_W", "MKDIR", "CLOSE_W", "RENAME", "UNLINK", "FSYNC", "LINE", "READ", "OPEN_R"), lines=0):
    """one kill point"""
    present = [k for k in kinds if kcount[K[k]]]
    if not present:
        return []
    # writes matter most, then lines
    pool = []
    for k in present:
        pool += [k] * (4 if k in ("WRITE", "OPEN_W", "RENAME", "CLOSE_W") else 3 if k == "LINE" else 1)
    k = f.pick(pool)
    nth = f.draw(kcount[K[k]])
    if k == "WRITE" and f.chance(1, 3):
        return [(K[k], nth, A["TORN"], f.draw(200))]
    return [(K[k], nth, A["CRASH_AFTER"] if f.chance(1, 3) and k != "LINE" else A["CRASH_BEFORE"], 0)]


def power_loss(f, log, root, top, before):
    """After a kill: of the files written below `top` since `before` (a snapshot), the last writes may be lost.
    Returns a description of what was lost."""
    import os
    lost = []
    seen = []
    for kind, act, who, no, path in log:
        if kind in ("OPEN_W", "RENAME") and path not in seen:
            seen.append(path)
    for path in seen:
        p = os.path.join(root, path)
        rel = os.path.relpath(p, top)
        if rel.startswith("..") or not os.path.isfile(p) or os.path.islink(p):
            continue
        n = os.path.getsize(p)
        how = f.pick(["kept", "kept", "cut", "zeros", "old"])
        if how == "kept" or (n == 0 and how != "old"):
            continue
        if how == "cut":
            os.truncate(p, f.draw(n))
        elif how == "zeros":
            k = f.draw(n)
            with open(p, "r+b") as h:
                h.seek(k)
                h.write(bytes(n - k))
        else:
            old = before.get(rel)
            if old is None:
                os.unlink(p)
            else:
                with open(p, "wb") as h:
                    h.write(old)
        lost.append("%s %s" % (how, rel))
    return lost
