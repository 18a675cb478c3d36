"""Simulated disk: the LD_PRELOAD shim's control surface, and crash images from its log."""

import ctypes
import os
import struct

OPS = ("any", "open", "write", "fsync", "rename", "unlink", "trunc", "close", "read", "link",
       "mkdir")
ACTIONS = {"errno": 1, "short": 2, "sticky": 3}
ERRNO = {"ENOSPC": 28, "EIO": 5, "EINTR": 4, "EACCES": 13, "EMFILE": 24, "EROFS": 30,
         "EDQUOT": 122}

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["DST_SHIM"])
        _lib.dst_reset.argtypes = [ctypes.c_char_p]
        _lib.dst_fault.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_long]
        _lib.dst_log.restype = ctypes.c_void_p
        _lib.dst_log_len.restype = ctypes.c_long
        _lib.dst_fired.restype = ctypes.c_long
        _lib.dst_count.restype = ctypes.c_long
    return _lib


class Disk:
    """All file operations below ``root`` while the context is entered."""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.faults = []

    def __enter__(self):
        os.makedirs(self.root, exist_ok=True)
        lib().dst_reset(self.root.encode())
        lib().dst_enable(1)
        return self

    def __exit__(self, *_):
        lib().dst_enable(0)
        return False

    def plan(self, faults):
        """faults: [op name, n-th occurrence from now, action, argument]"""
        lib().dst_clear_faults()
        self.faults = list(faults)
        for op, nth, action, arg in faults:
            o = OPS.index(op)
            a = ERRNO[arg] if isinstance(arg, str) else int(arg)
            lib().dst_fault(o, lib().dst_count(o) + int(nth), ACTIONS[action], a)

    def fired(self):
        return [f for i, f in enumerate(self.faults) if lib().dst_fired(i) > 0]

    def clear(self):
        lib().dst_clear_faults()
        self.faults = []

    def mark(self):
        return lib().dst_log_len()

    def log(self, start=0):
        n = lib().dst_log_len()
        raw = ctypes.string_at(lib().dst_log(), n) if n else b""
        out = []
        pos = 0
        hdr = struct.Struct("<iiiiqqqii")
        while pos < n:
            begin = pos
            op, ret, err, flags, ino, off, ln, p1, p2 = hdr.unpack_from(raw, pos)
            pos += hdr.size
            a = raw[pos:pos + p1].decode()
            pos += p1
            b = raw[pos:pos + p2].decode()
            pos += p2
            data = b""
            if OPS[op] == "write" and ln > 0:
                data = raw[pos:pos + ln]
                pos += ln
            if begin >= start:
                out.append({"op": OPS[op], "ret": ret, "err": err, "flags": flags, "ino": ino,
                            "off": off, "len": ln, "p": a, "q": b, "data": data})
        return out


class Inode:
    __slots__ = ("durable", "live", "pending")

    def __init__(self, data=b""):
        self.durable = bytearray(data)  # survives power loss for sure
        self.live = bytearray(data)     # what the kernel would return now
        self.pending = []               # operations since the last sync


def _apply(buf, w):
    if w[0] == "trunc":
        n = w[1]
        if n < len(buf):
            del buf[n:]
        else:
            buf.extend(b"\0" * (n - len(buf)))
    else:
        off, data = w[1], w[2]
        if off > len(buf):
            buf.extend(b"\0" * (off - len(buf)))
        buf[off:off + len(data)] = data


def mutations(log):
    """Operations that change the disk: the possible crash points lie before/after each."""
    return [r for r in log if r["ret"] >= 0 and (
        r["op"] in ("write", "rename", "unlink", "trunc", "fsync", "link")
        or (r["op"] == "open" and (r["flags"] & 3) and (r["flags"] & 4)))]


def crash_image(initial, ops, k, mode, torn, rng):
    """Files that survive a crash after the first ``k`` mutations of ``ops``.

    initial: {path: bytes} durable before.  mode 'process': the kernel survives, every completed
    operation is visible; the k-th write may have been torn after ``torn`` bytes.  mode 'power':
    names change in order (journal) but possibly only up to an earlier point unless a sync came
    later; data written after the last sync of its file may be lost, partially kept or zeroed.
    """
    byino = {}
    names = {p: Inode(d) for p, d in initial.items()}
    snapshots = [dict(names)]  # name table after each metadata operation
    must = 0                   # metadata operations known durable (a sync flushed the journal)
    n = 0

    def inode_of(r, path=None):
        ino = r["ino"]
        if ino not in byino:
            byino[ino] = names.get(path) if path in names else Inode()
        return byino[ino]

    for i, r in enumerate(ops[: k + 1]):
        last_torn = i == k
        if last_torn and (r["op"] != "write" or not torn):
            break
        if r["op"] == "open":
            if (r["flags"] & 1) or r["p"] not in names:
                node = Inode()
                names[r["p"]] = node
                byino[r["ino"]] = node
                snapshots.append(dict(names))
            else:
                byino[r["ino"]] = names[r["p"]]
                if r["flags"] & 2:
                    names[r["p"]].pending.append(("trunc", 0))
                    _apply(names[r["p"]].live, ("trunc", 0))
        elif r["op"] == "write":
            data = r["data"][: max(1, torn % max(2, len(r["data"])))] if last_torn else r["data"]
            node = inode_of(r)
            node.pending.append(("write", r["off"], data))
            _apply(node.live, node.pending[-1])
        elif r["op"] == "trunc":
            node = inode_of(r)
            node.pending.append(("trunc", r["off"]))
            _apply(node.live, node.pending[-1])
        elif r["op"] == "fsync":
            node = inode_of(r)
            node.durable[:] = node.live
            node.pending.clear()
            must = len(snapshots) - 1
        elif r["op"] == "rename":
            node = names.pop(r["p"], None)
            if node is not None:
                names[r["q"]] = node
            snapshots.append(dict(names))
        elif r["op"] == "link":
            if r["p"] in names:
                names[r["q"]] = names[r["p"]]
            snapshots.append(dict(names))
        elif r["op"] == "unlink":
            names.pop(r["p"], None)
            snapshots.append(dict(names))
        n += 1

    if mode == "process":
        return {p: bytes(node.live) for p, node in names.items()}
    table = snapshots[int(rng.integers(must, len(snapshots)))]
    out = {}
    done = {}
    for p in sorted(table):
        node = table[p]
        if id(node) in done:
            out[p] = done[id(node)]
            continue
        buf = bytearray(node.durable)
        if node.pending:
            how = int(rng.integers(4))
            if how == 0:      # nothing after the last sync reached the disk
                pass
            elif how == 1:    # a prefix of the operations did
                for w in node.pending[: int(rng.integers(len(node.pending) + 1))]:
                    _apply(buf, w)
            elif how == 2:    # the size did, the data did not (delayed allocation)
                buf = bytearray(len(node.live))
                buf[: min(len(node.durable), len(buf))] = node.durable[: len(buf)]
            else:             # everything did
                buf = bytearray(node.live)
        out[p] = done[id(node)] = bytes(buf)
    return out


def materialise(image, root, target):
    """Write the surviving files below ``target`` (the restarted machine's disk)."""
    for p, data in image.items():
        rel = os.path.relpath(p, root)
        dst = os.path.join(target, rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst, "wb") as f:
            f.write(data)
