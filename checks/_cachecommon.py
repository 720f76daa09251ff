STUBS = [
    "os, open, pathlib, shutil, tempfile: the real standard-library pathlib/posixpath source over an in-memory POSIX file system "
    "with links, modes of inode kind, descriptors, flock, fsync and crash/fault hooks before every mutating operation",
    "hashlib: collision-free digests of (possibly symbolic) data", "json: the same text for concrete data, an injective text for "
    "symbolic data", "pynini.Fst: a graph is its serialized bytes", "time, uuid, platform, fcntl: harness-controlled",
]
