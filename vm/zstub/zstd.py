"""A stand-in for the optional zstd module: same interface, a frame format of its own.

It lets the checks drive the code path that hands tile data to zstd.decompress, in a
sandbox where no zstd decoder is installed.
"""
import zlib

calls = 0


def decompress(data):
    global calls
    calls += 1
    if not data.startswith(b"ZSTUB"):
        raise ValueError("not a frame")
    return zlib.decompress(data[5:])


def compress(data, level=3):
    return b"ZSTUB" + zlib.compress(data, 1)
