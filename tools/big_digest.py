#!/usr/bin/env python3
"""Prints the expected digests of harness/x03l.cpp (MD5 and SHA-1 by hashlib)."""
import hashlib
block = bytes((i * 131 + (i >> 8) * 7 + (i >> 16)) & 255 for i in range(1 << 20))
for mib, extra in ((511, (1 << 20) - 1), (512, 0), (512, 1), (512, 55), (512, 56), (513, 0), (600, 3), (1024, 5)):
    for algo in ('md5', 'sha1'):
        h = hashlib.new(algo)
        for _ in range(mib):
            h.update(block)
        h.update(block[:extra])
        print('    {%s, %d, %d, "%s"},' % ('true' if algo == 'sha1' else 'false', mib, extra, h.hexdigest()))
