"""Payments that make the signature(s) of a coin unusually short, found by
tools/grind.py (RFC 6979 makes them reproducible): one input worth 10**8
satoshi with index 1, one output of that amount to dests(net)[1].
DER lengths 71, 70, 69, 68 for every signer; two short ones at once."""
TABLE = {
    ('ms', 'L'): [1000, 1001, 1002, 1058, 1100, 1418, 5601, 40875, 41036, 42014, 81465, 141181, 386561],
    ('ms', 'S'): [1000, 1001, 1047, 1071, 1620, 24465, 33320, 59256, 80739, 138412, 267449],
    ('key', 'main', True, 0, 'L'): [1000, 1001, 1163, 17592],
    ('key', 'main', True, 0, 'S'): [1000, 1002, 1309, 1817],
    ('key', 'main', False, 0, 'L'): [1000, 1004, 1243, 36529],
    ('key', 'test', True, 1, 'L'): [1000, 1003, 1186, 32508],
    ('key', 'test', True, 1, 'S'): [1000, 1002, 1035, 1662],
}
