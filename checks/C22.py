"""Spec ReadStream.tla: a reader is a position in a byte sequence; every operation of every layer (read_char, block read,
unread, skip, reserve, data/counter/advance, read_line, read_string, whitespace, sign, digits, int/long/long long, float and
double literals) is a function of the bytes from there on, the failed flag records whether an operation came to the end.
The buffer shows only through reserve/data/skip and block reads longer than the buffer. Behaviours generated by TLC over a
tiny alphabet with buffers of 1..3 bytes and long random scripts (all byte values, literals up to the type limits, buffers of
1..70 bytes, underlying readers that hand out 1..3 bytes at a time) run on file, stream, string, buffered, simple, simple
stream readers and fast_read."""
TECH = 'TLA+ spec ReadStream.tla (model-checked; behaviours generated by TLC and replayed, random scripts recorded) against all readers'
NOTE = 'Float literals are compared by their significant digits when they have at most 9 (float: 5); numbers outside the type range and infinities are outside the domain. Block reads from a buffered reader may stop at the buffer size, as the existing tests pin.'
K = 'CONSTANTS\nMaxL = %d\nSym = {45, 49, 32, 46, 255}\nCaps = {1, 2, 3}\n'
def run(c):
    ex = c.pool.submit(c.build, 'rdr', asan=True)
    mc = c.model_async('ReadStream', 'INIT Init\nNEXT Next\nINVARIANT Laws\nPROPERTY Sound\nPROPERTY Agree\nCHECK_DEADLOCK FALSE\nCONSTANTS\nMaxL = %d\nSym = {45, 49, 32}\nCaps = {1, 2}\n' % c.budget(1, 2), workers='2')
    h = c.generate('ReadStream', K % 12, c.budget(300, 8000), 22)
    n, s = c.budget(220, 6000), c.seed * 100
    c.recorded('ReadStream', ex.result(), [['rand', s + i, n] for i in range(6)], K % 0, what='random scripts')
    c.replay('ReadStream', ex.result(), h, K % 0)
    mc.result()
