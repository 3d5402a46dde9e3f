"""Spec WriteStream.tla: every operation appends its textual form (bytes, integers with a minimal length, fixed and scientific
decimals rounded from the digit sequence of the value, formatted text through data()/advance()); flushing or destroying the
writer brings exactly what was written so far to the device (a string device keeps the beginning). The model carries the
buffering algorithm with the invariant device + buffer = written. Behaviours generated by TLC with buffers of 1..3 bytes and
random scripts (all byte values, extreme integers, lengths to 25, decimals of up to 12 digits from 1e-290 to 1e290, values
next to powers of ten, buffers of 1..60 bytes) run on file, stream, string, buffered, simple, stream writers and fast_write;
values written and read back through the matching reader must come back equal."""
TECH = 'TLA+ spec WriteStream.tla (model-checked; behaviours generated by TLC and replayed, random scripts recorded) against all writers'
NOTE = 'Decimals: at most 12 significant digits, at most 14 printed digits; an exact tie may be rounded either way; infinities and NaN are outside the domain.'
K = 'CONSTANTS\nMaxL = %d\nSym = {48, 65, 10}\nCaps = {1, 2, 3}\n'
def run(c):
    ex = c.pool.submit(c.build, 'wtr', asan=True)
    mc = c.model_async('WriteStream', 'INIT Init\nNEXT Next\nINVARIANT Laws\nCONSTRAINT Short\nCHECK_DEADLOCK FALSE\nCONSTANTS\nMaxL = 1\nSym = {48}\nCaps = {1, 2}\n' , workers='2')
    h = c.generate('WriteStream', K % 3, c.budget(300, 8000), 16, next='Next \\/ (out.op = "none" /\\ UNCHANGED vars)')
    n, s = c.budget(200, 5000), c.seed * 100
    c.recorded('WriteStream', ex.result(), [['rand', s + i, n] for i in range(6)] + [['back', s, n * 2]], K % 0, what='random scripts')
    c.replay('WriteStream', ex.result(), h, K % 0)
    mc.result()
