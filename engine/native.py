"""Runs one wrapper natively (child process): python3 native.py JOB.json -> result JSON on stdout.

Every buffer is placed so that it ends (mode 'end') or starts (mode 'start') exactly at an
inaccessible page, so that accesses outside it fault."""
import ctypes, json, mmap, sys, os, struct
libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
PG = 4096
def guarded(data, align, mode, mis=0):
    n = len(data)
    pages = (n + PG - 1) // PG + 1
    tot = (pages + 2) * PG
    p = libc.mmap(None, tot, 3, 0x22, -1, 0)
    libc.mprotect(p, PG, 0)
    libc.mprotect(p + tot - PG, PG, 0)
    if mode == 'end':
        a = p + tot - PG - n
        if mis is not None:
            a = a // align * align
    else: a = p + PG
    if mis: a = a // 64 * 64 + mis if mode != 'end' else (a - 64) // 64 * 64 + mis
    ctypes.memmove(a, bytes(data), n)
    return a
def run_job(job):
    lib = ctypes.CDLL(job['so'])
    fn = getattr(lib, job['fn'])
    args = []; bufs = []
    for p in job['params']:
        if p['kind'] == 'buf':
            a = guarded(bytes.fromhex(p['data']), p['align'], job.get('mode', 'end'), p.get('mis', 0))
            bufs.append((p['name'], a, len(p['data']) // 2))
            args.append(ctypes.c_void_p(a + p.get('off', 0)))
        else:
            w = p['w']
            if p.get('f'):
                raw = p['v']
                if w == 32: args.append(ctypes.c_float.from_buffer_copy(struct.pack('<I', raw)))
                else: args.append(ctypes.c_double.from_buffer_copy(struct.pack('<Q', raw)))
            else:
                T = {1: ctypes.c_bool, 8: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64}[w]
                args.append(T(p['v']))
    r = job.get('ret')
    if r is None: fn.restype = None
    elif r['f']: fn.restype = ctypes.c_float if r['w'] == 32 else ctypes.c_double
    else: fn.restype = {1: ctypes.c_bool, 8: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64}[r['w']]
    v = fn(*args)
    out = {}
    if r is not None:
        if r['f']: v = struct.unpack('<I', struct.pack('<f', v))[0] if r['w'] == 32 else struct.unpack('<Q', struct.pack('<d', v))[0]
        out['ret'] = int(v)
    for n, a, k in bufs: out[n] = ctypes.string_at(a, k).hex()
    return out
def main():
    job = json.load(open(sys.argv[1]))
    if isinstance(job, list):
        # batch: one forked child per job; a line per job
        import select, signal, time
        for i, j in enumerate(job):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                signal.alarm(int(j.get('timeout', 10)))
                try: s = json.dumps(run_job(j))
                except BaseException as e: s = json.dumps({'error': repr(e)})
                b = s.encode()
                while b:
                    k = os.write(w, b); b = b[k:]
                os._exit(0)
            os.close(w)
            data = b''
            while True:
                x = os.read(r, 1 << 16)
                if not x: break
                data += x
            os.close(r)
            _, st = os.waitpid(pid, 0)
            if os.WIFSIGNALED(st): print('RESULT %d %s' % (i, json.dumps({'signal': os.WTERMSIG(st)})))
            else: print('RESULT %d %s' % (i, data.decode()))
        sys.stdout.flush()
        os._exit(0)
    print('RESULT ' + json.dumps(run_job(job)))
    sys.stdout.flush()
    os._exit(0)
if __name__ == '__main__': main()
