#!/usr/bin/env python3
"""Builds the simulator together with the code under test from a k8psh source tree.

usage: build_sim.py [-release] [REPO [OUTDIR]]     builds both, prints the path of the simulator binary

The whole program (src/k8psh.cxx) is compiled unmodified; afterwards every system call and every impure library
function it refers to is redirected, at the object level, to its simulated counterpart (sim_<symbol>)."""
import concurrent.futures, fcntl, hashlib, os, re, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, 'sim')
SIM_UNITS = ['context', 'kernel', 'syscalls', 'stdio', 'actors', 'director', 'scenario', 'main']
SIM_FLAGS = ['-std=c++17', '-O1', '-g', '-Wall', '-Wextra', '-D_GLIBCXX_ASSERTIONS', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-fno-pie', '-fno-stack-protector', '-fcf-protection=none']
# the code under test is compiled the two ways in which it is used: with its debug log compiled in, and without
VARIANTS = {'debug': ['-O1', '-DDEBUG'], 'release': ['-O2', '-DNDEBUG']}
UUT_FLAGS = ['-std=c++11', '-g1', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-fno-pie', '-fno-stack-protector', '-fcf-protection=none', '-w']

LDSCRIPT = '''SECTIONS
{
  uut_data : { *(.data .data.* .gnu.linkonce.d.* .bss .bss.* .gnu.linkonce.b.* COMMON) }
  uut_init : { KEEP(*(.preinit_array .preinit_array.*)) KEEP(*(SORT_BY_INIT_PRIORITY(.init_array.*))) KEEP(*(.init_array)) }
}
'''

# undefined symbols that may stay as they are: they touch nothing but their arguments
PURE = re.compile(r'''^(
  mem(cpy|move|set|cmp|chr|rchr|mem|ccpy)|bcmp|bzero|rawmemchr|
  str(len|nlen|cmp|ncmp|casecmp|ncasecmp|chr|rchr|chrnul|str|cpy|ncpy|cat|ncat|spn|cspn|pbrk|tok_r|sep|coll|xfrm|casestr|ftime|error_r)|stpcpy|stpncpy|__xpg_strerror_r|strerror|strsignal|
  (__isoc23_)?(strto(l|ul|ll|ull|imax|umax|d|f|ld)|sscanf|vsscanf)|strto(d|f|ld)|ato(i|l|ll|f)|
  to(upper|lower|ascii)|is[a-z]+|__ctype_(b|tolower|toupper)_loc|
  snprintf|vsnprintf|sprintf|vsprintf|qsort|qsort_r|bsearch|abs|labs|llabs|div|ldiv|lldiv|
  timegm|htons|htonl|ntohs|ntohl|inet_(addr|aton|ntop|pton|ntoa)|basename|dirname|__xpg_basename|
  sig(emptyset|fillset|addset|delset|ismember)|__sysv_signal_unused|
  __cxa_(throw|rethrow|begin_catch|end_catch|allocate_exception|free_exception|get_exception_ptr|guard_acquire|guard_release|guard_abort|pure_virtual|call_unexpected|throw_bad_array_new_length|bad_cast|bad_typeid|current_exception_type|init_primary_exception|deleted_virtual|demangle|get_globals|get_globals_fast|vec_.*)|__dynamic_cast|
  _Unwind_.*|__gxx_personality_v0|__errno_location|__libc_single_threaded|__dso_handle|_GLOBAL_OFFSET_TABLE_|__stack_chk_fail|
  sched_yield_unused|__once_proxy|
  (floor|ceil|round|trunc|pow|log|log2|log10|exp|sqrt|fmod|ldexp|frexp)[fl]?|lround|llround|
  __start_.*|__stop_.*
)$''', re.X)
# C++ library symbols that would escape the simulation
IMPURE_CXX = re.compile(r'filesystem|condition_variable|[^a-z]thread[^_]|_ZNSt6thread|mutex|future|system_clock|steady_clock|random_device|_ZSt[34](cin|cout|cerr|clog)|wcout|wcin|wcerr')


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError('command failed: ' + ' '.join(cmd) + '\n' + r.stdout[-8000:])
    return r.stdout


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:20]


def symbols(path, kind):
    out = set()
    for line in run(['nm', kind, '-P', path]).splitlines():
        f = line.split()
        if f:
            out.add(f[0])
    return out


def atomically(path, fn):
    tmp = path + '.tmp%d' % os.getpid()
    fn(tmp)
    os.rename(tmp, path)


def build(repo='/repo', out=None, variant='debug'):
    return build_all(repo, out)[variant]


def build_all(repo='/repo', out=None):
    out = out or os.path.join(HERE, 'build')
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(repo, out)


def compile_uut(srcdir, out, variant, raw):
    c = os.path.join(out, 'uut_c-%s.o' % variant)
    run(['g++'] + UUT_FLAGS + VARIANTS[variant] + ['-c', os.path.join(srcdir, 'k8psh.cxx'), '-o', c])
    script = os.path.join(out, 'uut-%s.ld' % variant)
    with open(script, 'w') as f:
        f.write(LDSCRIPT)
    merged = os.path.join(out, 'uut_m-%s.o' % variant)
    run(['ld', '-r', '--force-group-allocation', '-d', '-T', script, '-o', merged, c])
    secs = run(['objdump', '-h', merged])
    if re.search(r'\s\.t(data|bss)\b', secs):
        raise BuildError('thread-local data in the code under test is not supported by the simulator')
    os.rename(merged, raw)


def _build(repo, out):
    headers = sorted(os.path.join(SIM, f) for f in os.listdir(SIM) if f.endswith('.h'))
    procs = []
    objs = []
    for u in SIM_UNITS:
        src = os.path.join(SIM, u + '.cpp')
        obj = os.path.join(out, u + '-' + digest(headers + [src], ' '.join(SIM_FLAGS)) + '.o')
        objs.append(obj)
        if not os.path.exists(obj):
            for f in os.listdir(out):
                if f.startswith(u + '-'):
                    os.unlink(os.path.join(out, f))
            tmp = obj + '.tmp%d' % os.getpid()
            procs.append((subprocess.Popen(['g++'] + SIM_FLAGS + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), tmp, obj))

    srcdir = os.path.join(repo, 'src')
    srcs = sorted(os.path.join(d, f) for d, _, fs in os.walk(srcdir) for f in fs)
    raws = {}
    missing = []
    for v in VARIANTS:
        raws[v] = os.path.join(out, 'uut-%s-%s.o' % (v, digest(srcs, ' '.join(UUT_FLAGS + VARIANTS[v]) + LDSCRIPT)))
        if not os.path.exists(raws[v]):
            missing.append(v)
            for f in os.listdir(out):
                if f.startswith('uut-%s-' % v):
                    os.unlink(os.path.join(out, f))
    try:
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            for r in [ex.submit(compile_uut, srcdir, out, v, raws[v]) for v in missing]:
                r.result()
    finally:
        for p, tmp, obj in procs:
            o = p.communicate()[0]
            if p.returncode:
                sys.stderr.write(o)
                raise BuildError('simulator unit failed to compile: ' + obj + '\n' + o[-4000:])
            os.rename(tmp, obj)

    binaries = {v: os.path.join(out, 'k8sim-%s-%s' % (v, digest(objs + [raws[v]]))) for v in VARIANTS}
    if all(os.path.exists(b) for b in binaries.values()):
        return binaries
    defined = set()
    for o in objs:
        defined |= symbols(o, '--defined-only')
    for f in os.listdir(out):
        if f.startswith('k8sim-') and os.path.join(out, f) not in binaries.values():
            os.unlink(os.path.join(out, f))
    # file streams: the file layer of the C++ library is redirected like the code under test
    bf = os.path.join(out, 'basic_file.o')
    archive = run(['g++', '-print-file-name=libstdc++.a']).strip()
    run(['ar', 'x', '--output', out, archive, 'basic_file.o'])
    rf = os.path.join(out, 'redefine-bf.txt')
    with open(rf, 'w') as f:
        for s in sorted(symbols(bf, '--undefined-only')):
            if 'sim_' + s in defined:
                f.write(s + ' sim_' + s + '\n')
    run(['objcopy', '--redefine-syms', rf, bf])
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for r in [ex.submit(link, out, v, raws[v], objs, bf, defined, binaries[v]) for v in VARIANTS]:
            r.result()
    return binaries


def link(out, variant, raw, objs, bf, defined, binary):
    undef = symbols(raw, '--undefined-only')
    redefs = ['main=uut_main']
    bad = []
    for s in sorted(undef):
        if 'sim_' + s in defined:
            redefs.append('%s=sim_%s' % (s, s))
        elif s in defined and s.startswith('_Z'):
            pass                       # operator new and friends, replaced by the simulator
        elif PURE.match(s):
            pass
        elif s.startswith('_Z') and not IMPURE_CXX.search(s):
            pass
        else:
            bad.append(s)
    if bad:
        raise BuildError('the code under test refers to symbols the simulator does not model: ' + ' '.join(bad))
    rf = os.path.join(out, 'redefine-%s.txt' % variant)
    with open(rf, 'w') as f:
        for r in redefs:
            a, b = r.split('=', 1)
            f.write(a + ' ' + b + '\n')
    final = os.path.join(out, 'uut_final-%s.o' % variant)
    run(['objcopy', '--redefine-syms', rf, raw, final])
    tmp = binary + '.tmp'
    run(['g++', '-no-pie', '-o', tmp] + objs + [final, bf, '-Wl,-z,noseparate-code', '-Wl,--defsym=sim_release_build=%d' % (variant == 'release'), '-static-libstdc++', '-static-libgcc'])
    os.rename(tmp, binary)


if __name__ == '__main__':
    try:
        args = sys.argv[1:]
        variant = 'debug'
        if args and args[0] in ('-debug', '-release'):
            variant = args.pop(0)[1:]
        print(build_all(*(args or ['/repo']))[variant])
    except BuildError as e:
        sys.stderr.write(str(e) + '\n')
        sys.exit(2)
