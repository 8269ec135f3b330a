"""What each check builds and runs."""
import concurrent.futures, glob, os, re, shutil, subprocess


class BuildError(Exception):
    pass


# libc references of the library's objects that are redirected to stand-ins
SHIM_SYMS = 'mmap mmap64 munmap madvise mprotect mremap memfd_create ftruncate ftruncate64 open open64 close calloc malloc aligned_alloc posix_memalign realloc reallocarray strdup strndup free'.split()


def known_findings(verif, pid):
    """Entries 'known: property=Cxx key=<key> <text>' of known-findings.txt."""
    r = []
    p = os.path.join(verif, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid: r.append((m.group(2), m.group(3)))
    return r


class Builder:
    def __init__(self, verif, repo):
        self.verif, self.repo = verif, repo
        self.root = os.path.join(verif, 'build')

    def dir(self, name):
        d = os.path.join(self.root, name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    def run(self, cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if p.returncode: raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])

    def par(self, cmds):
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(self.run, c) for c in cmds]: f.result()

    def seq_par(self, jobs, tolerate=False):
        """jobs: list of lists of commands; each inner list is sequential. Returns the error, or None, of each."""
        def go(j):
            try:
                for c in j: self.run(c)
            except BuildError as e:
                if not tolerate: raise
                return e
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            return [f.result() for f in [ex.submit(go, j) for j in jobs]]

    def inc(self):
        return ['-I' + os.path.join(self.repo, 'include'), '-I' + os.path.join(self.repo, 'src'), '-include', os.path.join(self.verif, 'harness', 'config.h')]

    def lib_jobs(self, d, syms, cflags=(), cc='gcc', files=None):
        """Jobs compiling the library's sources with the given libc symbols renamed to vp_*."""
        jobs, objs = [], []
        for f in files or sorted(glob.glob(os.path.join(self.repo, 'src', '*.c'))):
            o = os.path.join(d, 'lib-' + os.path.basename(f)[:-2] + '.o')
            j = [[cc, '-g', '-O2', '-w', '-U_FORTIFY_SOURCE', *cflags, *self.inc(), '-c', f, '-o', o]]
            if syms: j.append(['objcopy'] + sum((['--redefine-sym', '%s=vp_%s' % (s, s)] for s in syms), []) + [o])
            jobs.append(j); objs.append(o)
        return jobs, objs

    def harness(self, src, o, cflags=(), cxx='g++'):
        return [cxx, '-std=c++17', '-g', '-O2', '-w', *cflags, *self.inc(), '-c', os.path.join(self.verif, 'harness', src), '-o', o]


LIBS = ['-lnuma', '-ldl', '-lpthread']


def u_mempool(b, pid):
    d = b.dir('mempool-' + pid)
    jobs, objs = b.lib_jobs(d, SHIM_SYMS)
    h = os.path.join(d, 'mempool.o')
    b.seq_par([[b.harness('mempool.cpp', h)]] + jobs)
    exe = os.path.join(d, 'mempool')
    b.run(['g++', '-o', exe, h, *objs, *LIBS])
    return [('mempool', [exe, '--prop', pid])]


# (name, compiler, flags): builds of the helper wrappers
VARIANTS = [
    ('gO0', 'gcc', ['-O0']), ('gO1', 'gcc', ['-O1']), ('gO2', 'gcc', ['-O2']), ('gO3', 'gcc', ['-O3']), ('gOs', 'gcc', ['-Os']),
    ('gO2ct', 'gcc', ['-O2', '-DRSEQ_COMPARE_TWICE']), ('gO0ct', 'gcc', ['-O0', '-DRSEQ_COMPARE_TWICE']),
    ('gO2pic', 'gcc', ['-O2', '-fPIC', '-fno-omit-frame-pointer']), ('gO3n', 'gcc', ['-O3', '-march=x86-64-v3', '-fno-plt']),
    ('gxxO2', 'g++', ['-O2', '-x', 'c++']), ('gxxO0', 'g++', ['-O0', '-x', 'c++']), ('gxxct', 'g++', ['-O1', '-x', 'c++', '-DRSEQ_COMPARE_TWICE']),
    ('cO0', 'clang', ['-O0']), ('cO1', 'clang', ['-O1']), ('cO2', 'clang', ['-O2']), ('cO3', 'clang', ['-O3']), ('cOz', 'clang', ['-Oz']),
    ('cO2ct', 'clang', ['-O2', '-DRSEQ_COMPARE_TWICE']), ('cO2pic', 'clang', ['-O2', '-fPIC', '-fno-omit-frame-pointer']),
    ('cxxO2', 'clang++', ['-O2', '-x', 'c++']), ('cxxct', 'clang++', ['-O3', '-x', 'c++', '-DRSEQ_COMPARE_TWICE']),
]


def u_ops(b, pid):
    d = b.dir('ops-' + pid)
    open(os.path.join(d, 'variants.inc'), 'w').write(''.join('V(var_%s)\n' % v[0] for v in VARIANTS))
    jobs, objs = b.lib_jobs(d, [], files=[f for f in sorted(glob.glob(os.path.join(b.repo, 'src', '*.c'))) if 'mempool' not in f])
    h = os.path.join(d, 'ops.o')
    jobs.insert(0, [b.harness('ops.cpp', h, ['-I' + d])])
    for n, cc, fl in VARIANTS:
        o = os.path.join(d, n + '.o')
        jobs.append([[cc, '-g', '-w', '-DVARIANT=var_' + n, *fl, *b.inc(), '-c', os.path.join(b.verif, 'harness', 'opsvar.c'), '-o', o]])
        objs.append(o)
    b.seq_par(jobs)
    exe = os.path.join(d, 'ops')
    b.run(['g++', '-o', exe, h, *objs, '-no-pie', '-ldl', '-lpthread'])
    env = {'GLIBC_TUNABLES': 'glibc.pthread.rseq=0'} if pid == 'C05' else {}
    return [('ops', [exe, '--prop', pid], 1.0, env)]


# Guest programs for the other architectures: (suffix, flags, masks of helpers linked into one program)
XARCH = ['aarch64', 'aarch64_be', 'riscv64', 'powerpc64le', 'powerpc64', 's390x', 'loongarch64', 'mips64el', 'mips64']
XTRIPLE = {'loongarch64': 'loongarch64-linux-gnusf'}
# vector code is not interpreted
XFLAGS = {'aarch64': ['-mgeneral-regs-only'], 'powerpc64': ['-mno-altivec', '-mno-vsx'], 's390x': ['-march=z10'], 'riscv64': ['-mcmodel=medany'], 'loongarch64': ['-msoft-float'], 'mips64': ['-mabi=64', '-march=mips64r2', '-msoft-float']}
# every program stays small: conditional branches reach the abort handlers only within 32 KiB (powerpc) or 64 KiB (s390)
NOORD = ['-DVP_NOORD']
XBUILDS = [('O0a', ['-O0'], 0x03, 15), ('O0b', ['-O0'] + NOORD, 0x24, 15), ('O0c', ['-O0'] + NOORD, 0x10, 2), ('O0d', ['-O0'] + NOORD, 0x10, 4), ('O0e', ['-O0'] + NOORD, 0x40, 2), ('O0f', ['-O0'] + NOORD, 0x40, 4),
           ('O1a', ['-O1'], 0x27, 1), ('O1b', ['-O1'] + NOORD, 0x50, 5), ('O2a', ['-O2'], 0x27, 2), ('O2b', ['-O2'] + NOORD, 0x50, 10), ('Oza', ['-Oz'], 0x27, 1), ('Ozb', ['-Oz'] + NOORD, 0x50, 6),
           ('O3cta', ['-O3', '-DRSEQ_COMPARE_TWICE'], 0x27, 2), ('O3ctb', ['-O3', '-DRSEQ_COMPARE_TWICE'] + NOORD, 0x50, 9),
           ('O1ctpica', ['-O1', '-fPIC', '-DRSEQ_COMPARE_TWICE', '-fno-omit-frame-pointer'] + NOORD, 0x27, 1), ('O1ctpicb', ['-O1', '-fPIC', '-DRSEQ_COMPARE_TWICE', '-fno-omit-frame-pointer'] + NOORD, 0x50, 6),
           ('O2pica', ['-O2', '-fPIC'] + NOORD, 0x27, 2), ('O2picb', ['-O2', '-fPIC'] + NOORD, 0x50, 9)]


def u_xarch(b, pid):
    d = b.dir('xarch-' + pid)
    res = subprocess.run(['clang', '-print-resource-dir'], stdout=subprocess.PIPE, text=True).stdout.strip()
    hd = os.path.join(b.verif, 'harness')
    jobs, names = [], []
    h = os.path.join(d, 'xarch.o')
    for t in XARCH:
        for n, fl, mask, modes in XBUILDS:
            if 'mips' in t and '-fPIC' in fl and pid != 'C26': continue # known finding
            nm = t + '__' + n; o = os.path.join(d, nm + '.o'); names.append(nm)
            fl = fl + XFLAGS.get(t.replace('64le', '64').replace('64el', '64').replace('_be', ''), []) + (['-mabi=elfv2'] if t == 'powerpc64' else []) + (['-mno-abicalls', '-G0'] if 'mips' in t and '-fPIC' not in fl else [])
            jobs.append([['clang', '-target', XTRIPLE.get(t, t + '-linux-gnu'), '-nostdinc', '-isystem', res + '/include', '-isystem', os.path.join(hd, 'xsys'), '-ffreestanding', '-w', '-DVP_XARCH', '-DVP_GUEST', '-DVP_OPS=%d' % mask, '-DVP_MODES=%d' % modes, '-DVARIANT=xvar', *fl, '-I' + os.path.join(b.repo, 'include'), '-c', os.path.join(hd, 'xguest.c'), '-o', o],
                         ['lld', '-flavor', 'gnu', '--image-base=0x123456780000', '-static', '-nostdlib', '-e', '_start', o, '-o', os.path.join(d, nm + '.elf')]])
    own = b.harness('xarch.cpp', h, ['-I' + d])
    # a program too large for a conditional branch of its architecture is left out; an architecture without programs is a build error
    err = b.seq_par(jobs, tolerate=True)
    for t in XARCH:
        if all(e for n, e in zip(names, err) if n.split('__')[0] == t): raise next(e for n, e in zip(names, err) if n.split('__')[0] == t)
    for n in names:
        if os.path.exists(os.path.join(d, n + '.o')): os.unlink(os.path.join(d, n + '.o'))
    b.dropped = [n for n, e in zip(names, err) if e]
    names = [n for n, e in zip(names, err) if not e]
    open(os.path.join(d, 'xblobs.inc'), 'w').write(''.join('B(%s)\n' % n for n in names))
    open(os.path.join(d, 'xblobs.S'), 'w').write('.section .rodata\n' + ''.join('.balign 16\n.globl blob_%s, blob_end_%s\nblob_%s: .incbin "%s"\nblob_end_%s:\n' % (n, n, n, os.path.join(d, n + '.elf'), n) for n in names) + '.section .note.GNU-stack,"",@progbits\n')
    b.seq_par([[own], [['gcc', '-g', '-w', '-O1', '-DVP_XARCH', '-DVARIANT=xvar', *b.inc(), '-c', os.path.join(hd, 'opsvar.c'), '-o', os.path.join(d, 'host.o')]], [['gcc', '-c', os.path.join(d, 'xblobs.S'), '-o', os.path.join(d, 'xblobs.o')]]])
    exe = os.path.join(d, 'xarch')
    b.run(['g++', '-o', exe, h, os.path.join(d, 'host.o'), os.path.join(d, 'xblobs.o'), '-ldl', '-lpthread'])
    return [('xarch', [exe, '--prop', pid])]


DSVARIANTS = [v for v in VARIANTS if v[0] in ('gO0', 'gO2', 'gO3', 'gO2ct', 'gOs', 'gxxO2', 'cO0', 'cO2', 'cO2ct', 'cxxO2')]
VPLIB = sum((['--rename-section', '.text%s=vplib,alloc,load,readonly,code,contents' % x] for x in ('', '.startup', '.exit', '.unlikely', '.hot', '.cold')), [])


def u_ds(b, pid):
    d = b.dir('ds-' + pid)
    open(os.path.join(d, 'dsvariants.inc'), 'w').write(''.join('V(ds_%s)\n' % v[0] for v in DSVARIANTS))
    jobs, objs = b.lib_jobs(d, [], files=[f for f in sorted(glob.glob(os.path.join(b.repo, 'src', '*.c'))) if 'mempool' not in f])
    h = os.path.join(d, 'ds.o')
    jobs.insert(0, [b.harness('ds.cpp', h, ['-I' + d])])
    for n, cc, fl in DSVARIANTS:
        o = os.path.join(d, n + '.o')
        nopart = ['-fno-reorder-blocks-and-partition'] if cc.startswith('g') else []
        jobs.append([[cc, '-g', '-w', '-DVARIANT=ds_' + n, *fl, *nopart, *b.inc(), '-c', os.path.join(b.verif, 'harness', 'dsvar.c'), '-o', o], ['objcopy', *VPLIB, o]])
        objs.append(o)
    b.seq_par(jobs)
    exe = os.path.join(d, 'ds')
    b.run(['g++', '-o', exe, h, *objs, '-no-pie', '-ldl', '-lpthread'])
    return [('ds', [exe, '--prop', pid])]


LOCK_SYMS = 'pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock pthread_once abort __assert_fail'.split()


def u_conc(b, pid):
    d = b.dir('conc-' + pid)
    jobs, objs = b.lib_jobs(d, SHIM_SYMS + LOCK_SYMS, ['-fno-reorder-blocks-and-partition'], files=[f for f in sorted(glob.glob(os.path.join(b.repo, 'src', '*.c')))])
    for j, o in zip(jobs, objs):
        if 'mempool' in o: j.append(['objcopy', *VPLIB, o])
    h, w = os.path.join(d, 'conc.o'), os.path.join(d, 'concvar.o')
    jobs.insert(0, [b.harness('conc.cpp', h)])
    jobs.append([['gcc', '-g', '-O2', '-w', *b.inc(), '-c', os.path.join(b.verif, 'harness', 'concvar.c'), '-o', w], ['objcopy', *VPLIB, w]])
    b.seq_par(jobs)
    exe = os.path.join(d, 'conc')
    b.run(['g++', '-o', exe, h, w, *objs, '-no-pie', *LIBS])
    return [('conc', [exe, '--prop', pid])]


REG_SYMS = 'syscall sched_getcpu getcpu getauxval dlsym abort __assert_fail'.split()
NOCTOR = ['--rename-section', '.init_array=vp_init_array,alloc,load,data,contents', '--rename-section', '.fini_array=vp_fini_array,alloc,load,data,contents']


def u_reg(b, pid):
    d = b.dir('reg-' + pid)
    jobs, objs = b.lib_jobs(d, REG_SYMS, ['-fexceptions'], files=[f for f in sorted(glob.glob(os.path.join(b.repo, 'src', '*.c'))) if 'mempool' not in f])
    for j, o in zip(jobs, objs): j.append(['objcopy', *NOCTOR, o])
    h = os.path.join(d, 'reg.o')
    jobs.insert(0, [b.harness('reg.cpp', h)])
    b.seq_par(jobs)
    exe = os.path.join(d, 'reg')
    b.run(['g++', '-o', exe, h, *objs, *LIBS])
    off = {'GLIBC_TUNABLES': 'glibc.pthread.rseq=0'}
    if pid == 'C07':
        d2 = b.dir('regconc-' + pid)
        jobs, objs = b.lib_jobs(d2, sorted(set(REG_SYMS + LOCK_SYMS)), ['-fexceptions', '-fno-reorder-blocks-and-partition'], files=[f for f in sorted(glob.glob(os.path.join(b.repo, 'src', '*.c'))) if 'mempool' not in f])
        for j, o in zip(jobs, objs): j.append(['objcopy', *NOCTOR, *VPLIB, o])
        b.seq_par(jobs)
        exe2 = os.path.join(d2, 'regconc')
        b.run(['g++', '-o', exe2, h, *objs, '-no-pie', *LIBS])
        return [('reg', [exe, '--prop', 'C07']), ('schedules', [exe2, '--prop', 'C07conc'])]
    if pid == 'C10': return [('sim', [exe, '--prop', 'C10']), ('real-own', [exe, '--prop', 'C10real'], 1.0, off), ('real-libc', [exe, '--prop', 'C10real'])]
    return [('reg', [exe, '--prop', pid])]


SMP_SYMS = 'open open64 openat read close fopen fopen64 opendir readdir readdir64 closedir sysconf get_nprocs_conf'.split()


def u_mempool2(b, pid):
    d = b.dir('mempool2-' + pid)
    jobs, objs = b.lib_jobs(d, SHIM_SYMS + ['numa_node_of_cpu', 'move_pages', 'mbind'])
    h = os.path.join(d, 'mempool2.o')
    b.seq_par([[b.harness('mempool2.cpp', h)]] + jobs)
    exe = os.path.join(d, 'mempool2')
    b.run(['g++', '-o', exe, h, *objs, *LIBS])
    return [('mempool2', [exe, '--prop', pid])]


def u_ord(b, pid):
    d = b.dir('ord-' + pid)
    h = os.path.join(d, 'ord.o')
    b.seq_par([[b.harness('ord.cpp', h)]])
    exe = os.path.join(d, 'ord')
    b.run(['g++', '-o', exe, h, '-ldl', '-lpthread'])
    work = os.path.join(d, 'work')
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    return [('ord', [exe, '--prop', pid], 1.0, {'VP_ORD_DIR': work, 'VP_INC': '\n'.join(b.inc())})]


def u_smp(b, pid):
    d = b.dir('smp-' + pid)
    jobs, objs = b.lib_jobs(d, [])
    for j, o in zip(jobs, objs):
        if o.endswith('lib-rseq-mempool.o'): continue
        j.append(['objcopy'] + sum((['--redefine-sym', '%s=vp_%s' % (x, x)] for x in SMP_SYMS), []) + [o])
    h = os.path.join(d, 'smp.o')
    jobs.insert(0, [b.harness('smp.cpp', h)])
    b.seq_par(jobs)
    exe = os.path.join(d, 'smp')
    b.run(['g++', '-o', exe, h, *objs, *LIBS])
    d2 = b.dir('smpconc-' + pid)
    jobs, objs = b.lib_jobs(d2, [], ['-fno-reorder-blocks-and-partition'])
    for j, o in zip(jobs, objs):
        if o.endswith('lib-rseq-mempool.o'): continue
        j.append(['objcopy', *VPLIB] + sum((['--redefine-sym', '%s=vp_%s' % (x, x)] for x in SMP_SYMS + LOCK_SYMS), []) + [o])
    b.seq_par(jobs)
    exe2 = os.path.join(d2, 'smpconc')
    b.run(['g++', '-o', exe2, h, *objs, '-no-pie', *LIBS])
    return [('smp', [exe, '--prop', pid]), ('schedules', [exe2, '--prop', 'C09conc'])]


A_MEM = ['libc and the kernel behave as documented; the library objects are the real sources of /repo/src compiled with gcc -O2, with their libc references renamed to accounting stand-ins']

PROPS = {}
NOT_CLAIMED = {}


def prop(pid, units, technique, note, level='exploration', assumptions=()):
    PROPS[pid] = dict(units=units, technique=technique, note=note, level=level, assumptions=list(assumptions))


prop('C11', u_mempool, 'model-based random histories over several pools (generated configurations), per-CPU byte model as oracle, shrinking', 'Random histories of up to a few hundred operations; every byte of every live item compared on up to 16 CPUs of the pool. Not exhaustive.', assumptions=A_MEM)
prop('C12', u_mempool, 'model-based random histories with CPU-divergent recycled content, byte model as oracle', 'Every byte of each zeroed/initialised item is read back on every modelled CPU.', assumptions=A_MEM)
prop('C13', u_mempool, 'model-based random histories against an exact capacity counter model', 'Exhaustion, partial frees, growth and refill in random order; exact success/ENOMEM prediction for each allocation.', assumptions=A_MEM)
prop('C14', u_mempool, 'random robust-pool histories in child processes with one generated misuse (or none); oracle: terminated iff misused', 'Both directions: misuse must terminate the process, correct histories must not.', assumptions=A_MEM)
prop('C15', u_mempool, 'random histories on poisoning pools, freed and recycled memory read back on every CPU', 'Freed items are inspected directly after free and again when recycled.', assumptions=A_MEM)
prop('C18', u_mempool, 'fault injection: each generated history is replayed with every resource request failing in turn; resource ledger and item model as oracle', 'Every mmap/madvise/memfd/ftruncate/heap request of each generated history is failed once (plus random pairs and munmap failures). Histories themselves are sampled.', level='fault_enumeration', assumptions=A_MEM)
prop('C19', u_mempool, 'model-based random histories on pool sets against a smallest-fit reference model', 'Serving pool identified by address; exhaustion and duplicates generated.', assumptions=A_MEM)
prop('C20', u_mempool, 'random attribute-setter sequences and creation arguments against a validity oracle, then model-driven use', 'Boundary-biased arguments; accepted pools are driven to verify that the settings took effect.', assumptions=A_MEM)
prop('C24', u_mempool, 'random histories with a recording / failing initialisation callback', 'Callback arguments, count, order relative to hand-out, effect and failure handling are all checked.', assumptions=A_MEM)

A_OPS = ['x86-64 only; the step rig sees architectural instruction boundaries (x86-TSO store buffering between CPUs is not modelled; per-CPU data needs none)', 'the simulated kernel implements the rseq_cs rules of the Linux ABI: redirect to abort_ip when preempted, migrated or signalled inside [start, start+post_commit_offset)', '21 builds of the helpers: gcc/clang, C/C++, -O0..-O3/-Os/-Oz, PIC, with and without RSEQ_COMPARE_TWICE']
prop('C01', u_ops, 'single-step fuzzing: generated operands, memory and interruption events at every instruction boundary of the compiled helper, atomic pseudo-code model as oracle', 'Every instruction boundary is reachable and swept; operands, event kinds and concurrent changes are sampled.', assumptions=A_OPS)
prop('C02', u_ops, 'differential testing of every compiled helper shape against a pseudo-code interpreter over generated operands and memory', 'Byte-exact comparison of memory and result; operand space sampled with boundary bias, build variants enumerated.', assumptions=A_OPS)
prop('C03', u_ops, 'generated registration states, indexes, modes and orderings; oracle: failure and unchanged memory unless registered, matching and supported', 'Simulated thread area; wild indexes, orderings and modes sampled.', assumptions=A_OPS)
prop('C05', u_ops, 'instruction-level execution following against descriptors and exit tables, plus real-kernel interruption at generated instructions', 'All emitted descriptors are decoded; executions and interruption points are sampled.', assumptions=A_OPS)
prop('C06', u_ops, 'abort injection before every instruction of wrappers with many live values; oracle: all caller values and ABI registers preserved', 'Every instruction boundary of each generated execution; wrappers fixed shapes x 21 builds.', assumptions=A_OPS)
prop('C04', u_ds, 'model-based generated thread schedules: real threads serialised and preempted at instruction granularity over simulated CPUs, linearisation model of each structure as oracle', 'Schedules and programs are sampled; every instruction boundary is a possible preemption point.', assumptions=A_OPS)
prop('C21', u_conc, 'model-based generated thread schedules: real threads serialised and switched at instruction and lock-operation granularity inside the allocator, counting model with in-flight bounds as oracle', 'Schedules and programs are sampled; switches happen at any instruction of the library. Locks are cooperative stand-ins, so deadlocks are detected exactly.', assumptions=A_MEM + ['interleavings are sequentially consistent (x86-TSO reordering between threads is not modelled)'])
A_REG = ['rseq(2), getcpu(2), getauxval, dlsym and sched_getcpu are stand-ins implementing the Linux ABI (registration rules of 4.18 and of 6.3+ extensible kernels); no real kernel with features beyond 32 bytes is available']
prop('C07', u_reg, 'model-based random register/unregister histories over threads against a simulated kernel with injected refusals', 'The simulated kernel decides which requests are valid; every call, argument and result is compared with the registration state.', assumptions=A_REG)
prop('C08', u_reg, 'generated C-library / kernel environments, the exposed symbols and queries compared with the specified intersection', 'Each case initialises the library in a fresh process with a generated environment.', assumptions=A_REG)
prop('C10', u_reg, 'model-based random histories of moves, registrations and queries against a simulated kernel, and the same on the real kernel with pinning', 'Simulated: CPU/node numbers and failures generated. Real: pinned CPU compared with every query, both registration owners.', assumptions=A_REG)
prop('C09', u_smp, 'generated system environments (possible list, read faults, CPU directory, configured count) against a reference computation', 'The file, directory and sysconf calls of the library are stand-ins; each case runs in a fresh process.', assumptions=['possible lists are sorted and at most a page long, as the kernel writes them; CPU numbers stay below INT_MAX'])
prop('C16', u_mempool2, 'model-based random histories; after each operation the kernel page map (PAGEMAP_SCAN) of every CPU of the pool is compared with the set of pages the model allows to be private', 'Every private page of every CPU is found; histories are sampled.', assumptions=A_MEM + ['transparent huge pages are disabled for the checking process'])
prop('C17', u_mempool2, 'model-based random histories in parent and forked child (or grandchild), interleaved over pipes, with foreign mappings placed in the vacated range', 'Items, contents, mappings and heap blocks of both processes are compared with the model; histories are sampled.', assumptions=A_MEM)
prop('C22', u_mempool2, 'generated ranges, CPUs, nodes, flags and per-request kernel results; oracle: exact page cover of the recorded requests and the specified result', 'move_pages(2) and numa_node_of_cpu(3) are recording stand-ins, so placement itself is not observed.', assumptions=A_MEM)
prop('C23', u_ord, 'generated programs compiled by a generated compiler and level, every access to the shared page trapped and single-stepped; oracle: exact access counts, values and the ordering relation; plus store-buffering litmus runs on real CPUs', 'x86-64 headers only. Compiler-visible ordering is observed instruction by instruction; hardware ordering of the full barrier on the real CPUs.', assumptions=['the CPU is x86-TSO; gcc 13 and clang 18'])

A_X = ['clang 18 as the compiler for aarch64 (both byte orders), riscv64, powerpc64 (both byte orders), s390x, loongarch64 and mips64 (both byte orders, n64); arm and 32-bit variants are not covered', 'the interpreters implement the documented user-mode instruction semantics; an instruction they do not know makes the case undecided, never a violation', 'the simulated kernel implements the rseq_cs rules of the Linux ABI']
prop('C25', u_xarch, 'cross-compiled helpers executed in instruction-set interpreters with generated operands, memory and interruption events at instruction boundaries, atomic pseudo-code model as oracle', 'Every instruction boundary is reachable and swept; operands, event kinds and concurrent changes are sampled.', assumptions=A_X)
prop('C26', u_xarch, 'differential testing of every cross-compiled helper shape, in interpreters, against a pseudo-code interpreter over generated operands, indexes and orderings', 'Byte-exact comparison of memory and result, callee-saved state and live values; operand space sampled.', assumptions=A_X)
prop('C27', u_xarch, 'instruction-level execution following of cross-compiled helpers against their descriptors and exit tables', 'All emitted descriptors are decoded; executions are sampled.', assumptions=A_X)
prop('C28', u_xarch, 'generated executions of the cross-compiled accessors, barriers and release helpers; oracle: the ordering relation of the architecture over the logged accesses and barriers, access counts, sizes and values', 'The ordering relation is computed from the executed barrier, acquire and release instructions.', assumptions=A_X + ['dependencies between a load and a later access are not counted as ordering'])
