"""builds facts about /repo's current source, runs a check, writes evidence and prints the verdict"""
import fcntl
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import time
import traceback

REPO = os.environ.get('VERIF_DEV_REPO', '/repo')   # overridden only by tools/seedtest.sh
CHECKER = "static analysis of /repo's source (MIR dumped by driver/, analysed by analysis/)"


class Broken(Exception):
    pass


def source_files():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ('target', '.git')]
        for f in fs:
            if f.endswith(('.rs', '.toml', '.lock')):
                out.append(os.path.join(d, f))
    return sorted(out)


def source_hash(here):
    h = hashlib.sha256()
    for f in source_files() + [os.path.join(here, 'driver/src/main.rs')]:
        h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:24]


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode != 0:
        raise Broken('%s\n%s%s' % (' '.join(cmd), r.stdout[-3000:], r.stderr[-6000:]))
    return r.stdout


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(('RUSTFLAGS', 'CARGO_BUILD', 'CARGO_ENCODED', 'RUSTC'))}
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def watchdog(secs):
    """stops the analysis running in this thread with interp.Limit, which counts as `cannot be decided`: a violation"""
    import ctypes
    import interp
    import threading
    me = threading.get_ident()
    t = threading.Timer(secs, lambda: ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(me), ctypes.py_object(interp.Limit)))
    t.daemon = True
    t.start()
    return t


def build(here):
    """facts directory and build directory for the current source"""
    cache = os.environ.get('VERIF_DEV_CACHE') or os.path.join(here, '.cache')
    os.makedirs(cache, exist_ok=True)
    with open(os.path.join(cache, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = os.path.join(cache, 'mirfacts')
        src = os.path.join(here, 'driver/src/main.rs')
        dh = hashlib.sha256(open(src, 'rb').read()).hexdigest()
        mark = os.path.join(cache, 'mirfacts.sha')
        if not (os.path.exists(drv) and os.path.exists(mark) and open(mark).read() == dh):
            run(['rustc', '+nightly', '--edition', '2021', '-O', '-o', drv, src], env=env())
            open(mark, 'w').write(dh)
        sysroot = run(['rustc', '+nightly', '--print', 'sysroot'], env=env()).strip()
        h = source_hash(here)
        facts = os.path.join(cache, 'facts')
        stamp = os.path.join(facts, 'stamp')
        target = os.path.join(cache, 'target')
        if not (os.path.exists(stamp) and open(stamp).read() == h):
            shutil.rmtree(facts, ignore_errors=True)
            os.makedirs(facts)
            for c in ('owned_subslice', 'socket-io-protocol', 'socket-io-client'):
                shutil.rmtree(os.path.join(target, 'debug', 'build', c), ignore_errors=True)
            lock = os.path.join(REPO, 'Cargo.lock')
            had = open(lock, 'rb').read() if os.path.exists(lock) else None
            e = env()
            e.update(CARGO_INCREMENTAL='0', LD_LIBRARY_PATH=sysroot + '/lib', MIRFACTS_DIR=facts, RUSTC_WORKSPACE_WRAPPER=drv,
                     CARGO_TARGET_DIR=target)
            try:
                # a profile of its own makes cargo compile the members anew whatever their timestamps say
                n = 1 + time.time_ns() % 2**30
                members = [a for c in ('owned_subslice', 'socket-io-protocol', 'socket-io-client')
                           for a in ('--config', 'profile.dev.package.%s.codegen-units=%d' % (c, n))]
                run(['cargo', '+nightly', 'check', '--workspace', '--lib', '--offline'] + members, cwd=REPO, env=e)
            finally:
                if had is not None and open(lock, 'rb').read() != had:
                    open(lock, 'wb').write(had)
            for c in ('owned_subslice', 'socket_io_protocol', 'socket_io_client'):
                if not os.path.exists(os.path.join(facts, c + '.json')):
                    raise Broken('no facts for crate ' + c)
            open(stamp, 'w').write(h)
        return facts, target, h


def known(here):
    """{property: {key: what}} of findings recorded as not repaired"""
    out = {}
    p = os.path.join(here, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                _, prop, key, what = line.split(' ', 3)
                out.setdefault(prop.split('=')[1], {})[key.split('=', 1)[1]] = what
    return out


def main(here, argv):
    if argv and argv[0] == '--setup':
        try:
            build(here)
        except Broken as e:
            print('setup failed:', e)
            return 2
        print('setup done')
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        argv.remove('--thorough')
        tier = 'thorough'
    try:
        facts, target, h = build(here)
    except Broken as e:
        print('ERROR: the repository does not build for analysis:', e)
        return 2
    from facts import Prog
    prog = Prog(facts)
    import framework
    for f in sorted(os.listdir(os.path.join(here, 'analysis/checks'))):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('checks.' + f[:-3])
    ids = list(framework.CHECKS) if argv == ['all'] else argv
    kf = known(here)
    rc = 0
    for pid in ids:
        fn = framework.CHECKS[pid]
        t = time.time()
        ctx = framework.Ctx(pid, prog, tier, here, target)
        watch = watchdog(600 if tier == 'quick' else 780)
        try:
            fn(ctx)
            watch.cancel()
        except framework.Missing as e:
            watch.cancel()
            ctx.violation('anchor', 'missing:' + e.args[0], e.args[0])
        except Exception as e:
            watch.cancel()
            import interp
            if isinstance(e, interp.Limit):
                ctx.violation('analysis', 'limit', 'the analysis of this code does not finish: %s' % (e,))
            else:
                traceback.print_exc()
                ctx.violation('analysis', 'unsupported:%s' % type(e).__name__,
                              'the analysis does not understand this code: %r' % (e,))
        rc = max(rc, ctx.finish(h, time.time() - t, kf.get(pid, {})))
    return rc
