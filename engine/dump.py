"""Builds the driver and dumps the MIR of harness + scarlet for one property."""
import fcntl
import glob
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
MIRDUMP = os.path.join(BUILD, 'driver', 'release', 'mirdump')


HARNESS = os.path.join(VERIF, 'harness')


def tag(base):
    """name of build output; VAR keeps parallel development runs apart"""
    return base + os.environ.get('VAR', '')


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO') and k not in ('CARGO_HOME',):
            del e[k]
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'MIRDUMP_OUT', 'MIRDUMP_STOP'):
        e.pop(k, None)
    sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, env=e)
    e['LD_LIBRARY_PATH'] = sysroot.stdout.strip() + '/lib'
    return e


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        e = env()
        e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'driver')
        r = subprocess.run(['cargo', '+nightly', 'build', '--offline', '--release', '--quiet'],
                           cwd=os.path.join(VERIF, 'driver'), env=e, capture_output=True, text=True)
        if r.returncode:
            raise SystemExit('driver does not build:\n' + r.stderr)


def fresh(tgt):
    """cargo must not skip the wrapper: drop the records of both crates"""
    os.makedirs(tgt, exist_ok=True)
    for d in ('.fingerprint', 'deps', 'incremental'):
        for n in ('scarlet', 'harness'):
            for f in glob.glob(os.path.join(tgt, '*', d, '*%s-*' % n)):
                shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
    for n in ('scarlet', 'harness'):
        for f in glob.glob(os.path.join(tgt, '*', 'build', n)) + glob.glob(os.path.join(tgt, '*', 'build', n + '-*')):
            shutil.rmtree(f)


def dump(features, out, tag, harness=os.path.join(VERIF, 'harness'), effects=False,
         release=False):
    """MIR of the roots of the given harness features (effects: facts about all of scarlet instead; release: without
    debug assertions and overflow checks);
    raises BuildError with the compiler's message"""
    build_driver()
    tgt = os.path.join(BUILD, 't-' + tag)
    fresh(tgt)
    if os.path.exists(out):
        os.remove(out)
    e = env()
    if effects:
        e['MIRDUMP_EFFECTS'] = out
        e['RUSTC_WRAPPER'] = MIRDUMP
    else:
        e['MIRDUMP_OUT'] = out
        e['RUSTC_WORKSPACE_WRAPPER'] = MIRDUMP
    e['RUSTFLAGS'] = '-Zalways-encode-mir -Awarnings' + (' -Cdebug-assertions=off -Coverflow-checks=off' if release else '')
    e['CARGO_TARGET_DIR'] = tgt
    cmd = ['cargo', '+nightly', 'check', '--offline']
    if features:
        cmd += ['--features', ','.join(features)]
    r = subprocess.run(cmd, cwd=harness, env=e, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        raise BuildError(r.stderr[-6000:])


if __name__ == '__main__':
    if sys.argv[1:2] == ['setup']:
        build_driver()
    else:
        dump(sys.argv[2:] or ['all'], sys.argv[1], 'dev')
