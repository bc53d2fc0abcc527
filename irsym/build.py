"""Builds the harness crate against /repo's working tree: LLVM IR for the engine, binaries for replay."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(ROOT, 'h')
OUT = os.path.join(ROOT, '.build')
IRFLAGS = ('--emit=llvm-ir -Ccodegen-units=1 -Zshare-generics=no '
           '-Zmir-enable-passes=-CheckAlignment,-CheckNull --cap-lints allow')
CFG = {
    'def': ['--no-default-features', '--features', 'alloc'],
    'vmem': ['--no-default-features', '--features', 'vmem'],
    'none': ['--no-default-features'],
}


class BuildError(Exception):
    pass


def env(**kw):
    e = dict(os.environ, RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true')
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS', 'VP_PROP'):
        e.pop(k, None)
    e.update(kw)
    return e


def cargo(args, **kw):
    p = subprocess.run(['cargo'] + args, cwd=H, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True)
    if p.returncode:
        errs = []
        for l in p.stdout.splitlines():
            if l.startswith('{'):
                m = json.loads(l)
                if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
                    errs.append(m['message']['rendered'])
        raise BuildError('\n'.join(errs) or p.stderr[-4000:])
    arts = []
    for l in p.stdout.splitlines():
        if l.startswith('{'):
            m = json.loads(l)
            if m.get('reason') == 'compiler-artifact':
                arts.append(m)
    return arts


def ir(cfg):
    """paths of the .ll files of mutringbuf, its dependencies and the harness crate"""
    d = os.path.join(OUT, 'ir-' + cfg)
    arts = cargo(['build', '--lib', '--message-format=json'] + CFG[cfg], RUSTFLAGS=IRFLAGS, CARGO_TARGET_DIR=d)
    out = []
    for m in arts:
        if m['target']['kind'] == ['custom-build'] or 'proc-macro' in m['target']['kind']:
            continue
        dirs = {}
        for f in m['filenames']:
            dirs[os.path.dirname(f)] = os.path.basename(f)
        hit = []
        for dd, base in dirs.items():
            stem = base.split('.')[0]
            stem = stem[3:] if stem.startswith('lib') else stem
            p = os.path.join(dd, stem + '.ll')
            if os.path.exists(p):
                hit.append(p)
        if not hit:
            # older layout: deps/<name>-<hash>.ll next to the rlib; else search
            for dd in dirs:
                for q in os.listdir(dd):
                    if q.endswith('.ll') and q.startswith(m['target']['name'].replace('-', '_')):
                        hit.append(os.path.join(dd, q))
        if not hit:
            raise BuildError('no IR found for %s' % m['target']['name'])
        out += hit
    return out


FLAVOURS = ('dev', 'release', 'asan', 'miri')


# schedules tried by Miri for a counterexample with threads
SEEDS = {'threads': '-Zmiri-many-seeds=0..48 -Zmiri-preemption-rate=0.1',
         'threads-more': '-Zmiri-many-seeds=0..600 -Zmiri-preemption-rate=0.3'}


def replay_cmd(cfg, flavour, miriflags=''):
    """command prefix running the replay binary"""
    if flavour in SEEDS:
        return replay_cmd(cfg, 'miri', SEEDS[flavour])
    d = os.path.join(OUT, 'rp-%s-%s' % (cfg, flavour))
    if flavour == 'dev':
        arts = cargo(['build', '--bin', 'replay', '--message-format=json'] + CFG[cfg], CARGO_TARGET_DIR=d, RUSTFLAGS='--cap-lints allow')
    elif flavour == 'release':
        arts = cargo(['build', '--release', '--bin', 'replay', '--message-format=json'] + CFG[cfg], CARGO_TARGET_DIR=d, RUSTFLAGS='--cap-lints allow')
    elif flavour == 'asan':
        arts = cargo(['build', '--bin', 'replay', '--target', 'x86_64-unknown-linux-gnu', '--message-format=json'] + CFG[cfg],
                     CARGO_TARGET_DIR=d, RUSTFLAGS='-Zsanitizer=address --cap-lints allow')
    else:
        return (['cargo', 'miri', 'run', '-q', '--bin', 'replay'] + CFG[cfg] + ['--'],
                env(CARGO_TARGET_DIR=d,
                    MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks ' + miriflags))
    for m in arts:
        if m['target']['name'] == 'replay' and m.get('executable'):
            return [m['executable']], env(ASAN_OPTIONS='detect_leaks=0:exitcode=99')
    raise BuildError('replay binary not built')


def replay(cfg, flavour, prop, h, args, tape, timeout=240, extra_env=None):
    """-> (outcome, text); outcome: violation / ok / other"""
    cmd, e = replay_cmd(cfg, flavour)
    if prop:
        e = dict(e, VP_PROP=prop)
    if extra_env:
        e.update(extra_env)
    try:
        p = subprocess.run(cmd + [h, ','.join(map(str, args)), tape], cwd=H, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout', 'no result within %d s' % timeout
    out = p.stdout.strip().splitlines()
    last = out[-1] if out else ''
    if p.returncode == 101 and 'REPLAY-VIOLATION' in p.stdout:
        return 'violation', [l for l in out if 'REPLAY-VIOLATION' in l][-1]
    if flavour == 'asan' and p.returncode == 99:
        for l in p.stderr.splitlines():
            if 'ERROR: AddressSanitizer' in l:
                return 'violation', l.strip()
    if flavour in SEEDS and 'REPLAY-VIOLATION' in p.stdout:
        return 'violation', [l for l in out if 'REPLAY-VIOLATION' in l][-1]
    if flavour in ('miri', *SEEDS) and p.returncode == 1:
        for l in p.stderr.splitlines():
            if l.startswith('error: Undefined Behavior') or 'error: memory leaked' in l:
                return 'violation', 'miri: ' + l.strip()
    if p.returncode < 0:
        return 'violation', 'killed by signal %d' % -p.returncode
    if p.returncode == 0 and 'REPLAY-OK' in last:
        return 'ok', last
    return 'other', 'exit %d: %s | %s' % (p.returncode, last, p.stderr.strip()[-600:])


def write_tape(path, header, tape):
    with open(path, 'w') as f:
        for l in header:
            f.write('# %s\n' % l)
        for it in tape:
            if it[0] == 'v':
                f.write('v %d   # %s\n' % (it[1], it[2]))
            else:
                f.write(' '.join(map(str, ['a', it[1]] + list(it[2]))) + '\n')
