#!/usr/bin/env python3
"""Decides one property: builds the library symbolically instrumented from /repo, lets the driver explore every harness of the
property with the solver, replays counterexamples (and samples of passing paths) on an ordinary build, writes the evidence.

usage: check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--setup]
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CACHE = os.path.join(BUILD, 'cache')
T0 = time.time()
NCPU = os.cpu_count() or 8
REPO_DEFS = ['-DNDEBUG', '-fvisibility=hidden', '-DCHRONO_UTILITIES_TIMESPAN_INTEGER_SCALE_OVERLOADS',
             '-DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER', '-DTAG_PARSER_STATIC', '-std=gnu++17', '-w']
SYS_INC = ['-isystem', '/usr/include/martchus-c++utilities']
PAUSE = 'argsToString;DiagMessage'


class Broken(Exception):
    pass


def sh(cmd, env=None, nice=0, timeout=None):
    e = dict(os.environ)
    e.update(env or {})
    if nice:
        cmd = ['nice', '-n', str(nice)] + cmd
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout, text=True, errors='replace')


def must(cmd, **kw):
    r = sh(cmd, **kw)
    if r.returncode:
        raise Broken('command failed: %s\n%s' % (' '.join(cmd), (r.stdout + r.stderr)[-6000:]))
    return r.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:32]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def sources():
    txt = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    m = re.search(r'set\(SRC_FILES\s+(.*?)\)', txt, re.S)
    return [s for s in m.group(1).split() if s.endswith('.cpp') and os.path.exists(os.path.join(REPO, s))]


def headers_digest():
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(REPO)):
        ds[:] = sorted(x for x in ds if x not in ('.git', '_build', 'build', 'testfiles', 'tests'))
        for f in sorted(fs):
            if f.endswith('.h'):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b'\0' + read(p))
    return h.hexdigest()


def gen_headers():
    g = os.path.join(BUILD, 'gen')
    os.makedirs(os.path.join(g, 'resources'), exist_ok=True)
    link = os.path.join(g, 'tagparser')
    if not os.path.islink(link) or os.readlink(link) != REPO:
        if os.path.islink(link):
            os.unlink(link)
        os.symlink(REPO, link)
    put(os.path.join(g, 'tagparser-definitions.h'), '#ifndef TAG_PARSER_DEFINITIONS\n#define TAG_PARSER_DEFINITIONS\n#endif\n')
    ver = re.findall(r'set\(META_VERSION_(MAJOR|MINOR|PATCH) (\d+)\)', open(os.path.join(REPO, 'CMakeLists.txt')).read())
    v = dict(ver)
    vs = '.'.join(v.get(k, '0') for k in ('MAJOR', 'MINOR', 'PATCH'))
    put(os.path.join(g, 'resources', 'config.h'),
        '#ifndef TAG_PARSER_CONFIG\n#define TAG_PARSER_CONFIG\n#define PROJECT_NAME "tagparser"\n#define APP_NAME "Tag Parser"\n'
        '#define APP_VERSION "%s"\n#define APP_AUTHOR "Martchus"\n#define APP_URL "https://github.com/Martchus/tagparser"\n'
        '#define APP_CREDITS ""\n#define APP_DESCRIPTION "C++ library for reading and writing tags"\n#define APP_INSTALL_PREFIX "/usr/local"\n'
        '#define PROJECT_CONFIG_NAME ""\n#define PROJECT_VARNAME "TAG_PARSER"\n#endif\n' % vs)
    put(os.path.join(g, 'resources', 'version.h'),
        '#ifndef TAG_PARSER_VERSION\n#define TAG_PARSER_VERSION_MAJOR %s\n#define TAG_PARSER_VERSION_MINOR %s\n#define TAG_PARSER_VERSION_PATCH %s\n'
        '#define TAG_PARSER_VERSION_STR "%s"\n#define TAG_PARSER_VERSION_CHECK(a, b, c) ((a << 16) | (b << 8) | (c))\n'
        '#define TAG_PARSER_VERSION TAG_PARSER_VERSION_CHECK(TAG_PARSER_VERSION_MAJOR, TAG_PARSER_VERSION_MINOR, TAG_PARSER_VERSION_PATCH)\n#endif\n'
        % (v.get('MAJOR', '0'), v.get('MINOR', '0'), v.get('PATCH', '0'), vs))
    iso = os.path.join(g, 'resources', 'iso_language_codes.h')
    script = os.path.join(REPO, 'cmake/scripts/generate_iso_language_codes.cmake')
    lang = '/usr/share/iso-codes/json/iso_639-2.json'
    key = digest(read(script), read(lang))
    stamp = iso + '.key'
    if not (os.path.exists(iso) and os.path.exists(stamp) and open(stamp).read() == key):
        must(['cmake', '-DLANGUAGE_FILE=' + lang, '-DOUTPUT_PATH=' + iso, '-DLANGUAGE_FILE_ISO_639_2=' + lang, '-P', script])
        put(stamp, key)
    return g


def put(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, 'w') as f:
        f.write(text)


class Builder:
    def __init__(self, tier):
        os.makedirs(CACHE, exist_ok=True)
        self.tier = tier
        self.gen = gen_headers()
        self.hd = headers_digest()
        self.inc = ['-I', self.gen, '-I', REPO] + SYS_INC
        E = os.path.join(VERIF, 'engine')
        self.E = E
        jobs = {}
        with cf.ThreadPoolExecutor(4) as ex:
            jobs['pass'] = ex.submit(self.obj_cached, 'sxpass.so', [E + '/sxpass.cpp', E + '/sxproto.h', E + '/sxeval.h'],
                                     ['g++', '-std=c++17', '-fPIC', '-shared', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE',
                                      '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', E + '/sxpass.cpp'])
            jobs['rt'] = ex.submit(self.obj_cached, 'sxrt.o', [E + '/sxrt.cpp', E + '/sxproto.h', E + '/sxeval.h', E + '/sx.h'],
                                   ['clang++', '-std=gnu++17', '-O2', '-c', E + '/sxrt.cpp'])
            jobs['driver'] = ex.submit(self.obj_cached, 'sxdriver', [E + '/sxdriver.cpp', E + '/sxproto.h', E + '/sxeval.h'],
                                       ['g++', '-std=c++17', '-O2', E + '/sxdriver.cpp', '-lz3', '-lpthread'])
            jobs['native'] = ex.submit(self.obj_cached, 'sxnative.o', [E + '/sxnative.cpp', E + '/sx.h'],
                                       ['g++', '-std=gnu++17', '-O1', '-g1', '-c', E + '/sxnative.cpp'])
            self.tools = {k: j.result() for k, j in jobs.items()}
        self.passkey = digest(read(E + '/sxpass.cpp'), read(E + '/sxproto.h'), read(E + '/include/bits/c++config.h'), read(E + '/include/sxoverflow.h'), PAUSE)
        self.tierdef = ['-DSX_THOROUGH=%d' % (tier == 'thorough')]

    def obj_cached(self, name, deps, cmd, env=None, nice=0, extra=''):
        key = digest(' '.join(cmd), extra, *[read(d) for d in deps])
        out = os.path.join(CACHE, key + '.' + name)
        if os.path.exists(out):
            try:
                os.utime(out)
            except OSError:
                pass
            return out
        tmp = '%s.%d.%d.tmp' % (out, os.getpid(), threading.get_ident())
        must(cmd + ['-o', tmp], env=env, nice=nice)
        os.replace(tmp, out)
        return out

    def sx_cmd(self):
        return ['clang++', '-isystem', self.E + '/include', '-include', self.E + '/include/sxoverflow.h', '-O1', '-g1', '-fno-vectorize', '-fno-slp-vectorize', '-fsanitize=address',
                '-fsanitize-address-use-after-return=never', '-fpass-plugin=' + self.tools['pass']] + REPO_DEFS + self.inc

    def lib_obj(self, src, native=False, nice=0):
        p = os.path.join(REPO, src)
        name = src.replace('/', '_')[:-4] + ('.nat.o' if native else '.sx.o')
        if native:
            cmd = ['g++', '-O1', '-g1', '-fsanitize=address'] + REPO_DEFS + self.inc + ['-c', p]
            return self.obj_cached(name, [p], cmd, nice=nice, extra=self.hd)
        cmd = self.sx_cmd() + ['-c', p]
        return self.obj_cached(name, [p], cmd, env={'SX_PAUSE': PAUSE}, extra=self.hd + self.passkey)

    def model_deps(self):
        r = []
        for d in ('models', 'harness'):
            for f in sorted(os.listdir(os.path.join(VERIF, d))):
                if f.endswith('.h'):
                    r.append(os.path.join(VERIF, d, f))
        return r + [self.E + '/sx.h']

    def own_obj(self, path, native=False, defs=()):
        deps = [path] + self.model_deps()
        vi = ['-I', self.E, '-I', VERIF + '/models', '-I', VERIF + '/harness'] + self.tierdef + list(defs)
        name = os.path.basename(path)[:-4]
        if native:
            cmd = ['g++', '-O1', '-g1', '-fsanitize=address'] + REPO_DEFS + self.inc + vi + ['-c', path]
            return self.obj_cached(name + '.nat.o', deps, cmd, extra=self.hd)
        cmd = self.sx_cmd() + vi + ['-c', path]
        return self.obj_cached(name + '.sx.o', deps, cmd, env={'SX_PAUSE': PAUSE}, extra=self.hd + self.passkey)

    def archive(self, objs, name):
        a = os.path.join(BUILD, name)
        if os.path.exists(a):
            os.unlink(a)
        must(['ar', 'crsT', a] + objs)
        return a

    def link(self, out, objs, lib, native):
        a = self.archive(lib, os.path.basename(out) + '.a') if lib else None
        if native:
            cmd = ['g++', '-fsanitize=address', '-o', out] + objs + [self.tools['native']] + ([a] if a else [])
        else:
            cmd = ['clang++', '-fsanitize=address', '-o', out] + objs + [self.tools['rt']] + ([a] if a else [])
        cmd += ['-Wl,--trace', '-lmartchus-c++utilities', '-lz', '-ldl', '-lpthread']
        r = sh(cmd)
        used = set(os.path.basename(x) for x in re.findall(r'[^\s()]+\.o', r.stdout))
        return r, used


HINTS = os.path.join(VERIF, 'harness', 'deps.json')


def load_hints():
    try:
        return json.load(open(HINTS))
    except (OSError, ValueError):
        return {}


def harness_file(pid):
    return os.path.join(VERIF, 'harness', pid + '.cpp')


def parse_harnesses(path):
    r = []
    opts = {}
    text = open(path).read()
    for line in text.split('\n'):
        m = re.match(r'//@\s*(.*)', line)
        if m:
            for kv in m.group(1).split():
                k, _, v = kv.partition('=')
                opts[k] = v or '1'
        m = re.match(r'SX_HARNESS\((\w+)\)', line)
        if m:
            r.append((m.group(1), opts))
            opts = {}
    facts = re.findall(r'^//! *(bound|assume|outside): *(.*)$', text, re.M)
    return r, facts, text


def build_sx(b, pid, text):
    srcs = sources()
    models = ['model_cppu.cpp', 'model_sys.cpp', 'model_fs.cpp']
    hints = [s for s in load_hints().get(pid, []) if s in srcs]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        hf = ex.submit(b.own_obj, harness_file(pid))
        ms = [ex.submit(b.own_obj, os.path.join(VERIF, 'models', m)) for m in models]
        big = lambda s: -os.path.getsize(os.path.join(REPO, s))
        ls = {s: ex.submit(b.lib_obj, s) for s in sorted(hints or srcs, key=big)}
        objs = [hf.result()] + [m.result() for m in ms]
        lib = {s: f.result() for s, f in ls.items()}
    out = os.path.join(BUILD, 'sx_' + pid)
    r, used = b.link(out, objs, list(lib.values()), False)
    if r.returncode and hints:
        with cf.ThreadPoolExecutor(NCPU) as ex:
            ls = {s: ex.submit(b.lib_obj, s) for s in sorted(srcs, key=big)}
            lib = {s: f.result() for s, f in ls.items()}
        r, used = b.link(out, objs, list(lib.values()), False)
    if r.returncode:
        raise Broken('link failed:\n' + (r.stderr)[-4000:])
    tus = sorted(s for s, o in lib.items() if os.path.basename(o) in used)
    if os.environ.get('SX_WRITE_HINTS'):
        h = load_hints()
        h[pid] = tus
        json.dump(h, open(HINTS, 'w'), indent=0, sort_keys=True)
    return out, tus


def build_native(b, pid, text, tus, nice=0, workers=NCPU):
    srcs = sources()
    model = '@fs=model' in text
    with cf.ThreadPoolExecutor(workers) as ex:
        hf = ex.submit(b.own_obj, harness_file(pid), True)
        fs = ex.submit(b.own_obj, os.path.join(VERIF, 'models', 'model_fs.cpp' if model else 'fs_native.cpp'), True)
        big = lambda s: -os.path.getsize(os.path.join(REPO, s))
        ls = [ex.submit(b.lib_obj, s, True, nice) for s in sorted(tus, key=big)]
        objs = [hf.result(), fs.result()]
        lib = [f.result() for f in ls]
    out = os.path.join(BUILD, 'native_' + pid)
    r, used = b.link(out, objs, lib, True)
    if r.returncode:
        with cf.ThreadPoolExecutor(workers) as ex:
            lib = [f.result() for f in [ex.submit(b.lib_obj, s, True, nice) for s in srcs]]
        r, used = b.link(out, objs, lib, True)
    if r.returncode:
        raise Broken('native link failed:\n' + r.stderr[-4000:])
    return out


def replay(exe, harness, hexin):
    try:
        r = sh([exe, harness, hexin], timeout=200)
    except subprocess.TimeoutExpired:
        return 5, 'timeout'
    code = r.returncode
    out = r.stdout.strip()
    err = r.stderr.strip()
    if code == 7:
        m = re.search(r'AddressSanitizer: (.*)', err)
        fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (.*)', err)
        out += '\nmemory error: ' + (m.group(1) if m else '?') + ''.join('\n   ' + f for f in fr[:6])
    return code, out


REPLAY_KIND = {1: 'assertion', 2: 'uncaught exception', 5: 'does not finish', 6: 'crash', 7: 'memory error'}


def load_known():
    p = os.path.join(VERIF, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def main():
    args = sys.argv[1:]
    tier = 'quick'
    only = None
    pids = []
    novalidate = False
    i = 0
    while i < len(args):
        if args[i] == '--tier':
            i += 1
            tier = args[i]
        elif args[i] == '--only':
            i += 1
            only = args[i]
        elif args[i] == '--no-validate':
            novalidate = True
        elif args[i] == '--setup':
            Builder('quick')
            print('tools built')
            return 0
        else:
            pids.append(args[i])
        i += 1
    pid = pids[0]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    hs, facts, text = parse_harnesses(harness_file(pid))
    if only:
        hs = [h for h in hs if h[0] in only.split(',')]
    # another run of the same check must not share output files
    b = Builder(tier)
    exe, tus = build_sx(b, pid, text)
    build_s = time.time() - T0
    res = {}
    total_cap = 540 if tier == 'quick' else 6 * 3600
    slots = threading.Semaphore(NCPU)
    order = sorted(hs, key=lambda h: -float(h[1].get(tier, h[1].get('quick', '30'))))
    native = {}

    def bg_native():
        try:
            native['exe'] = build_native(b, pid, text, tus, nice=15, workers=4)
        except Exception as e:  # noqa
            native['err'] = e

    nt = None
    if not novalidate:
        nt = threading.Thread(target=bg_native)
        nt.start()
    gate = threading.Lock()

    def run_one(h):
        name, o = h
        n = min(NCPU, int(o.get('threads', '2')))
        with gate:
            for _ in range(n):
                slots.acquire()
        try:
            q = float(o.get('quick', '30'))
            budget = q if tier == 'quick' else float(o.get('thorough', str(q * 10)))
            left = total_cap - (time.time() - T0)
            if left < 5:
                return name, None
            budget = min(budget, left)
            out = os.path.join(BUILD, 'out_%s_%s.json' % (pid, name))
            if os.path.exists(out):
                os.unlink(out)
            cmd = [b.tools['driver'], '--exe', exe, '--harness', name, '--threads', str(n), '--budget', str(budget), '--query-timeout', o.get('qto', '8000'),
                   '--run-timeout', o.get('runto', '10'), '--enum-cap', o.get('cap', '300'), '--seed', str(seed), '--out', out]
            r = sh(cmd, timeout=budget + 300)
            if not os.path.exists(out):
                raise Broken('driver failed on %s: %s' % (name, r.stderr[-2000:]))
            return name, json.load(open(out))
        finally:
            for _ in range(n):
                slots.release()

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for name, r in ex.map(run_one, order):
            res[name] = r
    known = load_known()
    mine = [f for f in known.get('findings', []) if f['property'] == pid]
    need_native = bool(mine) or any(r and r['violations'] for r in res.values())
    if nt:
        nt.join()
    elif need_native:
        bg_native()
    if 'err' in native:
        raise native['err']
    nat = native.get('exe')
    violations, notes, known_lines = [], [], []
    # known findings: the recorded input still fails?
    for f in mine:
        if only and f['harness'] not in only.split(','):
            continue
        code, out = replay(nat, f['harness'], f['input'])
        if code in REPLAY_KIND and re.search(f['match'], out):
            known_lines.append('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
        else:
            notes.append('known finding no longer reproduces: %s' % f['what'])

    def is_known(name, out):
        return any(f['harness'] == name and re.search(f['match'], out) for f in mine)

    unrep = 0
    for name, o in hs:
        r = res.get(name)
        if not r:
            continue
        seen = set()
        for v in r['violations']:
            if (v['kind'], v['message']) in seen:
                continue
            code, out = replay(nat, name, v['input'])
            if code in REPLAY_KIND:
                seen.add((v['kind'], v['message']))
                if is_known(name, out):
                    continue
                violations.append({'property': pid, 'harness': name, 'kind': REPLAY_KIND[code], 'engine': v['kind'] + ': ' + v['message'], 'input': v['input'],
                                   'vars': v['vars'], 'native': out[-3000:]})
            else:
                unrep += 1
                notes.append('not reproduced natively (%s): %s %s: %s input %s' % (code, name, v['kind'], v['message'], v['input']))
    # samples of passing paths must behave the same in the ordinary build
    validated = mismatched = 0
    samples = []
    if nat and not novalidate:
        todo = []
        for name, o in hs:
            r = res.get(name)
            if r:
                k = 16 if tier == 'thorough' else max(2, min(8, 40 // max(1, len(hs))))
                todo += [(name, s) for s in r['samples'][:k]]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            outs = list(ex.map(lambda t: replay(nat, t[0], t[1]['input']), todo))
        for (name, s), (code, out) in zip(todo, outs):
            reached = set(re.findall(r'^reach (.*)$', out, re.M))
            if code == 0 and reached == set(s['reach']):
                validated += 1
            else:
                if code in REPLAY_KIND and not is_known(name, out):
                    violations.append({'property': pid, 'harness': name, 'kind': REPLAY_KIND[code] + ' (sample replay)', 'engine': 'passed', 'input': s['input'],
                                       'vars': s['vars'], 'native': out[-3000:]})
                mismatched += 1
                notes.append('sample of %s behaves differently natively (%s): %s; engine reached %s; input %s' % (name, code, out[-300:], s['reach'], s['input']))
            if len(samples) < 12:
                samples.append({'harness': name, 'values': s['vars'], 'reached': s['reach'], 'native_exit': code})
    # evidence
    syms = sh(['nm', '-C', '--defined-only', exe]).stdout
    funcs = sorted(set(m.group(1) for m in re.finditer(r' [TtWw] (TagParser::[^\n]*)', syms)))
    tot = lambda k: sum((r or {}).get(k, 0) for r in res.values())
    per = {}
    for name, o in hs:
        r = res.get(name)
        per[name] = None if not r else {k: r[k] for k in ('paths', 'ok', 'assume', 'limit', 'resource', 'timeout', 'violating_paths', 'pending', 'solver_queries', 'sat',
                                                         'unsat', 'unknown', 'cached', 'byte_domain', 'enum_cap', 'sym_asserts', 'asserts_proved', 'bounds_proved', 'lost_runs',
                                                         'sampled_runs', 'max_vars', 'solver_s', 'wall_s', 'complete', 'exhaustive', 'reach', 'lost', 'limits', 'diverged')}
        need = o.get('reach', '').split(',') if o.get('reach') else []
        for lab in need:
            if r and lab not in r['reach']:
                notes.append('harness %s did not reach "%s"' % (name, lab))
    evid = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('paths'), 'transitions': tot('solver_queries') + tot('cached') + tot('byte_domain'),
            'traces_validated_against_impl': validated, 'samples': samples or [{'note': 'no passing path with symbolic branches'}],
            'exhaustive': bool(res) and all(r and r['exhaustive'] for r in res.values()),
            'meaning': 'states = distinct symbolic paths run to the end through the instrumented code; transitions = branch/assert alternatives decided by the solver '
                       '(queries + cached + exact byte-domain evaluation); traces_validated = samples of passing paths replayed on an ordinary g++/ASan build against the real '
                       'c++utilities and real files with the same outcome and the same labels reached',
            'asserts_proved_on_paths': tot('asserts_proved'), 'address_bounds_proved': tot('bounds_proved'), 'solver_queries': tot('solver_queries'),
            'sat': tot('sat'), 'unsat': tot('unsat'), 'unknown': tot('unknown'), 'solver_s': round(tot('solver_s'), 2),
            'translation_units_encoded': tus, 'functions_encoded': len(funcs), 'functions_sample': funcs[:: max(1, len(funcs) // 60)],
            'harnesses_exhaustive': sorted(n for n, r in res.items() if r and r['exhaustive']),
            'harnesses_not_exhaustive': sorted(n for n, r in res.items() if not (r and r['exhaustive'])),
            'harnesses': per, 'bounds': [t for k, t in facts if k == 'bound'], 'outside': [t for k, t in facts if k == 'outside'],
            'not_reproduced': unrep, 'sample_mismatches': mismatched, 'notes': notes, 'known_findings': known_lines, 'build_s': round(build_s, 1),
        },
        'assumptions': [t for k, t in facts if k == 'assume'] + [
            'c++utilities, zlib, clock and file system replaced by the models in /verif/models while exploring (replays use the real ones)',
            'values of the solver (Z3) are trusted; clang IR at -O1 stands for the source'],
        'wall_s': round(time.time() - T0, 2), 'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', pid + '.json')
    json.dump(evid, open(path, 'w'), indent=1)
    for n in notes:
        print('NOTE ' + n)
    for l in known_lines:
        print(l)
    for name, r in sorted(res.items()):
        if r:
            print('%-34s paths %-6d asserts-proved %-6d queries %-6d solver %.1fs wall %.1fs%s%s' % (
                name, r['paths'], r['asserts_proved'], r['solver_queries'], r['solver_s'], r['wall_s'], ' exhaustive' if r['exhaustive'] else '',
                '' if r['exhaustive'] else ' [%s]' % ' '.join('%s=%s' % (k, r[k]) for k in ('pending', 'unknown', 'diverged', 'limit', 'resource', 'timeout', 'enum_cap',
                                                                                              'lost_runs', 'sampled_runs') if r[k])))
    rc = 0
    for k, v in enumerate(violations):
        rp = os.path.join(VERIF, 'evidence', '%s.violation%d.json' % (pid, k))
        v['replay_cmd'] = '%s %s %s' % (nat, v['harness'], v['input'])
        json.dump(v, open(rp, 'w'), indent=1)
        print('violated in harness %s: %s (%s)\n  input %s\n  %s' % (v['harness'], v['engine'], v['kind'], json.dumps(v['vars'])[:600], v['native'].replace('\n', '\n  ')[-1200:]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    print('%s %s: %d harnesses, %d paths, build %.0fs, total %.0fs -> %s' % (pid, tier, len(hs), tot('paths'), build_s, time.time() - T0, 'VIOLATED' if rc else 'held'))
    return rc


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Broken as e:
        print('check could not run: %s' % e)
        sys.exit(2)
