"""Whole-program facts for /repo: run the clang extractor on one umbrella TU and index the result."""
import json, os, subprocess, hashlib, sys, glob, fcntl, shutil
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

class AnalysisError(Exception):
    pass

def ensure_extractor():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'extract-' + h)
    if os.path.exists(exe): return exe
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe
        flags = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
        flags = [f for f in flags if not f.startswith('-std=') and not f.startswith('-O')]
        tmp = exe + '.tmp%d' % os.getpid()
        subprocess.check_call(['g++', '-O1', '-std=c++17', '-fno-rtti', '-w'] + flags +
                              [src, '-o', tmp, '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1', '/usr/lib/llvm-18/lib/libLLVM-18.so'])
        os.rename(tmp, exe)
    return exe

def source_files():
    out = []
    for root, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        if os.path.relpath(root, os.path.join(REPO, 'src')).split(os.sep)[0] in ('test', 'example'): continue
        for f in sorted(fs):
            if f.endswith(('.h', '.hpp')): out.append(os.path.join(root, f))
    return sorted(out)

def load():
    exe = ensure_extractor()
    hdrs = source_files()
    mains = [p for p in (REPO + '/src/main.cpp', REPO + '/src/create_tokenizer.cpp') if os.path.exists(p)]
    compat = '/opt/vp/compat'
    h = hashlib.sha256(exe.encode())
    for f in hdrs + mains + sorted(glob.glob(compat + '/*')):
        if not os.path.isfile(f): continue
        h.update(f.encode()); h.update(hashlib.sha256(open(f, 'rb').read()).digest())
    out = os.path.join(BUILD, 'facts-%s.json' % h.hexdigest()[:24])
    if not os.path.exists(out):
        with open(os.path.join(BUILD, '.lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(out):
                for old in sorted(glob.glob(os.path.join(BUILD, 'facts-*.json')), key=os.path.getmtime)[:-6]: os.unlink(old)
                umb = os.path.join(BUILD, 'umbrella-%d.cpp' % os.getpid())
                with open(umb, 'w') as f:
                    f.write('#include "%s"\n' % mains[0])
                    for x in hdrs: f.write('#include "%s"\n' % x)
                    for m in mains[1:]: f.write('#define main create_tokenizer_main\n#include "%s"\n#undef main\n' % m)
                flags = ['-std=c++17', '-w', '-DNDEBUG', '-include', compat + '/msvc_compat.hpp', '-I' + REPO + '/src/ml',
                         '-I' + REPO + '/src/lang/statements', '-I' + compat, '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
                tmp = out + '.tmp%d' % os.getpid()
                p = subprocess.run([exe, REPO + '/src/', tmp, umb, '--'] + flags, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                os.unlink(umb)
                if p.returncode != 0 or not os.path.exists(tmp):
                    raise AnalysisError('extraction of %s failed:\n%s' % (REPO, p.stdout[-3000:]))
                os.rename(tmp, out)
    return Facts(json.load(open(out)))

STMT_LISTS = ('a', 'c', 't', 'e', 'b', 'i', 'l', 'r', 's', 'init', 'inc', 'cv', 'h', 'v', 'rt', 'ct')

def children(n):
    """direct sub-nodes of an AST node (dicts with 'k')"""
    for key, v in n.items():
        if isinstance(v, dict) and 'k' in v: yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    if 'k' in x: yield x
                    else:
                        for y in children(x): yield y
        elif isinstance(v, dict):
            for y in children(v): yield y
def walk(n, lambdas=True):
    if n is None: return
    if 'k' in n:
        yield n
        if n['k'] == 'lambda' and not lambdas: return
    for c in children(n):
        for x in walk(c, lambdas): yield x

class Facts(object):
    def __init__(s, d):
        s.d = d
        s.fns = {}
        for f in d['functions']:
            f['path'] = d['files'][f['file']] if isinstance(f.get('file'), int) else f.get('file')
            if f['id'] not in s.fns or (s.fns[f['id']].get('body') is None): s.fns[f['id']] = f
        s.files = d['files']
        s.rec = {r['n']: r for r in d['records']}
        s.enums = {e['n']: e for e in d['enums']}
        s.subs = {}
        for r in d['records']:
            for b in r.get('bases', []): s.subs.setdefault(b, []).append(r['n'])
        s.by_n = {}
        s.by_mn = {}
        for f in s.fns.values():
            s.by_n.setdefault(f['n'], []).append(f)
            s.by_mn.setdefault(f['mn'], []).append(f)
        s.overriders = {}
        for f in s.fns.values():
            for o in f.get('over') or []:
                s.overriders.setdefault(o, []).append(f['id'])
        s._vt = {}
    def rel(s, path): return os.path.relpath(path, REPO) if path else '?'
    def loc(s, f, node=None):
        return '%s:%s' % (s.rel(f.get('path')), (node or {}).get('ln') or f.get('ln'))
    def bases(s, cls):
        out = []
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in out: continue
            out.append(c)
            todo += s.rec.get(c, {}).get('bases', [])
        return out
    def derived(s, cls, strict=False):
        out = [] if strict else [cls]
        todo = list(s.subs.get(cls, []))
        while todo:
            c = todo.pop(0)
            if c in out: continue
            out.append(c); todo += s.subs.get(c, [])
        return out
    def is_a(s, cls, base): return base in s.bases(cls)
    def abstract(s, cls): return bool(s.rec.get(cls, {}).get('abs'))
    def concrete(s, base): return [c for c in s.derived(base) if c in s.rec and not s.abstract(c)]
    def methods(s, cls): return [f for f in s.fns.values() if f.get('cls') == cls]
    def sig(s, f):
        return (f['mn'], tuple(norm_t(p['t']) for p in f['params']))
    def resolve(s, fid, cls):
        """final overrider of virtual function fid in concrete class cls"""
        k = (fid, cls)
        if k in s._vt: return s._vt[k]
        r = None
        f = s.fns.get(fid)
        tail = fid[fid.rindex('(') if '(' in fid else 0:]
        # walk from most derived up
        name = f['mn'] if f else fid[:fid.index('(')].split('::')[-1]
        ps = tuple(norm_t(p['t']) for p in f['params']) if f else None
        for c in s.bases(cls):
            for m in s.methods_of(c):
                if m['mn'] == name and not m.get('ctor') and (ps is None or s.sig(m)[1] == ps) and m.get('body') is not None:
                    r = m; break
            if r: break
        s._vt[k] = r
        return r
    def methods_of(s, cls):
        if not hasattr(s, '_mof'):
            s._mof = {}
            for f in s.fns.values():
                if f.get('cls'): s._mof.setdefault(f['cls'], []).append(f)
        return s._mof.get(cls, [])
    def method(s, cls, mn, nparams=None):
        """member function named mn visible in cls (own or inherited), with a body"""
        for c in s.bases(cls):
            for m in s.methods_of(c):
                if m['mn'] == mn and m.get('body') is not None and (nparams is None or len(m['params']) == nparams): return m
        return None
    def ctors(s, cls): return [m for m in s.methods_of(cls) if m.get('ctor') and m.get('body') is not None]
    def targets(s, call, cls=None):
        """possible repo callees of a call node"""
        fid = call.get('fn')
        if not fid: return []
        if call['k'] == 'mcall' and call.get('virt'):
            f = s.fns.get(fid)
            out = []
            base = call.get('cls')
            seen = set()
            for c in s.derived(base) if base in s.rec else []:
                m = s.resolve(fid, c)
                if m and m['id'] not in seen: seen.add(m['id']); out.append(m)
            return out
        f = s.fns.get(fid)
        return [f] if f else []

def norm_t(t):
    return (t or '').replace('const ', '').replace(' &', '').replace('&&', '').replace(' const', '').strip()
