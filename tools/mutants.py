#!/usr/bin/env python3
"""Mutation campaign in a scratch directory: tools/mutants.py OUT.jsonl [--per N] [--seed S] [--files re] [--secs T]
Makes random small changes to the library's sources (never in /repo), links each into the check binaries that exercise the file
and records which checks notice it.  Survivors are then looked at by hand: equivalent, outside every property, or a gap."""
import re, os, sys, random, subprocess, json, shutil, argparse
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('--per', type=float, default=8); ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--files', default='.'); ap.add_argument('--secs', type=int, default=20); ap.add_argument('--jobs', type=int, default=8)
a = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = '/tmp/mz'
MAP = [('Stream|Mmap', '01 02'), ('Vfs', '04 03 06 05 25'), ('^Date|^Misc.cc|Error', '28 05 15 14 01'),
 ('archive/Ascii|ArchiveAscii', '07 08 09 26'), ('archive/|Archive.cc', '08 09 07 26 11 10'), ('^Object.cc', '07 12'),
 ('vobs/', '11 10 12 26 30'), ('world/BspTree', '12 18 26 30'), ('World|VobTree|WayNet', '12 18 26 30'),
 ('Mesh.cc$', None), ('SaveGame', '13 30'), ('Cutscene', '14 11 10'), ('Boxes|Material', '15 16 12'),
 ('Texture|texcvt', '19 27 30'), ('ModelScript', '20 27 30'), ('ModelAnim|Morph', '17 18 27 30'), ('DaedalusScript', '21 24 27'),
 ('DaedalusVm', '22 23 24'), ('addon/daedalus', '24'), ('', '16 18 27 30')]
def checks(f):
    for r, c in MAP:
        if re.search(r, f) and not (c is None and f not in ('Mesh.cc',)):
            return (c or '15 16 12 26').split()
OPS = [(r'==', '!='), (r'!=', '=='), (r'(?<![<\w])<(?= )(?!=)', '<='), (r'<=', '<'), (r'(?<= )>(?= )', '>='), (r'>=', '>'),
 (r'&&', '||'), (r'\|\|', '&&'), (r'(?<= )\+(?= )', '-'), (r'(?<= )-(?= )', '+'), (r'(?<= )\*(?= )', '/'), (r'(?<= )/(?= )', '*'),
 (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'!(?=[\w(])', ''), (r'(?<= )&(?= )', '|'), (r'(?<= )\|(?= )', '&'),
 (r'<<', '>>'), (r'>>', '<<'), (r'\+=', '-='), (r'-=', '+='), (r'\|=', '&='), (r'&=', '|='),
 (r'\b(read|write)_ushort', r'\1_short'), (r'\b(read|write)_short', r'\1_ushort'), (r'_ubyte', '_byte'), (r'read_byte', 'read_ubyte'),
 (r'\buint32_t\b', 'uint16_t'), (r'\buint16_t\b', 'uint8_t'), (r'\bint32_t\b', 'int16_t'), (r'\bint32_t\b', 'uint32_t'), (r'\bint16_t\b', 'uint16_t'),
 (r'\bint8_t\b', 'uint8_t'), (r'\buint8_t\b', 'int8_t'), (r'\b(CUR)\b', 'BEG'), (r'\bx\b', 'y'), (r'\by\b', 'z'), (r'\.min\b', '.max'), (r'\bfirst\b', 'second'),
 (r'\bGOTHIC_1\b', 'GOTHIC_2'), (r'\bGOTHIC_2\b', 'GOTHIC_1')]
def cands(src):
    L = src.split('\n'); out = []; blk = False
    for i, l in enumerate(L):
        t = l.strip()
        if '/*' in t: blk = True
        if '*/' in t: blk = False; continue
        if blk or not t or t.startswith(('//', '#', '*', 'ZKLOG', 'namespace', 'using', 'static_assert')): continue
        code = l.split('//')[0]
        for r, n in OPS:
            for m in re.finditer(r, code):
                if code[:m.start()].count('"') % 2: continue
                out.append((i, 'op', code[:m.start()] + m.expand(n) + code[m.end():]))
        for m in re.finditer(r'(?<![\w.])(0x[0-9A-Fa-f]+|\d+)(?=[uU]?\b)(?!\.\d)', code):
            if code[:m.start()].count('"') % 2: continue
            v = int(m.group(1), 0)
            out.append((i, 'const', code[:m.start()] + str(v + 1) + code[m.end():]))
            if v: out.append((i, 'const', code[:m.start()] + str(v - 1) + code[m.end():]))
        if t.endswith(';') and not t.startswith(('}', 'return', 'throw')): out.append((i, 'del', ''))
        if t.startswith('return') and t.endswith(';'): out.append((i, 'del', ''))
        if re.match(r'if \(.*\) \{$', t): out.append((i, 'iftrue', re.sub(r'if \(.*\) \{', 'if (true) {', l))); out.append((i, 'iffalse', re.sub(r'if \(.*\) \{', 'if (false) {', l)))
        if re.match(r'if \(.*\) (return|continue|break|throw).*;$', t): out.append((i, 'iffalse', ''))
        if t.endswith(';') and i + 1 < len(L) and L[i+1].strip().endswith(';') and L[i+1].strip() != t: out.append((i, 'swap', None))
    return L, out
def apply(L, c):
    i, k, n = c; N = list(L)
    if k == 'swap': N[i], N[i+1] = N[i+1], N[i]; d = (L[i].strip(), N[i].strip() + ' // swapped')
    else: N[i] = n; d = (L[i].strip(), n.strip())
    return '\n'.join(N), d
shutil.rmtree(M, ignore_errors=True); os.makedirs(M)
subprocess.check_call(f'cp -r /repo/src /repo/include {V}/lib {V}/props {V}/Makefile {M}/', shell=True)
subprocess.check_call(f'make -s -j8 OUT={M}/build REPO={M} all', shell=True, cwd=M)
flags = '-std=c++20 -O1 -g1 -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -D_ZK_WITH_MMAP=1 -D_ZKEXPORT=1 -DZKNO_REM=1 -w'.split()
SAN = '-fsanitize=address,bounds,return,unreachable,integer-divide-by-zero,vptr -fno-sanitize-recover=all'.split()
files = [os.path.relpath(os.path.join(d, f), M + '/src') for d, _, fs in os.walk(M + '/src') for f in fs if f.endswith('.cc') and 'Win32' not in f and 'Logger' not in f]
rng = random.Random(a.seed); jobs = []
for f in sorted(files):
    if not re.search(a.files, f): continue
    src = open(f'{M}/src/{f}').read(); L, c = cands(src)
    n = min(len(c), max(3, int(len(L) / a.per)))
    for x in rng.sample(c, n): jobs.append((f, L, x))
rng.shuffle(jobs)
print(len(jobs), 'mutants', flush=True)
def run(j):
    idx, (f, L, c) = j
    txt, d = apply(L, c); w = f'{M}/w{idx}'; os.makedirs(w)
    try:
        mf = f'{M}/src/{os.path.dirname(f)}/zzmut{idx}.cc'; open(mf, 'w').write(txt)
        r = subprocess.run(['clang++', *flags, *SAN, f'-I{M}/include', f'-I{M}/src', '-c', mf, '-o', w + '/m.o'], capture_output=True)
        os.unlink(mf)
        res = {'file': f, 'line': c[0] + 1, 'kind': c[1], 'old': d[0], 'new': d[1], 'by': None}
        if r.returncode: res['by'] = 'compile'; return res
        ctx_env = dict(os.environ, PBT_WORKERS='1', VERIF_ROOT=w, OMP_NUM_THREADS='1', VERIF_SEED='1')
        for k in checks(f):
            ex = f'{M}/build/h/sigs.o ' if k == '23' else f'{M}/build/h/alloc.o ' if k in ('26', '27', '30') else ''
            r = subprocess.run(f'clang++ {" ".join(SAN)} -o {w}/c {M}/build/h/C{k}.o {M}/build/h/pbt.o {ex}{w}/m.o -Wl,--allow-multiple-definition {M}/build/libzk.a -lsquish -lpthread', shell=True, capture_output=True)
            if r.returncode: res['by'] = 'link'; return res
            try:
                r = subprocess.run([w + '/c', '--no-evidence', '--seconds', str(a.secs)], cwd=w, env=ctx_env, capture_output=True, timeout=a.secs * 6 + 120)
                if r.returncode: res['by'] = 'C' + k; return res
            except subprocess.TimeoutExpired: res['by'] = 'C' + k + ' timeout'; return res
        return res
    finally: shutil.rmtree(w, ignore_errors=True)
with ThreadPoolExecutor(a.jobs) as ex, open(a.out, 'a') as o:
    n = 0
    for res in ex.map(run, enumerate(jobs)):
        n += 1; o.write(json.dumps(res) + '\n'); o.flush()
        if not res['by']: print(n, res['file'], res['line'], res['kind'], '|', res['old'][:90], '=>', res['new'][:90], flush=True)
