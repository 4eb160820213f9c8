#!/usr/bin/env python3
"""Small changes all over the library, made mechanically (development only; no check uses it).

mutate.py list                      prints the number of mutants per file
mutate.py run K N OUT [FILE...]     every N-th mutant from the K-th: builds, passes the tests? then: caught?
Run it through iso.sh: it edits /repo. OUT (JSON lines) is continued when it exists.
"""
import json, os, re, subprocess, sys, random

FILES = ['shogi_core/src/' + f for f in 'bitboard color common game_resolution hand illegal_move_kind legality lib mv piece piece_kind position square to_usi annotated_derive'.split()]
FILES = [f + '.rs' for f in FILES] + ['shogi_core_c/src/no_std.rs', 'include/shogi_core.h']

SUBS = [
    (r'==', ['!=']), (r'!=', ['==']), (r'<=', ['<', '==']), (r'>=', ['>', '==']),
    (r'(?<![<\-=])<(?![<=])(?= )', ['<=', '>']), (r'(?<= )(?<![>\-=])>(?![>=])(?= )', ['>=', '<']),
    (r'&&', ['||']), (r'\|\|(?! *\{)(?=[^|]*[^|{]$)', ['&&']),
    (r'(?<= )\+(?= )', ['-', '|']), (r'(?<= )-(?= )', ['+']), (r'(?<= )\*(?= )', ['+']), (r'(?<= )/(?= )', ['%', '*']), (r'(?<= )%(?= )', ['/']),
    (r'<<(?!=)', ['>>']), (r'(?<= )>>(?= )', ['<<']),
    (r'(?<= )&(?= )', ['|', '^']), (r'(?<= )\|(?= )', ['&', '^']), (r'(?<= )\^(?= )', ['|', '&']),
    (r'\+=', ['-=']), (r'-=', ['+=']), (r'&=', ['|=']), (r'\|=', ['&=', '^=']), (r'\^=', ['|=']), (r'>>=', ['<<=']), (r'<<=', ['>>=']),
    (r'\.\.=', ['..']), (r'(?<=[\w)\]])\.\.(?![=.])(?=[\w(])', ['..=']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'!(?=[a-z(*])', ['']),
    (r'\bif (?!let)(?=.*\{)', ['if !']), 
    (r'\bBlack\b', ['White']), (r'\bWhite\b', ['Black']),
    (r'\bwrapping_add\b', ['wrapping_sub', 'saturating_add']), (r'\bwrapping_sub\b', ['wrapping_add', 'saturating_sub']),
    (r'\bchecked_sub\b', ['checked_add']), (r'\bchecked_add\b', ['checked_sub']),
    (r'\btrailing_zeros\b', ['leading_zeros']), (r'\bleading_zeros\b', ['trailing_zeros']), (r'\bcount_ones\b', ['count_zeros']),
    (r'\bself\b(?=\.(file|rank|0)\b)', ['(!self)']),
    (r'\bSome\((?!.*=>)(.*)\)(?=$|;|,)', ['None']),
    (r'\bmin\b', ['max']), (r'\bmax\b', ['min']),
    (r'\.flip\(\)', ['']), (r'\.unpromote\(\)', ['.promote()']), (r'\.promote\(\)', ['.unpromote()']),
    (r'\bfrom\b(?=[,)\]])', ['to']), (r'\bto\b(?=[,)\]])', ['from']),
    (r'\bfile\b(?=[,)\]; ])', ['rank']), (r'\brank\b(?=[,)\]; ])', ['file']),
    (r'\bself\b(?=[,)])', ['other', 'rhs']), (r'\bother\b', ['self']), (r'\brhs\b', ['self']),
    (r'\bOk\(\(\)\)', ['Err(Default::default())']),
    (r"b'(.)'", ["b'?'"]),
    (r'\binner\b', ['initial']), (r'\binitial\b', ['inner']),
    (r'\bu8\b', ['i8', 'u16']), (r'\bu16\b', ['i16', 'u8']), (r'\bu64\b', ['u32']), (r'\bi8\b', ['u8']), (r'\bu128\b', ['u64']), (r'\busize\b', ['u8', 'u16']), (r'\bi32\b', ['i8']),
    (r'\bexact\b', ['']),
]
HSUBS = [(r'\buint8_t\b', ['int8_t', 'uint16_t']), (r'\buint16_t\b', ['int16_t', 'uint32_t']), (r'\buint64_t\b', ['uint32_t']), (r'\bbool\b', ['int']), (r'\bconst struct', ['struct']),
         (r'\bstruct Position\b', ['struct PartialPosition']), (r'\bint8_t\b', ['uint8_t'])]
INT = re.compile(r'(?<![\w.\'"])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)((?:u|i)(?:8|16|32|64|128|size))?(?![\w"\'])')

def mutants_of(path):
    src = open('/repo/' + path).read()
    lines = src.split('\n')
    out = []
    header = path.endswith('.h')
    stop = len(lines)
    for i, l in enumerate(lines):
        if l.startswith('#[cfg(test)]'): stop = i; break
        if 'verif_hooks' in l and path.endswith('no_std.rs'): stop = i; break
    seen = set()
    def add(i, new, what):
        if new != lines[i] and (i, new) not in seen:
            seen.add((i, new)); out.append({'file': path, 'line': i, 'old': lines[i], 'new': new, 'what': what})
    incomment = False
    for i, l in enumerate(lines[:stop]):
        s = l.strip()
        if '/*' in s: incomment = '*/' not in s; continue
        if incomment:
            if '*/' in s: incomment = False
            continue
        if not s or s.startswith('//') or s.startswith('#') and not header or s.startswith('use ') or s.startswith('assert') or s.startswith('debug_assert'): continue
        if header and s.startswith('#') and 'define' not in s: continue
        code = l.split(' //')[0]
        for m in INT.finditer(code):
            t = m.group(1).replace('_', '')
            v = int(t, 0)
            for w in (v + 1, v - 1):
                if w >= 0:
                    add(i, code[:m.start(1)] + (hex(w) if t.startswith('0x') else bin(w) if t.startswith('0b') else str(w)) + code[m.end(1):], f'{v}->{w}')
        for pat, reps in (HSUBS if header else SUBS):
            for m in re.finditer(pat, code):
                for r in reps:
                    add(i, code[:m.start()] + r + code[m.end():], f'{m.group(0)} -> {r}')
        if s.endswith(';') and not s.startswith(('let ', 'return', 'type ', 'pub type', 'const ', 'pub const', 'static', 'mod ', 'pub mod', '}')):
            # Statements on one line.
            add(i, '', 'deleted')
        if header: continue
        if s.endswith('{') and 'fn ' in s or s.startswith('fn '): pass
        if re.match(r'(Self::|Some|[A-Z]\w+::|\d+|_)[^=]*=> .*,$', s):
            add(i, '', 'arm deleted')
        if s.endswith('?;'):
            add(i, re.sub(r'\?;', ';', code), '? dropped')
        # Early returns.
    return out

def allm(files=None):
    r = []
    for f in files or FILES:
        r += mutants_of(f)
    return r

def sh(cmd, timeout=900, cwd='/repo', env=None):
    e = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', CARGO_INCREMENTAL='1', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_PROFILE_DEV_DEBUG='line-tables-only', PATH='/root/.cargo/bin:' + os.environ['PATH'])
    e.update(env or {})
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return -9, 'timeout'

ORDER = {
 'hand': 'C13', 'bitboard': 'C10 C11 C12', 'color': 'C15 C14', 'game_resolution': 'C18', 'illegal_move_kind': 'C18', 'legality': 'C17', 'mv': 'C08 C14 C16', 'piece': 'C14 C15 C08', 'piece_kind': 'C14 C15', 'position': 'C01 C03 C05 C06 C16 C18 C07', 'square': 'C15 C14', 'to_usi': 'C08', 'common': 'C06 C08', 'no_std': 'C20 C21', 'shogi_core': 'C19',
}
ALLC = ['C%02d' % i for i in range(1, 26)]

def main():
    if sys.argv[1] == 'list':
        ms = allm()
        from collections import Counter
        for k, v in Counter(m['file'] for m in ms).items(): print(v, k)
        print(len(ms)); return
    if sys.argv[1] == 'show':
        for m in allm([sys.argv[2]]): print(m['line'] + 1, m['what'], '|', m['new'].strip())
        return
    k, n, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    ms = allm(sys.argv[5:] or None)
    random.Random(7).shuffle(ms)
    ms = ms[k::n]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l); done.add((d['file'], d['line'], d['new']))
    for m in ms:
        if (m['file'], m['line'], m['new']) in done: continue
        p = '/repo/' + m['file']
        orig = open(p).read()
        lines = orig.split('\n')
        assert lines[m['line']] == m['old']
        lines[m['line']] = m['new']
        open(p, 'w').write('\n'.join(lines))
        try:
            m['result'] = judge(m)
        finally:
            open(p, 'w').write(orig)
        with open(out, 'a') as f: f.write(json.dumps(m) + '\n')
        print(m['result'], m['file'], m['line'] + 1, m['what'], '|', m['new'].strip(), flush=True)

def judge(m):
    T = '/repo/target'
    c, o = sh(f'CARGO_TARGET_DIR={T} cargo check -q --workspace --all-features --offline --locked', 120)
    if c: return 'no build'
    c, o = sh(f'CARGO_TARGET_DIR={T} cargo test -q --workspace --all-features --offline --locked', 120)
    if c: return 'test'
    c, o = sh('bash /opt/vp/build.sh', 300)
    if c: return 'no build'
    c, o = sh('bash /opt/vp/test.sh /tmp/mt-%d.json' % os.getpid(), 300)
    base = json.load(open('/opt/vp/BASELINE.json'))
    st = set(base.get('passed') or base.get('stable') or base.get('pass') or [])
    r = json.load(open('/tmp/mt-%d.json' % os.getpid()))
    if not st <= set(r['passed']): return 'test'
    # The monitors, briefly.
    first = ORDER.get(os.path.basename(m['file']).split('.')[0], 'C01').split()
    H = '/repo/target/mut'
    if m['file'].startswith('shogi_core/'):
        c, o = sh(f'RUSTFLAGS=--cap-lints=allow CARGO_TARGET_DIR={H} cargo build -q --offline --bin harness', 300, '/verif/harness')
        if c == 0:
            for p in first + [x for x in ALLC[:18] if x not in first]:
                c, o = sh(f'{H}/debug/harness run {p} --seed 1 --cases 3000 --threads 4 --time 20', 100)
                if c in (1, 70): return 'caught ' + p
    rest = 'C16 C22 C23 C19 C05'.split() if m['file'].startswith('shogi_core/') else 'C19 C20 C21 C25'.split()
    rest = [x for x in rest if x not in first]
    for p in first + rest:
        c, o = sh(f'python3 check.py {p} --tier quick', 1500, '/verif', {'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
        if c == 1: return 'caught ' + p + ' (full)'
        if c != 0: m.setdefault('odd', []).append([p, c, o[-300:]])
    return 'MISSED'

main()
