"""Plants bugs in a scratch copy of /repo, checks that they compile, pass the tests and are shown by their
demonstration, and writes them to /verif/seeded/<id>/."""
import os, subprocess, shutil, json, sys
SCRATCH = '/tmp/seedwork'
REPO = f'{SCRATCH}/repo'
OUT = '/verif/seeded'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', PATH='/root/.cargo/bin:' + os.environ['PATH'], CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')

# ---- wasm building -------------------------------------------------------------------------
def u(n):
    o = b''
    while True:
        b = n & 0x7F; n >>= 7
        if n: o += bytes([b | 0x80])
        else: return o + bytes([b])
def s(n):
    o = b''
    while True:
        b = n & 0x7F; n >>= 7
        if (n == 0 and not b & 0x40) or (n == -1 and b & 0x40): return o + bytes([b])
        o += bytes([b | 0x80])
I32, I64, F32, F64 = 0x7F, 0x7E, 0x7D, 0x7C
def vec(xs): return u(len(xs)) + b''.join(xs)
def name(x):
    if isinstance(x, str): x = x.encode()
    return u(len(x)) + x
def sec(i, body): return bytes([i]) + u(len(body)) + body
def ft(p=(), r=()): return b'\x60' + u(len(p)) + bytes(p) + u(len(r)) + bytes(r)
def code(body, locals=()):
    b = vec([u(n) + bytes([t]) for n, t in locals]) + bytes(body) + b'\x0b'
    return u(len(b)) + b
PRE = b'\0asm\1\0\0\0'
def mod(types=None, imports=None, funcs=None, tables=None, mems=None, globals=None, exports=None, start=None, elems=None, codes=None, datas=None):
    o = PRE
    for i, x in ((1, types), (2, imports), (3, funcs and [u(f) for f in funcs]), (4, tables), (5, mems), (6, globals), (7, exports)):
        if x: o += sec(i, vec(x))
    if start is not None: o += sec(8, u(start))
    for i, x in ((9, elems), (10, codes), (11, datas)):
        if x: o += sec(i, vec(x))
    return o
def fn(body, p=(), r=(), locals=(), **k):
    """A module of one function."""
    return mod(types=[ft(p, r)], funcs=[0], codes=[code(body, locals)], **k)
MEM = [b'\x00\x01']
TAB = [b'\x70\x00\x01']

# ---- demonstrations ------------------------------------------------------------------------
HEAD = '#!/bin/bash\n# Run in /repo after the build. Exit 0: behaves as it should. Anything else: it does not.\nhere=$(cd "$(dirname "$0")" && pwd)\n'
TOOL = '''build=$(mktemp -d) || exit 9
trap 'rm -rf "$build"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
cargo build --offline -p parser --target-dir "$build" > "$build/log" 2>&1 || { cat "$build/log"; exit 8; }
tool="$build/debug/parser"
'''
def cli(*cases):
    """Each case: (bytes, expected exit[, args before the file[, text that must be printed[, text that must not]]])"""
    files, sh = {}, HEAD + TOOL + 'bad=0\n'
    for i, c in enumerate(cases):
        c = tuple(c) + (None,) * (5 - len(c))
        f = f'case{i}.wasm'
        files[f] = c[0]
        sh += f'out=$(timeout 60 "$tool" {c[2] or ""} "$here/{f}" 2>&1); rc=$?\n'
        sh += f'[ $rc -eq {c[1]} ] || {{ echo "{f}: exit $rc instead of {c[1]}"; bad=1; }}\n'
        if c[3]: sh += f"grep -qF -- '{c[3]}' <<<\"$out\" || {{ echo '{f}: output lacks {c[3]}'; bad=1; }}\n"
        if c[4]: sh += f"grep -qF -- '{c[4]}' <<<\"$out\" && {{ echo '{f}: output has {c[4]}'; bad=1; }}\n"
    return files, sh + 'exit $bad\n'
def rust(code_):
    main = 'use whasm::binary::*; use whasm::binary::core::vec::*; #[allow(unused_imports)] use whasm::structure::{module, instr, ty, idx};\n#[allow(unused_imports)] use whasm::validation::ValidationEntry;\n#[allow(dead_code)] fn b(x: &[u8]) -> std::iter::Copied<std::slice::Iter<\'_, u8>> { x.iter().copied() }\nfn main() {\n' + code_ + '\n}\n'
    toml = '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2018"\n[dependencies]\nwhasm = { path = "REPO/whasm" }\n[workspace]\n'
    sh = HEAD + '''d=$(mktemp -d) || exit 9
trap 'rm -rf "$d"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
mkdir "$d/src"
sed "s|REPO|$PWD|" "$here/demo.toml" > "$d/Cargo.toml"
cp "$here/demo.rs" "$d/src/main.rs"
cargo build --offline --manifest-path "$d/Cargo.toml" --target-dir "$d/target" > "$d/log" 2>&1 || { cat "$d/log"; exit 8; }
timeout 120 "$d/target/debug/demo"
'''
    return {'demo.rs': main.encode(), 'demo.toml': toml.encode()}, sh
def script(body, files=None):
    return dict(files or {}), HEAD + TOOL + body

# ---- planting ------------------------------------------------------------------------------
SEEDS = []
W = 'whasm/src/'
def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append((id, prop, edits, demo, needs, breaks))

def run(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')

def reset():
    run(['git', 'checkout', '-q', '--', '.'], REPO); 
def prepare():
    shutil.rmtree(SCRATCH, ignore_errors=True); os.makedirs(SCRATCH)
    subprocess.check_call(['cp', '-a', '/repo', REPO])
def build(): return run(['cargo', 'build', '--workspace', '--offline'], REPO)
def plant(id, prop, edits, demo, needs, breaks):
    d = f'{OUT}/{id}'
    reset()
    for f, old, new in edits:
        p = f'{REPO}/{f}'
        t = open(p).read()
        n = 1
        if isinstance(old, tuple): old, n = old
        if t.count(old) < 1 or (n == 1 and t.count(old) != 1): return f'edit does not apply ({t.count(old)}): {f}: {old[:60]}'
        if n == 1: t = t.replace(old, new)
        else: # n-th occurrence, counted from 1 with a negative sign
            parts = t.split(old); k = -n
            t = old.join(parts[:k]) + new + old.join(parts[k:])
        open(p, 'w').write(t)
    diff = run(['git', 'diff'], REPO).stdout
    # lines removed must be original
    base = {}
    for f, _, _ in edits:
        base[f] = subprocess.run(['git', 'show', f'7c32994:{f}'], cwd='/repo', stdout=subprocess.PIPE, text=True).stdout.splitlines()
    cur = None
    for l in diff.splitlines():
        if l.startswith('--- a/'): cur = l[6:]
        elif l.startswith('-') and not l.startswith('---') and l[1:] not in base[cur]: return f'changes a line that is not original: {l}'
    b = build()
    if b.returncode: return 'does not compile:\n' + b.stdout[-1500:]
    t = run(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline'], REPO)
    if t.returncode: return 'tests fail:\n' + '\n'.join(l for l in t.stdout.splitlines() if 'FAILED' in l or 'panicked' in l)[:800]
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    files, sh = demo
    for f, c in files.items(): open(f'{d}/{f}', 'wb').write(c)
    open(f'{d}/demo.sh', 'w').write(sh); os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1); open(f'{d}/meta.json', 'a').write('\n')
    r = run(['bash', f'{d}/demo.sh'], REPO, 400)
    reset(); b = build()
    c = run(['bash', f'{d}/demo.sh'], REPO, 400)
    if c.returncode != 0: shutil.rmtree(d); return f'demo fails on the clean tree ({c.returncode}): {c.stdout[-500:]}'
    if r.returncode == 0: shutil.rmtree(d); return 'demo does not show the bug'
    if r.returncode in (8, 9): shutil.rmtree(d); return 'demo broken: ' + r.stdout[-1500:]
    return None

def main():
    want = sys.argv[1:]
    prepare()
    bad = 0
    for sd in SEEDS:
        if want and sd[0] not in want: continue
        if not want and os.path.exists(f'{OUT}/{sd[0]}/patch.diff'): continue
        e = plant(*sd)
        print(sd[0], sd[1], 'OK' if e is None else 'BAD ' + e, flush=True)
        bad += e is not None
    shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.exit(1 if bad else 0)
