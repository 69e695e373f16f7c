#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the planted changes in tools/plants/*.py (developer tool)."""
import os, subprocess, sys, json, shutil, glob, tempfile
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
P = []
def plant(id, prop, needs, breaks, edits, main, features=''):
    P.append((id, prop, needs, breaks, edits, main, features))
for f in sorted(glob.glob(here + '/plants/*.py')):
    exec(open(f).read())
only = set(sys.argv[1:])
for id, prop, needs, breaks, edits, main, features in P:
    if only and id not in only: continue
    d = f'{root}/seeded/{id}'; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(dir='/tmp', prefix='mkp')
    subprocess.run(['git', '-C', t, 'init', '-q'], check=True)
    for f, a, b in edits:
        dst = f'{t}/{f}'
        if not os.path.exists(dst):
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            s = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + f], check=True, capture_output=True, text=True).stdout
            open(dst, 'w').write(s)
            if f.endswith('.sh'): os.chmod(dst, 0o755)
    subprocess.run('git add -A && git -c user.name=x -c user.email=x commit -qm x', shell=True, cwd=t, check=True)
    for f, a, b in edits:
        s = open(f'{t}/{f}').read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(f'{t}/{f}', 'w').write(s.replace(a, b))
    diff = subprocess.run(['git', '-C', t, 'diff'], check=True, capture_output=True, text=True).stdout
    for f, a, b in edits:
        base = subprocess.run(['git', '-C', '/repo', 'show', '91b26e9:' + f], check=True, capture_output=True, text=True).stdout.split('\n')
        rem = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
        new = [l for l in rem if not any(l in subprocess.run(['git', '-C', '/repo', 'show', '91b26e9:' + g], capture_output=True, text=True).stdout.split('\n') for g, _, _ in edits)]
        if new: print('WARNING', id, 'removes lines that are not original:', new)
        if not rem: print('WARNING', id, 'removes no line')
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
    for x in ('demo.sh', 'common.rs', 'Cargo.lock'): shutil.copy(f'{here}/demo/{x}', d)
    if features == 'wasm':
        # the interface of a browser, with stand-ins for what binds it to one
        t2 = open(d + '/demo.sh').read()
        t2 = t2.replace('{ path = "$R" }', '{ path = "$R", features = ["wasm"] }\nwasm-bindgen = { version = "0.2.63", features = ["serde-serialize"] }')
        t2 = t2.replace('[profile.dev]', '[patch.crates-io]\n' + ''.join(f'{x} = {{ path = "$D/stubs/{x}" }}\n' for x in ('wasm-bindgen', 'js-sys', 'console_error_panic_hook')) + '[profile.dev]')
        open(d + '/demo.sh', 'w').write(t2)
        for x in ('wasm-bindgen', 'wasm-bindgen-macro', 'js-sys', 'console_error_panic_hook'):
            for y in ('Cargo.toml', 'src/lib.rs'):
                os.makedirs(os.path.dirname(f'{d}/stubs/{x}/{y}'), exist_ok=True)
                shutil.copy(f'{root}/vendor/{x}/{y}', f'{d}/stubs/{x}/{y}')
    elif features == 'prog':
        # the program itself, as the binary `shipped` beside the demonstration
        t2 = open(d + '/demo.sh').read()
        t2 = t2.replace('{ path = "$R" }', '{ path = "$R" }\nlog = "0.4"\nenv_logger = "0.8"\ninstant = "0.1"')
        t2 = t2.replace('[profile.dev]', '[[bin]]\nname = "demo"\npath = "src/main.rs"\n[[bin]]\nname = "shipped"\npath = "$R/src/main.rs"\n[profile.dev]')
        open(d + '/demo.sh', 'w').write(t2)
    elif features:
        t2 = open(d + '/demo.sh').read()
        assert '{ path = "$R" }' in t2
        open(d + '/demo.sh', 'w').write(t2.replace('{ path = "$R" }', '{ path = "$R", features = ["%s"] }' % features))
    open(d + '/main.rs', 'w').write('mod common;\n#[allow(unused_imports)]\nuse common::*;\n' + main.lstrip('\n'))
    shutil.rmtree(t)
print(len(P), 'plants')
