"""mk(id, prop, [(file, old, new)...], needs, breaks, body): writes /verif/seeded/<id> from replacements made in the scratch copy."""
import os, subprocess, json, shutil
WT = '/tmp/wt'
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
def mk(id, prop, edits, needs, breaks, body):
    if not os.path.isdir(WT): sh('cp -a /repo ' + WT)
    sh(f'git -C {WT} fetch -q /repo HEAD && git -C {WT} checkout -q -f FETCH_HEAD')
    for f, old, new in edits:
        p = os.path.join(WT, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old[:60])
        open(p, 'w').write(s.replace(old, new))
    d = f'/verif/seeded/{id}'; os.makedirs(d, exist_ok=True)
    diff = sh(f'git -C {WT} diff').stdout
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    sh(f'git -C {WT} checkout -q -- .')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    main = 'mod h;\nuse h::*;\n#[allow(unused_imports)]\nuse htp::config::Config;\nfn main() {\n' + body.strip('\n') + '\n}\n'
    if body.startswith('mod h'): main = body
    open(d + '/main.rs', 'w').write(main)
    for f in ('demo.sh', 'h.rs'): shutil.copy('/verif/tools/demo/' + f, d + '/' + f)
    r = sh(f'bash /verif/tools/seed.sh {id}')
    print(r.stdout.strip(), r.stderr[-300:], flush=True)
