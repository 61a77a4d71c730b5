"""plants the bugs of dev/bugs.py: verifies each in a scratch copy of /repo and writes /verif/seeded/<id>/
usage: plant.py [filter]     (CHECK=1 also runs the check of the property against the patched copy; ALLOW=1 keeps bugs not caught)"""
import json, os, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/jlx-plant'
PRELUDE = r'''#![allow(dead_code, unused_imports)]
use japanese_law_xml_schema::*;
fn doc(main: &str) -> String {
  format!(r#"<Law Era="Heisei" Year="5" Num="3" LawType="Act" Lang="ja"><LawNum>平成五年法律第三号</LawNum><LawBody><LawTitle>例</LawTitle><MainProvision>{main}</MainProvision></LawBody></Law>"#)
}
fn body(parts: &str) -> String {
  format!(r#"<Law Era="Heisei" Year="5" Num="3" LawType="Act" Lang="ja"><LawNum>平成五年法律第三号</LawNum><LawBody><LawTitle>例</LawTitle>{parts}</LawBody></Law>"#)
}
fn para(inner: &str) -> String {
  doc(&format!(r#"<Paragraph Num="1"><ParagraphNum/><ParagraphSentence><Sentence>文。</Sentence></ParagraphSentence>{inner}</Paragraph>"#))
}
fn read(s: &str) -> result::Result<law::Law> {
  parse_xml(s.as_bytes())
}
/// writing what was read and reading it again gives the same law
fn same(s: &str) {
  let a = read(s).expect("the document is read");
  let x = to_xml(&a).expect("the law is written");
  let b = parse_xml(x.as_bytes()).expect("what was written is read");
  assert_eq!(a, b);
}
fn fails(s: &str) {
  assert!(read(s).is_err(), "reading should fail: {s}");
}
fn works(s: &str) {
  if let Err(e) = read(s) {
    panic!("reading should work: {s}: {e:?}")
  }
}
'''
DEMO = '''#!/bin/bash
# builds the program main.rs beside this file against the crate in the current directory and runs it
set -eu
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
japanese_law_xml_schema = { path = "$R" }
%(deps)s[workspace]
EOF
cd "$T"
export CARGO_TARGET_DIR="$T/target"
cargo build -q --offline
cd "$T" && timeout %(limit)d "$T/target/debug/demo"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def fresh():
    if not os.path.exists(W):
        os.makedirs(W)
        sh('cp -a /repo/. %s/' % W)
    sh('git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD && git -C %s checkout -q -- .' % (W, W, W))


def main():
    import bugs
    flt = sys.argv[1] if len(sys.argv) > 1 else ''
    orig = set()
    for b in bugs.BUGS:
        if flt and flt not in b['id']:
            continue
        out = os.path.join(ROOT, 'seeded', b['id'])
        if os.path.exists(out) and not os.environ.get('FORCE'):
            if not flt:
                continue
        fresh()
        msg = None
        for f, old, new in b['edits']:
            n = 0
            if isinstance(old, tuple):
                old, n = old
            p = os.path.join(W, f)
            s = open(p).read()
            if s.count(old) == 0 or (n == 0 and s.count(old) > 1):
                msg = '%s: %d matches of %r' % (f, s.count(old), old[:60])
                break
            i = -1
            for _ in range(max(n, 1)):
                i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
            open(p, 'w').write(s)
        if msg:
            print(b['id'], 'EDIT FAILS', msg)
            continue
        diff = sh('git -C %s diff' % W).stdout
        r = sh('cd %s && cargo test --offline 2>&1 | tail -n 40' % W)
        if 'test result: ok. 10 passed' not in r.stdout:
            print(b['id'], 'TESTS FAIL', r.stdout[-1500:])
            continue
        tmp = '/tmp/jlx-plant-out'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + '/main.rs', 'w').write(PRELUDE + 'fn main() {\n' + b['demo'] + '\n}\n' + b.get('extra', ''))
        open(tmp + '/demo.sh', 'w').write(DEMO % {'deps': b.get('deps', ''), 'limit': b.get('limit', 60)})
        open(tmp + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(tmp + '/meta.json', 'w'), ensure_ascii=False, indent=1)
        bad = sh('cd %s && bash %s/demo.sh' % (W, tmp))
        good = sh('cd /repo && bash %s/demo.sh' % tmp)
        if good.returncode != 0 or bad.returncode == 0 or 'error: could not compile' in bad.stdout:
            print(b['id'], 'DEMO: good', good.returncode, 'bad', bad.returncode, good.stdout[-700:], bad.stdout[-700:])
            continue
        st = sh('git -C /repo status --short').stdout
        res = ''
        if os.environ.get('CHECK', '1') == '1':
            c = sh('cd %s && JLX_REPO=%s timeout 900 python3 analysis/check.py %s' % (ROOT, W, b['prop']))
            res = 'CAUGHT' if c.returncode == 1 and 'VIOLATION property=%s ' % b['prop'] in c.stdout else 'MISSED rc=%d' % c.returncode
            res += ' | ' + ' / '.join(l.strip()[:110] for l in c.stdout.split('\n') if 'violated:' in l or 'UNDECIDED' in l)[:300]
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        print(b['id'], b['prop'], 'planted;', res, ('REPO DIRTY ' + st) if st else '', flush=True)


main()
