#!/usr/bin/env python3
"""Development aid (no check uses it): plants a bug in a scratch copy, confirms it and keeps it under seeded/.

usage: plant.py SPECS.py [ID...]    SPECS.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=rust source of main.rs)]
"""
import json, os, subprocess, sys, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# exit 0: the property holds in this example; builds a small program against the crate in the current directory
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)"
trap 'rm -rf -- "$w"' EXIT
mkdir -p "$w/src"
sed "s#REPO/#$repo/#" "$here/demo.rs" > "$w/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
eastl-rs = { path = "$repo" }
moveit = "0.6.0"
duplicate = "2.0"
[profile.dev]
debug = 0
incremental = false
T
cd "$w" && CARGO_TARGET_DIR="$w/target" timeout 280 cargo run -q --offline
'''

KIT = r'''
#[allow(dead_code)]
mod kit {
    use eastl_rs::allocator::Allocator;
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local! { pub static BLOCKS: RefCell<HashMap<usize, (usize, usize)>> = RefCell::new(HashMap::new()); pub static LIVE: RefCell<i64> = RefCell::new(0); }
    /// checks that blocks are given back once, as they were allocated
    #[derive(Default, Clone)]
    pub struct Count;
    unsafe impl Allocator for Count {
        fn allocate_raw_aligned(&mut self, size: usize, align: usize) -> *mut () {
            let l = std::alloc::Layout::from_size_align(size, align).unwrap();
            let p = unsafe { std::alloc::alloc(l) };
            BLOCKS.with(|b| b.borrow_mut().insert(p as usize, (size, align)));
            p.cast()
        }
        unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), size: usize, align: usize) {
            let r = BLOCKS.with(|b| b.borrow_mut().remove(&(p as usize)));
            if r != Some((size, align)) { println!("block given back as {:?}, was {:?}", (size, align), r); std::process::exit(1); }
            std::alloc::dealloc(p.cast(), std::alloc::Layout::from_size_align(size, align).unwrap());
        }
    }
    pub fn no_blocks() { let n = BLOCKS.with(|b| b.borrow().len()); if n != 0 { println!("{} blocks leaked", n); std::process::exit(1); } }
    /// counts live elements
    #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct El(pub Box<i32>);
    pub fn el(i: i32) -> El { LIVE.with(|l| *l.borrow_mut() += 1); El(Box::new(i)) }
    impl Clone for El { fn clone(&self) -> El { el(*self.0) } }
    impl Drop for El { fn drop(&mut self) { LIVE.with(|l| *l.borrow_mut() -= 1); } }
    pub fn live(n: i64) { let k = LIVE.with(|l| *l.borrow()); if k != n { println!("{} elements are alive, not {}", k, n); std::process::exit(1); } }
    pub fn check(b: bool, what: &str) { if !b { println!("{}", what); std::process::exit(1); } }
}
#[allow(unused_imports)]
use kit::*;
'''


def sh(cmd, cwd, env=None):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    only = sys.argv[2:]
    w = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    repo = w + '/repo'
    sh(['cp', '-a', '/repo', repo], '/')
    tests = json.load(open('/opt/vp/BASELINE.json'))
    for b in g['BUGS']:
        if only and b['id'] not in only:
            continue
        sh(['git', 'checkout', '-q', '--', '.'], repo)
        d = tempfile.mkdtemp(dir=w)
        open(d + '/demo.sh', 'w').write(DEMO)
        open(d + '/demo.rs', 'w').write(b['demo'] + (KIT if 'kit' not in b or b['kit'] else ''))
        r0 = sh(['bash', d + '/demo.sh'], repo)
        if r0.returncode:
            print(b['id'], 'demo fails on the unchanged tree\n', r0.stdout[-1500:]); continue
        bad = False
        for f, old, new in b['edits']:
            t = open(repo + '/' + f).read()
            if t.count(old) != 1:
                print(b['id'], 'anchor occurs', t.count(old), 'times:', old); bad = True; break
            open(repo + '/' + f, 'w').write(t.replace(old, new))
        if bad:
            continue
        p = sh(['git', 'diff'], repo).stdout
        r1 = sh(['bash', d + '/demo.sh'], repo)
        if r1.returncode == 0:
            print(b['id'], 'demo passes with the change'); continue
        if 'error[' in r1.stdout or 'could not compile' in r1.stdout:
            print(b['id'], 'does not compile\n', r1.stdout[-1500:]); continue
        r2 = sh(['cargo', 'test', '--offline', '-q'], repo, {'CARGO_TARGET_DIR': w + '/t'})
        if r2.returncode:
            print(b['id'], 'the test suite fails\n', r2.stdout[-1500:]); continue
        o = H + '/seeded/' + b['id']
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(p)
        for x in ('demo.sh', 'demo.rs'):
            shutil.copy(d + '/' + x, o + '/' + x)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        # does the check catch it?
        props = [b['property']] + b.get('also', [])
        for p in props:
            r = sh(['bin/check', p], H, {'VF_REPO': repo})
            l = [x for x in r.stdout.splitlines() if 'VIOLATION' in x or 'undecided' in x or 'failed:' in x]
            f = [x.split('failed: ')[1] for x in l if 'failed: ' in x]
            by = ('contract: ' + f[0].split(' (line')[0] if f else 'execution') if r.returncode == 1 else 'not caught'
            m = json.load(open(o + '/meta.json'))
            m['caught_by'] = '; '.join(y for y in (m.get('caught_by'), (p + ' ' if len(props) > 1 else '') + by) if y)
            json.dump(m, open(o + '/meta.json', 'w'), indent=1)
            print(b['id'], p, 'demo: %s' % r1.stdout.strip().splitlines()[-1:], '->', 'CAUGHT' if r.returncode == 1 else 'rc=%d' % r.returncode, '\n   ', '\n    '.join(x[:200] for x in l[:6]), flush=True)
    shutil.rmtree(w)


main()
