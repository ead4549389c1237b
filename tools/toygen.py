"""Runs the repository's two generators on grammars and scanners of our own, and builds the crate
around what they write.

The generator crates are copied to a scratch directory outside the repository; in the copy,
include_str! reads the resource files from the directory VERIF_RESOURCES names, so that one build
serves all inputs.  If that does not compile, the resources of the copy are replaced and the
generators rebuilt for every input (slow, and used only then)."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import vlib

SHADOW = '''
#[allow(unused_macros)]
macro_rules! include_str { ($p:expr $(,)?) => { crate::verif_read($p) } }
#[allow(dead_code)]
fn verif_read(p: &str) -> &'static str {
    let base = p.rsplit('/').next().unwrap();
    let dir = std::env::var("VERIF_RESOURCES").expect("VERIF_RESOURCES");
    Box::leak(std::fs::read_to_string(format!("{dir}/{base}")).expect(base).into_boxed_str())
}
'''
WS = '''[workspace]
resolver = "2"
members = [%s]
[workspace.package]
exclude = []
[profile.dev]
debug = false
incremental = false
opt-level = %d
overflow-checks = true
'''
RESOURCES = {'parser-generator': ['resources/gram.y', 'templates/parser_template.rs'],
             'lexer-generator': ['resources/scan.l', 'resources/kwlist.h', 'templates/lex_template.rs']}
CRATE = 'crates/postgresql-cst-parser'
RUNNER = r'''
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn unhex(s: &str) -> String {
    let v: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(v).unwrap()
}

macro_rules! toy {
    ($m:ident, $c:ident) => {
        mod $m {
            use super::*;
            use ::$c as krate;
            use krate::{NodeOrToken, ParserError};

            fn kinds() -> String {
                let mut v = vec![];
                for k in 0..3000u32 {
                    let r = catch_unwind(|| {
                        let kind: krate::syntax_kind::SyntaxKind = cstree::Syntax::from_raw(cstree::RawSyntaxKind(k));
                        format!("{:?}", kind)
                    });
                    match r {
                        Ok(s) => v.push(esc(&s)),
                        Err(_) => break,
                    }
                }
                format!("[{}]", v.join(","))
            }

            #[cfg(pgcst_verif)]
            fn tables() -> String {
                let (n, t, x, end) = krate::verif_hooks::table_sizes();
                let row = |w: u32, f: &dyn Fn(u32) -> i16| format!("[{}]", (0..w).map(|a| f(a).to_string()).collect::<Vec<_>>().join(","));
                let act: Vec<String> = (0..n).map(|s| row(t, &|a| krate::verif_hooks::action(s, a))).collect();
                let go: Vec<String> = (0..n).map(|s| row(x, &|a| krate::verif_hooks::goto(s, a))).collect();
                let ps: Vec<String> = krate::verif_hooks::productions().iter().map(|(l, n)| format!("[{},{}]", l, n)).collect();
                format!("{{\"n\":{},\"t\":{},\"x\":{},\"end\":{},\"act\":[{}],\"go\":[{}],\"rules\":[{}]}}", n, t, x, end, act.join(","), go.join(","), ps.join(","))
            }

            #[cfg(not(pgcst_verif))]
            fn tables() -> String {
                String::from("{\"n\":0}")
            }

            #[cfg(pgcst_verif)]
            fn tokens(input: &str) -> String {
                match krate::verif_hooks::tokens(input) {
                    Ok((a, _)) => format!("{{\"r\":\"ok\",\"t\":[{}]}}", a.iter().map(|t| format!("[{},{},{}]", esc(&t.0), t.1, t.2)).collect::<Vec<_>>().join(",")),
                    Err(e) => error(&e),
                }
            }

            #[cfg(not(pgcst_verif))]
            fn tokens(_: &str) -> String {
                String::from("{\"r\":\"none\"}")
            }

            fn error(e: &ParserError) -> String {
                match e {
                    ParserError::ParseError { start_byte_pos, end_byte_pos, .. } => format!("{{\"r\":\"parse\",\"s\":{},\"e\":{}}}", start_byte_pos, end_byte_pos),
                    e => format!("{{\"r\":\"scan\",\"m\":{}}}", esc(&format!("{:?}", e))),
                }
            }

            fn walk(n: &krate::ResolvedNode, out: &mut Vec<String>) -> usize {
                let mut k = 0;
                for c in n.children_with_tokens() {
                    match c {
                        NodeOrToken::Node(m) => {
                            let a = walk(m, out);
                            out.push(format!("[2,{},{}]", m.kind() as u32, a));
                            k += 1;
                        }
                        NodeOrToken::Token(t) => {
                            let name = format!("{:?}", t.kind());
                            if name != "Whitespace" && name != "C_COMMENT" && name != "SQL_COMMENT" {
                                k += 1;
                            }
                            let r = t.text_range();
                            out.push(format!("[1,{},{},{}]", t.kind() as u32, u32::from(r.start()), u32::from(r.end())));
                        }
                    }
                }
                k
            }

            fn parse(input: &str) -> String {
                match krate::parse(input) {
                    Ok(t) => {
                        let mut out = vec![];
                        let a = walk(&t, &mut out);
                        format!("{{\"r\":\"ok\",\"top\":{},\"t\":[{}]}}", a, out.join(","))
                    }
                    Err(e) => error(&e),
                }
            }

            pub fn run(cmd: &str, arg: &str) -> String {
                let r = catch_unwind(AssertUnwindSafe(|| match cmd {
                    "kinds" => kinds(),
                    "tables" => tables(),
                    "tokens" => tokens(&unhex(arg)),
                    _ => parse(&unhex(arg)),
                }));
                r.unwrap_or_else(|p| {
                    let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    format!("{{\"r\":\"panic\",\"m\":{}}}", esc(&m))
                })
            }
        }
    };
}
//TOYS

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let lines: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
    let h = std::thread::Builder::new()
        .stack_size(1 << 28)
        .spawn(move || {
            let out = std::io::stdout();
            let mut out = std::io::BufWriter::new(out.lock());
            for l in lines {
                let f: Vec<&str> = l.split('\t').collect();
                let arg = if f.len() > 2 { f[2] } else { "" };
                let r = match f[0] {
                    //ARMS
                    _ => unreachable!(),
                };
                writeln!(out, "{}", r).unwrap();
            }
        })
        .unwrap();
    h.join().unwrap();
}
'''


class Generators:
    """The two generators, built once."""

    def __init__(self, repo=None, opt=1, limit=120):
        self.repo = repo or vlib.REPO
        self.dir = tempfile.mkdtemp(prefix='pgcst-gen-')
        self.shadow = True
        self.opt, self.limit = opt, limit
        self.binary = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def copy(self, where, shadow=True):
        os.makedirs(where, exist_ok=True)
        for c in ('automata', 'parser-generator', 'lexer-generator'):
            shutil.copytree(os.path.join(self.repo, 'crates', c), os.path.join(where, 'crates', c), ignore=shutil.ignore_patterns('target'))
        open(os.path.join(where, 'Cargo.toml'), 'w').write(WS % ('"crates/*"', self.opt))
        lock = os.path.join(self.repo, 'Cargo.lock')
        if os.path.exists(lock):
            shutil.copy(lock, where)
        if shadow:
            for c in ('parser-generator', 'lexer-generator'):
                p = os.path.join(where, 'crates', c, 'src/main.rs')
                lines = open(p).read().split('\n')
                i = 0
                while i < len(lines) and (not lines[i].strip() or lines[i].startswith(('#![', '//'))):
                    i += 1
                open(p, 'w').write('\n'.join(lines[:i]) + SHADOW + '\n'.join(lines[i:]))

    def build(self, where, what=('parser-generator', 'lexer-generator'), release=False):
        cmd = ['cargo', 'build', '--offline'] + (['--release'] if release else [])
        for c in what:
            cmd += ['-p', c]
        rc, out = vlib.sh(cmd, 600, cwd=where, env=vlib.cargo_env({'CARGO_TARGET_DIR': where + '/target'}))
        return rc == 0, out

    def ready(self):
        if self.binary or not self.shadow:
            return
        w = os.path.join(self.dir, 'gen')
        self.copy(w)
        ok, out = self.build(w)
        if ok:
            for c in RESOURCES:
                self.binary[c] = os.path.join(w, 'target/debug', c)
        else:
            self.shadow = False

    def run(self, which, tag, resources, release=False):
        """Run one generator; `resources` replaces the files of these base names.
        Returns (directory with the written files, None) or (None, why)."""
        self.ready()
        d = os.path.join(self.dir, 'run-%s-%s' % (which, tag))
        for s in (CRATE + '/src/lexer', 'crates/parser-generator/src/parser_generator/lexer'):
            os.makedirs(os.path.join(d, s), exist_ok=True)
        for sub in ('lexer', 'lexer.rs'):
            src = os.path.join(self.repo, 'crates/parser-generator/src/parser_generator', sub)
            dst = os.path.join(d, 'crates/parser-generator/src/parser_generator', sub)
            if os.path.isdir(src):
                shutil.copytree(src, dst, dirs_exist_ok=True)
            else:
                shutil.copy(src, dst)
        res = os.path.join(d, 'res')
        os.makedirs(res, exist_ok=True)
        for r in RESOURCES[which]:
            base = os.path.basename(r)
            full = os.path.join(self.repo, 'crates', which, r)
            text = resources.get(base)
            if text is None:
                text = open(full, encoding='utf-8').read()
            for p in (os.path.join(res, base), os.path.join(d, 'crates', which, r)):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w', encoding='utf-8').write(text)
        if self.shadow:
            binary, env = self.binary[which], {'VERIF_RESOURCES': res}
        else:
            w = os.path.join(self.dir, 'gen-' + tag)
            self.copy(w, shadow=False)
            for r in RESOURCES[which]:
                shutil.copy(os.path.join(d, 'crates', which, r), os.path.join(w, 'crates', which, r))
            ok, out = self.build(w, [which])
            if not ok:
                raise vlib.ToolError('the generator does not build:\n' + out[-2000:])
            binary, env = os.path.join(self.dir, 'bin-%s-%s' % (which, tag)), {}
            shutil.copy2(os.path.join(w, 'target/debug', which), binary)
            shutil.rmtree(w, ignore_errors=True)
        # no rustfmt is needed for what only the compiler reads
        stub = os.path.join(self.dir, 'stub')
        if not os.path.isdir(stub):
            os.makedirs(stub, exist_ok=True)
            open(stub + '/rustfmt', 'w').write('#!/bin/sh\nexit 0\n')
            os.chmod(stub + '/rustfmt', 0o755)
        e = dict(os.environ, PATH=stub + ':' + os.environ['PATH'], **env)
        try:
            p = subprocess.run([binary], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=self.limit, text=True, errors='replace')
        except subprocess.TimeoutExpired:
            return None, 'no result within %d s' % self.limit
        if p.returncode != 0:
            m = re.findall(r"panicked at .*\n?.*", p.stdout)
            return None, 'exit %d %s' % (p.returncode, m[-1] if m else p.stdout[-300:])
        return d, None

    def many(self, which, texts, base):
        """Run a generator on many inputs; list of (directory, why)."""
        self.ready()
        with ThreadPoolExecutor(vlib.NCPU if self.shadow else 1) as ex:
            return list(ex.map(lambda kt: self.run(which, str(kt[0]), {base: kt[1]}), enumerate(texts)))


def toy_crates(gen, toys, name='toys', features=()):
    """Build the crate once per toy: toy = (directory with parser files or None, directory with scanner
    files or None).  Returns (binary, hooked, list of those that did not compile)."""
    w = os.path.join(gen.dir, name)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + '/run/src')
    src = os.path.join(gen.repo, CRATE, 'src')
    for k, (pd, ld) in enumerate(toys):
        t = os.path.join(w, 't%d' % k)
        shutil.copytree(src, t + '/src', ignore=shutil.ignore_patterns('bin'))
        if pd:
            for f in ('parser.rs', 'syntax_kind.rs', 'lexer.rs', 'lexer/lexer_ported.rs', 'lexer/util.rs', 'lexer/parser_error.rs'):
                q = os.path.join(pd, CRATE, 'src', f)
                if os.path.exists(q):
                    shutil.copy(q, os.path.join(t, 'src', f))
        if ld:
            shutil.copy(os.path.join(ld, CRATE, 'src/lexer/generated.rs'), t + '/src/lexer/generated.rs')
        # doc tests and unit tests of the crate are about SQL
        open(t + '/Cargo.toml', 'w').write('[package]\nname = "t%d"\nversion = "0.1.0"\nedition = "2021"\n[lib]\ndoctest = false\ntest = false\n[dependencies]\ncstree = { version = "0.12.0", features = ["derive"] }\n'
                                           'regex = { version = "1.10.2", optional = true }\n[features]\ndefault = [%s]\nremove-empty-node = []\nregex-match = ["regex"]\n[lints.rust]\nunexpected_cfgs = "allow"\n' % (k, ','.join('"%s"' % f for f in features)))
    dead = {}
    lock = os.path.join(gen.repo, 'Cargo.lock')
    if os.path.exists(lock):
        shutil.copy(lock, w)
    hooked = True
    for attempt in range(40):
        live = [k for k in range(len(toys)) if k not in dead]
        open(w + '/Cargo.toml', 'w').write(WS % (','.join('"t%d"' % k for k in live) + ', "run"', 1))
        open(w + '/run/Cargo.toml', 'w').write('[package]\nname = "run"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\ncstree = "0.12.0"\n' + ''.join('t%d = { path = "../t%d" }\n' % (k, k) for k in live)
                                               + '[lints.rust]\nunexpected_cfgs = "allow"\n')
        main = RUNNER.replace('//TOYS', '\n'.join('toy!(m%d, t%d);' % (k, k) for k in live))
        main = main.replace('//ARMS', '\n'.join('"%d" => m%d::run(f[1], arg),' % (k, k) for k in live))
        open(w + '/run/src/main.rs', 'w').write(main)
        rc, out = vlib.sh(['cargo', 'build', '--offline', '--keep-going'], 800, cwd=w,
                          env=vlib.cargo_env({'CARGO_TARGET_DIR': w + '/target', 'RUSTFLAGS': '-Awarnings' + (' --cfg pgcst_verif' if hooked else '')}))
        if rc == 0:
            b = os.path.join(gen.dir, name + '.bin')
            shutil.copy2(w + '/target/debug/run', b)
            shutil.rmtree(w, ignore_errors=True)
            return b, hooked, dead
        bad = {int(x) for x in re.findall(r'could not compile `t(\d+)`', out)}
        if hooked and (len(bad) == len(live) or not bad):
            hooked = False
            continue
        if not bad:
            raise vlib.ToolError('the toy crates do not build:\n' + out[-3000:])
        for k in bad:
            m = re.findall(r'(error(?:\[E\d+\])?: .*)\n\s*--> t%d/(.*)' % k, out)
            dead[k] = 'does not compile: %s' % (m[0],) if m else 'does not compile'
        if len(dead) == len(toys):
            return None, hooked, dead
    raise vlib.ToolError('the toy crates do not build')


def ask(binary, lines, timeout=120):
    return vlib.harness(binary, '-', lines, timeout=timeout, lines=True)
