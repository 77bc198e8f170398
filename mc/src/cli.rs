//! The command-line tool, run as a separate process in a scratch directory of its own.
//! Payload: [n] n*([len][argument])  [k] k*([kind][name len][name][len u32][content])

use crate::bind;
use crate::refdec;
use crate::refval;
use std::io::Read;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::OnceLock;

pub const FILE: u8 = 1;
pub const DIR: u8 = 2;
/// A symbolic link; its content is what it points to.
pub const LINK: u8 = 3;

pub fn payload(args: &[&str], files: &[(u8, &str, &[u8])]) -> Vec<u8> {
    raw(&args.iter().map(|a| a.as_bytes()).collect::<Vec<_>>(), &files.iter().map(|(k, n, c)| (*k, n.as_bytes(), *c)).collect::<Vec<_>>())
}
pub fn raw(args: &[&[u8]], files: &[(u8, &[u8], &[u8])]) -> Vec<u8> {
    let mut p = vec![args.len() as u8];
    for a in args { p.push(a.len() as u8); p.extend(*a) }
    p.push(files.len() as u8);
    for (k, n, c) in files { p.push(*k); p.push(n.len() as u8); p.extend(*n); p.extend((c.len() as u32).to_le_bytes()); p.extend(*c) }
    p
}
struct Parsed { args: Vec<OsString>, files: Vec<(u8, OsString, Vec<u8>)> }
fn unpack(p: &[u8]) -> Parsed {
    let mut i = 0;
    let mut take = |n: usize| { i += n; &p[i - n..i] };
    let n = take(1)[0];
    let mut args = vec![];
    for _ in 0..n { let l = take(1)[0] as usize; args.push(OsString::from_vec(take(l).to_vec())) }
    let k = take(1)[0];
    let mut files = vec![];
    for _ in 0..k {
        let kind = take(1)[0];
        let l = take(1)[0] as usize;
        let name = OsString::from_vec(take(l).to_vec());
        let c = u32::from_le_bytes(take(4).try_into().unwrap()) as usize;
        files.push((kind, name, take(c).to_vec()));
    }
    Parsed { args, files }
}
pub fn describe(p: &[u8]) -> String {
    let x = unpack(p);
    format!("args={:?} files={:?}", x.args, x.files.iter().map(|f| format!("{}:{:?}:{}", f.0, f.1, crate::cases::hex(&f.2, 24))).collect::<Vec<_>>())
}

static ROOT: OnceLock<PathBuf> = OnceLock::new();
fn root() -> &'static PathBuf {
    ROOT.get_or_init(|| { let d = std::env::temp_dir().join(format!("mc-cli-{}", std::process::id())); std::fs::create_dir_all(&d).expect("HARNESS: scratch"); d })
}
pub fn cleanup() { if let Some(d) = ROOT.get() { let _ = std::fs::remove_dir_all(d); } }

#[derive(PartialEq, Debug, Clone, Copy)]
enum Want { Args, Read, Parse, Validate, Ok, Printed }

pub fn run(p: &[u8]) -> Result<&'static str, String> {
    let x = unpack(p);
    let dir = root().join(format!("{:?}", std::thread::current().id()).replace(['(', ')'], "-"));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("HARNESS: scratch");
    for (k, n, c) in &x.files {
        if *k == DIR { std::fs::create_dir(dir.join(n)).expect("HARNESS: mkdir") } else if *k == LINK { std::os::unix::fs::symlink(OsStr::from_bytes(c), dir.join(n)).expect("HARNESS: link") } else { std::fs::write(dir.join(n), c).expect("HARNESS: write") }
    }
    let file = x.args.iter().filter(|a| *a != "-p" && *a != "--print").last();
    // what the name leads to is what the system says it leads to
    let content = file.map(|f| if f.is_empty() { None } else { std::fs::read(dir.join(f)).ok() });
    let bin = std::env::var("MC_CLI").expect("HARNESS: MC_CLI not set");
    let mut child = Command::new(bin).args(&x.args).current_dir(&dir).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("HARNESS: spawn");
    let (mut so, mut se) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
    let h = std::thread::spawn(move || { let mut v = vec![]; let _ = se.read_to_end(&mut v); v });
    let mut out = vec![];
    let _ = so.read_to_end(&mut out);
    let err = h.join().unwrap();
    let status = child.wait().expect("HARNESS: wait");
    let _ = std::fs::remove_dir_all(&dir);

    // reference behaviour
    let print = x.args.iter().any(|a| a == "-p" || a == "--print");
    let mut text = String::new();
    let want = match &content {
        None => Want::Args,
        Some(None) if file.unwrap().is_empty() => Want::Args,
        Some(None) => Want::Read,
        Some(Some(c)) => match refdec::module(c) {
            Err(_) => Want::Parse,
            Ok(m) => match refval::module(&m) {
                Err(_) => Want::Validate,
                Ok(_) if print => { text = format!("{:#?}", bind::ast(&m).unwrap()); Want::Printed }
                Ok(_) => Want::Ok,
            },
        },
    };
    let code = match status.code() { Some(c) => c, None => return Err(format!("tool killed: {:?}", status)) };
    let sout = String::from_utf8_lossy(&out).into_owned();
    let all = (sout.clone() + &String::from_utf8_lossy(&err)).to_lowercase();
    let bad = |why: &str| Err(format!("{} (want {:?}, exit {}, output {:?})", why, want, code, &all.chars().take(200).collect::<String>()));
    if (code == 0) != matches!(want, Want::Ok | Want::Printed) { return bad("wrong exit status") }
    if code != 0 && code != 1 { return bad("exit status is neither 0 nor 1") }
    match want {
        Want::Ok => if !all.is_empty() { return bad("output without print flag") },
        Want::Printed => {
            if !sout.contains(&text) { return bad("module not printed as decoded") }
            if !err.is_empty() { return bad("diagnostics on success") }
        }
        Want::Args => if !all.contains("argument") && !all.contains("usage") { return bad("no message about arguments") },
        Want::Read => if !(all.contains("open") || all.contains("read")) { return bad("no message about reading") },
        Want::Parse => if !all.contains("pars") || all.contains("validat") { return bad("no message about parsing") },
        Want::Validate => if !all.contains("validat") || all.contains("parsing") { return bad("no message about validation") },
    }
    if want != Want::Printed && sout.contains("Module {") { return bad("module printed") }
    Ok(match want { Want::Args => "args", Want::Read => "read", Want::Parse => "parse", Want::Validate => "validate", Want::Ok => "ok", Want::Printed => "printed" })
}
