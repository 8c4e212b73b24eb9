use crate::sym::*;
use crate::common::*;

pub fn svc_probe() {
    warm();
    reach("warm");
    let mut s = service();
    let n = param(0, 1) as usize;
    let mut name = String::new();
    for _ in 0..n { name.push(byte(b'a', b'c') as char); }
    let src = format!("(module (func $a) (func $b (call ${name})))");
    note(&src);
    s.commit(uri(), src.clone());
    let d = diags(&s);
    let undef = d.iter().any(|d| d.message.starts_with("cannot find"));
    check(undef == !(name == "a" || name == "b"), "undef iff");
    reach("end");
}
