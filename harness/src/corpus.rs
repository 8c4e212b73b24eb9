//! Well-formed documents covering every production the parser knows.
#![allow(dead_code)]
/// one module field each (wrapped in `(module …)`)
pub const FIELDS: &[&str] = &[
    // 0.. types
    "(type (func))",
    "(type $t (func (param i32 i64) (result f32)))",
    "(type $t (func (param $x i32) (param f64) (result v128) (result externref)))",
    // 3.. functions: header
    "(func)",
    "(func $f (export \"a\") (export \"b\"))",
    "(func $f (import \"a\" \"b\") (param i32))",
    "(func (type $t) (param $x i32) (result i32) (local $y i64) (local f32 f64))",
    "(func $f (result i32 i32) (local i32))",
    "(func (param) (result) (local))",
    // 9.. plain instructions
    "(func (i32.add (i32.const 1) (local.get $x)))",
    "(func i32.const 0x1_0 f64.const -1.5e+3 i32.add drop)",
    "(func f32.const nan:0x7f f32.const inf f64.const 0x1.8p1)",
    "(func (i32.load offset=4 align=2 (i32.const 0)))",
    "(func (call_indirect (type $t) (i32.const 0)))",
    "(func (ref.null func) (ref.null extern) (ref.func $f))",
    "(func br_table 0 1 $l)",
    "(func (v128.const i32x4 0 1))",
    // 17.. blocks
    "(func (block $l (result i32) (i32.const 1) (br $l)))",
    "(func block $l (result i32) i32.const 1 br $l end $l)",
    "(func (loop $l (param i32) (nop)))",
    "(func loop $l nop end)",
    "(func (if $l (result i32) (i32.const 1) (then (nop)) (else (drop))))",
    "(func (if (i32.const 1) (then)))",
    "(func i32.const 1 if $l (result i32) nop else $l drop end $l)",
    "(func if nop end)",
    "(func (block (type $t) (loop (block))))",
    // 26.. imports
    "(import \"a\" \"b\" (func $f (type $t) (param i32)))",
    "(import \"a\" \"b\" (func))",
    "(import \"a\" \"b\" (global $g (mut i32)))",
    "(import \"a\" \"b\" (memory $m 1 2 shared))",
    "(import \"a\" \"b\" (table $t 1 2 funcref))",
    // 31.. exports, start
    "(export \"a\" (func $f))",
    "(export \"a\" (table 0))",
    "(export \"a\" (memory $m))",
    "(export \"a\" (global 1))",
    "(start $f)",
    // 36.. globals
    "(global $g (mut i32) (i32.const 1))",
    "(global (export \"a\") i64 (i64.const 1))",
    "(global $g (import \"a\" \"b\") f32)",
    // 39.. memories, data
    "(memory $m 1 2)",
    "(memory 1 2 shared)",
    "(memory $m (import \"a\" \"b\") 1)",
    "(memory (export \"a\") (data \"x\" \"y\"))",
    "(data $d (memory $m) (offset (i32.const 0)) \"a\" \"b\")",
    "(data (i32.const 0) \"a\\\"\\u{1f}\\00\")",
    "(data \"a\")",
    // 46.. tables, elements
    "(table $t 1 2 funcref)",
    "(table (import \"a\" \"b\") 1 externref)",
    "(table (export \"a\") funcref (elem $f 0))",
    "(table funcref (elem (ref.func 0) (item (ref.null func))))",
    "(elem $e (table $t) (offset (i32.const 0)) func $f 1)",
    "(elem (i32.const 0) $f $g)",
    "(elem declare func $f)",
    "(elem funcref (item (ref.func $f)) (ref.null func))",
    "(elem (table 0) (i32.const 0) externref (item ref.null extern))",
    // 55.. several exports, exports before an import, several results of blocks
    "(global $g (export \"a\") (export \"b\") (import \"c\" \"d\") (mut i32))",
    "(memory (export \"a\") (export \"b\") 1)",
    "(table $t (export \"a\") (import \"c\" \"d\") 1 funcref)",
    "(func block (result i32) (result i64) end (loop $l (param i32) (result i32) (result i32)))",
];
pub const V128_FIELD: usize = 16;
/// whole documents
pub const DOCS: &[&str] = &[
    "",
    "(module)",
    "(module $m (func $f) (func $g (call $f)))",
    "(module) (module $b)",
    ";; a\n(module\n  ;; b\n  (func) ;; c\n\n  (; d ;) (func)\n)\n",
    "(module (func (drop (i32.add (i32.const 1)\n  (i32.const 2)))))",
];
pub fn field(i: usize) -> String { let mut s = String::with_capacity(100); s.push_str("(module "); s.push_str(FIELDS[i]); s.push(')'); s }
/// whole documents used where the interplay of several fields matters
pub const BIG: &[&str] = &[
    ";; a\n(module $m\n  ;; b\n  (func $f) ;; c\n\n  (; d ;) (func $g (call $f))\n)\n",
    "(module) (module $b (start 0))\n;; end",
    "(module\n  (func $f (param $x i32) (result i32)\n    (local $y i32)\n    (i32.add (local.get $x) ;; one\n      (local.get $y)))\n  (export \"f\" (func $f)))",
    "(module (func (param i32)\n\n (result i32)\n (block $l (result i32)\n (br $l (i32.const 1)))) (memory 1))",
    "(module (func $f i32.const 1 if (result i32) i32.const 2 else i32.const 3 end drop) (global $g i32 (i32.const 0)) (table 1 funcref))",
];
