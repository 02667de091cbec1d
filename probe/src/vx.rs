//! Vocabulary understood by the abstract interpreter (see engine/src/nat.rs).
//! The bodies are never used.
#![allow(unused_variables)]

/// A fresh unknown of type T, identified by (name, i, j).
pub fn sym<T>(name: &str, i: usize, j: usize) -> T { loop {} }
/// An unknown integer in lo..=hi.
pub fn int(name: &str, lo: usize, hi: usize) -> usize { loop {} }
pub fn byte(name: &str, i: usize) -> u8 { loop {} }
/// An arbitrary hexadecimal digit character, and the value of one.
pub fn hexchar(i: usize) -> u8 { loop {} }
pub fn hexval(c: u8) -> u64 { loop {} }
/// Obligation: the two values are equal for all values of the unknowns.
pub fn eq<T>(label: &str, i: usize, a: &T, b: &T) { loop {} }
pub fn ok(label: &str, b: bool) { loop {} }
pub fn int_eq(label: &str, a: usize, b: usize) { loop {} }
pub fn assume(b: bool) { loop {} }
/// Obligation: the value depends on the named unknown.
pub fn depends<T>(label: &str, v: &T, name: &str) { loop {} }
/// Obligation: the value is exactly one draw of the random source.
pub fn is_draw<T>(label: &str, v: &T) { loop {} }
/// The next draws of a field element from the random source are these values.
pub fn feed<T>(v: &[T]) { loop {} }
pub fn dump<T>(label: &str, v: &T) { loop {} }
/// Uninterpreted function.
pub fn uf<T>(name: &str, k: usize, args: &[T]) -> T { loop {} }
pub fn h_init<T>(s: &mut T) { loop {} }
pub fn h_absorb<T>(s: &mut T, d: &[u8]) { loop {} }
pub fn h_out<T, O>(s: &T, o: &mut O) { loop {} }
pub fn note(label: &str, v: usize) { loop {} }
pub fn mark(label: &str) { loop {} }
pub fn begin() { loop {} }
pub fn end() { loop {} }
/// Field of a struct by name, or the only field of type R.
pub fn field<'a, P, R>(p: &'a P, name: &str) -> &'a R { loop {} }
/// Entry (i, j) of the reference table `name` (see tool/ref.py).
pub fn given<T>(name: &str, i: usize, j: usize) -> T { loop {} }
