//! Component values survive every other operation.
use crate::sx::*;
use crate::world::*;
use division_ecs::*;

/// `start`: component masks of the entities that exist at the beginning; then `steps` arbitrary
/// operations out of create / create with archetype / add / remove / overwrite / destroy.
pub fn history<X: Val, Y: Val, Z: Val>(cap: usize, start: &[usize], steps: usize, adds: &[usize], rems: &[usize], creates: &[usize]) {
    let mut w = World::<X, Y, Z>::new(cap);
    let mut i = 0;
    while i < start.len() {
        if start[i] == 0 { w.create(); } else { w.create_with(start[i]); }
        i += 1;
    }
    let mut k = 0;
    while k < steps {
        let op = choose(creates.len() + adds.len() + rems.len() + 2);
        if op < creates.len() {
            let m = creates[op];
            if m == 0 { w.create(); } else { w.create_with(m); }
        } else {
            let op = op - creates.len();
            let i = w.some_live();
            if op < adds.len() { w.add(i, adds[op]); }
            else if op < adds.len() + rems.len() { let m = rems[op - adds.len()]; w.remove(i, m); }
            else if op == adds.len() + rems.len() { w.destroy(i); }
            else { if w.has[i] == 0 { assume(false); } w.write(i, w.has[i]); }
        }
        w.verify();
        k += 1;
    }
    w.emit_all();
    cover(1);
}

/// The same histories with symbolic operands: which entity an operation is applied to stays
/// symbolic, and the final comparison is for every handle value at once.
pub fn symbolic<X: Val, Y: Val, Z: Val>(cap: usize, start: &[usize], steps: usize, adds: &[usize], rems: &[usize], creates: &[usize]) {
    let mut w = World::<X, Y, Z>::new(cap);
    let mut i = 0;
    while i < start.len() {
        if start[i] == 0 { w.create(); } else { w.create_with(start[i]); }
        i += 1;
    }
    w.steps_sym(steps, adds, rems, creates, true);
    w.verify_any();
    cover(1);
}
