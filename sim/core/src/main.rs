//! Simulation harness for the modules of rstat that build on their own: constraints, parameters,
//! array storage and the linear algebra kernel.
mod cons;
mod lin;
mod report;
mod store;
mod vals;

use simcore::{main_with, Property, Scenario};

#[global_allocator]
static ALLOC: simcore::alloc::SimAlloc = simcore::alloc::SimAlloc;

fn s(name: &'static str, quick: u64, thorough: u64, run: fn()) -> Scenario { Scenario { name, quick, thorough, cpu_s: 20, run } }

const REAL: &str = "rstat's consts, utils, params/* and normal/linalg compiled from /repo/src; failure, serde, num, special-fun";
const STUB: &str = "simulated: schedules of client threads (edge-level preemption), user predicates and values, sinks and streams, BLAS/LAPACK backends (six models and OpenBLAS)";

fn main() {
    simblas::init();
    let p = |id, rule, scenarios| Property { id, rule, real: REAL, stubs: STUB, assumptions: &[], determinism_is_property: false, scenarios };
    let props = vec![
        p("C09", "distinct event histories of runs in which a predicate crashed or an input was refused part-way", vec![s("predicates", 12000, 180000, cons::c09_predicates)]),
        p("C10", "distinct event histories of checks on identified owned values", vec![s("single", 32000, 480000, cons::c10_single), s("clients", 20000, 300000, cons::c10_clients)]),
        p("C11", "distinct event histories of admission decisions asked in several ways", vec![
            s("history", 20000, 300000, cons::c11_history),
            s("long", 48, 720, cons::c11_long),
            s("clients", 20000, 300000, cons::c11_clients),
        ]),
        p("C12", "distinct event histories of texts written into failing sinks", vec![s("sinks", 32000, 480000, report::c12_core), s("clients", 12000, 180000, report::c12_clients)]),
        p("C13", "distinct event histories of values stored and restored through faulty streams", vec![s("streams", 32000, 480000, store::c13_core), s("clients", 12000, 180000, store::c13_clients)]),
        p("C14", "distinct event histories of restorations from damaged data", vec![s("damage", 40000, 600000, store::c14_core), s("clients", 12000, 180000, store::c14_clients)]),
        p("C16", "distinct event histories of factorisations over simulated backends", vec![s("single", 24000, 360000, lin::c16_single), s("clients", 12000, 180000, lin::c16_clients)]),
    ];
    main_with("core", props)
}
