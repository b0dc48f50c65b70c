//! Simulation harness over the whole crate: distributions, mixtures, fitting, storage.
mod crash;
mod draws;
mod fit;
mod law;
mod mix;
mod mvlaw;
mod pure;
mod sets;
mod simplex;
mod stat;
mod texts;
mod zoo;

use simcore::{main_with, Property, Scenario};

#[global_allocator]
static ALLOC: simcore::alloc::SimAlloc = simcore::alloc::SimAlloc;

fn s(name: &'static str, quick: u64, thorough: u64, run: fn()) -> Scenario { Scenario { name, quick, thorough, cpu_s: 30, run } }

const REAL: &str = "the whole of rstat compiled from /repo/src; rand, rand_distr, special-fun, serde, ndarray";
const STUB: &str = "simulated: the generator words, schedules of client threads (edge-level preemption), user callbacks, sinks and streams, BLAS/LAPACK backends; the spaces crate (not installed here) is replaced by a stub of the same interface";

fn main() {
    simblas::init();
    let p = |id, rule, scenarios| Property { id, rule, real: REAL, stubs: STUB, assumptions: &[], determinism_is_property: id == "C02", scenarios };
    let props = vec![
        p("C01", "distinct event histories of draws from hostile generators", vec![
            s("support", 40000, 800000, draws::c01_support),
            s("sweep", 16000, 320000, draws::c01_sweep),
            s("clients", 8000, 160000, draws::c01_clients),
        ]),
        p("C02", "distinct event histories of replayed draws", vec![s("replay", 24000, 480000, draws::c02_replay), s("clients", 12000, 240000, draws::c02_clients)]),
        p("C03", "distinct event histories of draws after generator faults", vec![
            s("progress", 24000, 480000, draws::c03_progress),
            s("stuck", 16000, 320000, draws::c03_stuck),
            s("clients", 6000, 120000, draws::c03_clients),
        ]),
        p("C04", "distinct draw histories compared with a declared law", vec![s("law", 3200, 100000, law::c04_law), s("pairs", 600, 20000, law::c04_pairs), s("sharp", 2500, 100000, law::c04_sharp), s("one", 4000, 100000, law::c04_one)]),
        p("C05", "distinct draw histories compared with reported statistics", vec![
            s("moments", 3200, 80000, law::c05_moments),
            s("order", 1600, 40000, law::c05_order),
            s("modes", 1200, 50000, law::c05_modes),
            s("sharp", 2500, 100000, law::c05_sharp),
            s("law", 4000, 100000, law::c05_law),
        ]),
        p("C06", "distinct mixtures and convolutions compared with their operands", vec![
            s("parts", 8000, 160000, mix::c06_parts),
            s("choice", 1500, 30000, mix::c06_choice),
            s("convolve", 2500, 50000, mix::c06_convolve),
        ]),
        p("C07", "distinct simplex points, weight vectors and histories", vec![
            s("points", 20000, 400000, simplex::c07_points),
            s("uniform", 2000, 40000, simplex::c07_uniform),
            s("index", 3000, 60000, simplex::c07_index),
            s("admission", 10000, 200000, simplex::c07_admission),
            s("sharp", 800, 30000, simplex::c07_sharp),
        ]),
        p("C08", "distinct draw histories in several dimensions, by backend", vec![
            s("moments", 1500, 30000, mvlaw::c08_moments),
            s("density", 1500, 30000, mvlaw::c08_density),
            s("sharp", 1500, 60000, mvlaw::c08_sharp),
        ]),
        p("C09", "distinct crash points, refusals and following histories", vec![
            s("draws", 4000, 80000, crash::c09_draws),
            s("clients", 4000, 80000, crash::c09_clients),
            s("memory", 3000, 60000, crash::c09_memory),
            s("refused", 6000, 120000, crash::c09_refused),
            s("owned", 10000, 200000, crash::c09_owned),
        ]),
        p("C11", "distinct sequences and interleavings of admission decisions", vec![
            s("sets", 20000, 400000, sets::c11_sets),
            s("clients", 5000, 100000, sets::c11_clients),
            s("lists", 10000, 200000, sets::c11_lists),
        ]),
        p("C12", "distinct texts, sink faults and interleavings", vec![
            s("objects", 6000, 120000, texts::c12_objects),
            s("refusals", 20000, 400000, texts::c12_refusals),
            s("values", 6000, 120000, texts::c12_values),
            s("clients", 4000, 80000, texts::c12_clients),
        ]),
        p("C13", "distinct stored values, stream faults and interleavings", vec![s("sets", 20000, 400000, sets::c13_sets), s("clients", 5000, 100000, sets::c13_clients)]),
        p("C14", "distinct damaged documents and interleavings", vec![s("sets", 30000, 600000, sets::c14_sets), s("clients", 5000, 100000, sets::c14_clients)]),
        p("C15", "distinct histories and interleavings of questions", vec![
            s("histories", 8000, 160000, pure::c15_histories),
            s("clients", 6000, 120000, pure::c15_clients),
            s("duel", 6000, 120000, pure::c15_duel),
            s("values", 2000, 40000, pure::c15_values),
            s("routes", 12000, 240000, pure::c15_routes),
        ]),
        p("C17", "distinct observation histories", vec![
            s("likelihood", 8000, 160000, fit::c17_likelihood),
            s("fit", 4000, 80000, fit::c17_fit),
            s("empty", 200, 2000, fit::c17_empty),
        ]),
    ];
    main_with("full", props)
}
