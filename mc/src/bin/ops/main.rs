mod mon;
mod more;

use mc::engine::{cli, CheckFn, Family, Prop};
use mc::shapes::{case, extra, family, listed};

fn fams(list: &[&str], full: CheckFn, fast: CheckFn) -> Vec<Family> {
    list.iter()
        .map(|s| match s.strip_prefix('!') {
            Some(s) => family(s, full),
            None => family(s, fast),
        })
        .collect()
}

/// Families of polygons. A `!` means: through the whole of `binary_op`, every time.
const POLY_QUICK: &[&str] = &[
    "!pp:g33:3x0:auto",
    "!pp:g33:4x0:auto",
    "!pp:g33:3x3:auto",
    "pp:g33:5x0:auto",
    "pp:g33:6x0:auto",
    "pp:g33:3x3:0.1",
    "pp:g33:3x3:0.3",
    "pp:g32:3+3x3:auto",
    "pp:g33:3x3:auto:rot",
    "pp:g33:3x3:auto:flat",
    "pp:g33:3x3:auto:neg",
    "many:auto:40",
    "pp:g33:3x3:auto:skew",
    "pp:near@0.01:3x3:0.01",
    "pp:nearh@0.02:3x3:0.01",
    "pp:nearv@0.02:3x3:0.01",
    "!bm:3x2:2x2:0,0:auto",
    "bm:3x2:2x2:0.5,0.5:auto",
    "bm:3x2:2x2:0,0:auto:rot",
    "nest:5:auto",
    "nest:5:auto:rot",
    "comb:auto",
    "star:auto",
    "strip:3:auto",
];

/// What C01 does on top of that.
const POLY_MORE: &[&str] = &[
    "pp:g33:4x3:auto",
    "pp:g33:3x3:auto:thin",
    "pp:g33:3x3:auto:big",
    "pp:g33:3x3:auto:far",
    "pp:g32:3x3:auto:x+1e10",
    "pp:g33:3x3:auto:y+1e10",
    "pp:g33:3x3:auto:y+-1e10",
    "pp:near@0.01:3x3:0.001",
    "pp:near@0.03:3x3:0.01",
    "pp:gen8:4x3:auto",
    "bm:3x3:3x2:0,0:auto",
    "strip:4:auto",
];

const POLY_THOROUGH: &[&str] = &[
    "bm:3x3:2x2:0,0:auto:rot",
    "bm:3x3:2x2:0.5,0.5:auto:shear",
    "comb:auto:shear",
    "!pp:g33:4x3:auto",
    "!pp:g33:6x0:auto",
    "pp:g33:5x3:auto",
    "pp:g33:4x4:auto",
    "pp:g33:7x0:auto",
    "pp:g44:3x3:auto",
    "pp:g44:4x0:auto",
    "pp:g44:5x0:auto",
    "pp:g33:4x3:0.01",
    "pp:g33:4x3:0.1",
    "pp:g33:4x3:0.3",
    "pp:g33:4x3:auto:rot",
    "pp:g33:4x3:auto:rot2",
    "pp:g33:4x3:auto:shear",
    "pp:g33:4x3:auto:far",
    "pp:g33:4x3:auto:off",
    "pp:g33:4x3:auto:flat",
    "pp:g33:4x3:auto:thin",
    "pp:g33:4x3:auto:big",
    "pp:g33:4x3:auto:tiny",
    "pp:g33:4x3:auto:skew",
    "pp:near@0.01:4x3:0.001",
    "pp:near@0.01:4x3:0.01",
    "pp:near@0.03:4x3:0.01",
    "pp:near@0.005:4x3:0.01",
    "pp:nearh@0.02:4x3:0.01",
    "pp:nearv@0.02:4x3:0.01",
    "pp:nearh@0.005:4x3:0.01",
    "pp:nearv@0.005:4x3:0.01",
    "pp:gen8:4x4:auto",
    "pp:gen10:4x3:0.05",
    "pp:g32:3+3x3+3:auto",
    "pp:g33:3+3x3:auto",
    "bm:3x3:3x3:0,0:auto",
    "bm:3x3:3x3:0.5,0.5:auto",
    "bm:3x3:3x3:0,0:auto:rot",
    "bm:3x3:3x3:0.5,0:auto:rot",
    "bm:4x3:2x2:1,0:auto",
    "bm:4x4:1x1:1,1:auto",
    "nest:7:auto",
    "nest:7:auto:rot",
    "comb:0.01:rot",
    "star:auto:rot",
    "star:0.01:far",
    "pp:g33:3x3:auto:x+-1e10",
    "strip:5:auto",
    "strip:5:auto:shear",
];

/// Families with curves.
const CURVE_QUICK: &[&str] = &[
    "!pp:g33:qx0:auto",
    "!pp:g22:qxq:auto",
    "pp:g33:cx0:auto",
    "pp:g32:qx3:auto",
    "pp:g32:qxq:auto",
    "pp:g22:cxc:auto",
    "pp:g32:cx3:auto",
    "pp:g22:qqx3:auto",
    "pp:g32:qqx0:auto",
    "pp:g22:cllxq:auto",
    "pp:g22:cqxq:auto",
    "pp:gen4:cxq:auto",
    "pp:gen5:qxq:auto",
    "pp:gen4:cllx3:auto",
    "!pp:g22:discxdisc:auto",
    "pp:g22:discxdisc:0.01",
    "pp:g22:qxq:0.1",
    "pp:g22:qxq:auto:rot2",
    "pp:g22:qxq:auto:neg",
    "pp:g32:qxq:0.01:neg",
];

const CURVE_THOROUGH: &[&str] = &[
    "pp:g22:cxc:0.01",
    "pp:g22:qqxqq:auto",
    "pp:g33:discx3:auto",
    "pp:g22:discxdisc:auto:far",
    "pp:g22:qxq:auto:big3",
    "!pp:g33:qx3:auto",
    "pp:g33:qxq:auto",
    "pp:g33:qxq:0.01",
    "pp:g32:cxq:auto",
    "pp:g32:cxq:0.01",
    "pp:g23:cxq:auto",
    "pp:g22:cxc:auto:rot",
    "pp:g22:cxc:auto:shear",
    "pp:g22:cxc:0.1",
    "pp:g32:qqxqq:auto",
    "pp:g22:cllxc:auto",
    "pp:g22:cqxcq:auto",
    "pp:gen4:cxc:auto",
    "pp:gen5:cxq:auto",
    "pp:gen5:cxc:0.01",
    "pp:gen6:qxq:auto",
    "pp:g33:qx3:auto:rot",
    "pp:g33:qx3:auto:far",
    "pp:g33:qx3:0.05",
    "pp:g33:discx3:0.01",
    "pp:g33:discxq:auto",
];

/// Families with curves in which the output is known to stay close to the input (there are curves
/// that the library approximates badly: see C03 in DESIGN.md).
const TUBE_QUICK: &[&str] = &[
    "!pp:g33:qx0:auto",
    "!pp:g22:qxq:auto",
    "pp:g33:cx0:auto",
    "pp:g22:qqx3:auto",
    "pp:gen4:cllx3:auto",
    "pp:g22:discxdisc:0.01",
    "pp:g22:qxq:0.1",
    "pp:g22:qxq:auto:neg",
    "pp:g22:qxq:auto:rot2",
    "pp:g32:qxq:0.01:neg",
    "pp:g32:qxq:0.1:rot2",
];

const TUBE_THOROUGH: &[&str] = &[
    "pp:g32:cx3:auto",
    "pp:g22:cxc:0.01",
    "pp:g22:cqxq:auto",
    "pp:gen4:cxq:auto",
    "pp:g33:qx3:auto",
    "pp:g33:qxq:auto",
    "pp:g32:qxq:auto",
    "pp:g22:qqxqq:auto",
    "pp:g22:cllxq:auto",
    "!pp:g22:discxdisc:auto",
    "pp:g33:discx3:auto",
    "pp:g22:discxdisc:auto:far",
    "pp:g22:qxq:auto:big3",
    "pp:g32:cxq:auto",
];

const RAW_QUICK: &[&str] = &["raw:LMZ:g22:5:auto", "raw:LQZ:g21:5:auto", "raw:CLZ:g21:4:auto", "raw:MLQCZ:g21:4:auto", "raw:QZ:g22:3:auto", "raw:C:g22:2:auto", "raw:LMZ:g22:4:0.6", "raw:LZ:near@1e-12:4:auto", "raw:LZ:near@1e-9:4:auto", "raw:LMZ:near@1e-6:3:auto", "raw:QZ:near@1e-9:2:auto"];
const RAW_THOROUGH: &[&str] = &["raw:LMZ:g22:6:auto", "raw:LQZ:g22:4:auto", "raw:LZ:g33:5:auto", "raw:MLQCZ:g21:5:auto", "raw:C:g22:3:auto", "raw:CZ:g32:2:auto", "raw:LQZ:g22:4:0.6"];
/// Large and small coordinates and accuracies.
const EXTREME_QUICK: &[&str] = &["pp:g33:3x3:1", "pp:g33:3x3:3", "pp:g22:qxq:1", "pp:g22:cxq:0.5", "pp:g33:4x0:0.5", "pp:g33:3x3:auto:tiny", "pp:g33:3x3:auto:big", "comb:1", "star:0.5", "many:auto:129", "many:0.3:40", "pp:g32:3x3:auto:by1e-300", "pp:g32:3x3:auto:by1e-30", "pp:g32:3x3:auto:by1e12", "pp:g32:3x3:auto:x+-1e10", "pp:g32:3x3:auto:y+1e10", "pp:g32:3x3:auto:y+-1e10", "pp:g22:qxq:auto:y+-1e7", "pp:g22:qxq:auto:x+1e5", "pp:g32:qx0:auto:by1e-100", "pp:g32:qx0:auto:by1e-12", "pp:g32:qx0:auto:by1e6", "pp:g32:qx0:auto:by1e9", "pp:g32:qx0:auto:by1e13", "pp:g22:qxq:auto:by1e4", "pp:g22:cx0:auto:by1e5"];
const EXTREME_THOROUGH: &[&str] = &["pp:g33:4x3:1", "many:auto:300", "pp:g33:4x3:0.5", "pp:g33:qx3:0.5", "pp:g22:cxc:0.5", "pp:g33:4x3:3", "pp:g32:3x3:auto:by1e-100", "pp:g32:3x3:auto:by1e8", "pp:g33:3x3:auto:x+-1e13", "pp:g33:3x3:auto:y+1e13", "pp:g33:3x3:auto:y+-1e15",  "pp:g32:3x3:auto:by1e10", "pp:g32:3x3:auto:by1e11", "pp:g32:qx0:auto:by1e-30", "pp:g22:qxq:auto:by1e5", "pp:g32:3x3:auto:by1e7", "pp:g32:3x3:auto:by1e9", "pp:g22:cxq:auto:by1e4"];
const INV_QUICK: &[&str] = &["pp:g33:3x0:auto", "pp:g33:4x0:auto", "pp:g32:3x3:auto", "pp:g32:3x3:0.01:rot", "bm:2x2:2x1:0,0:auto", "pp:g32:qx0:auto", "pp:g22:qxq:auto", "pp:g22:cx3:auto"];
const INV_THOROUGH: &[&str] = &["pp:g33:3x3:auto", "pp:g33:5x0:auto", "bm:3x2:2x2:0.5,0.5:auto:rot", "pp:g33:3x3:auto:shear", "nest:5:auto", "star:auto", "strip:3:auto", "pp:g33:qx0:auto", "pp:g22:qqx3:auto"];
const LAW_QUICK: &[&str] = &["pp:g32:3x3:auto", "pp:g33:3x3:auto", "bm:2x2:2x2:0,0:auto", "pp:g22:qxq:auto"];
const LAW_THOROUGH: &[&str] = &["pp:g33:4x3:auto", "pp:g33:3x3:auto:shear", "pp:g32:qxq:auto", "bm:3x2:2x2:0.5,0.5:auto:rot"];
const DET_QUICK: &[&str] = &["pp:g33:3x3:auto", "pp:g33:5x0:auto", "bm:3x2:2x2:0,0:auto", "nest:5:auto", "pp:g22:qxq:auto", "pp:g32:cx0:auto", "pp:g33:3x3:0.000000001"];
const DET_THOROUGH: &[&str] = &["star:auto", "pp:g33:4x3:auto", "comb:auto", "pp:g32:qx3:auto", "bm:3x3:3x2:0.5,0:auto:rot"];

fn both(tier: &str, full: CheckFn, fast: CheckFn, quick: &[&str], thorough: &[&str]) -> Vec<Family> {
    let mut v = polys(tier, full, fast);
    v.extend(fams(quick, full, fast));
    if tier == "thorough" {
        v.extend(fams(thorough, full, fast));
    }
    v
}

fn curved(tier: &str, full: CheckFn, fast: CheckFn) -> Vec<Family> {
    let mut v = fams(CURVE_QUICK, full, fast);
    if tier == "thorough" {
        v.extend(fams(CURVE_THOROUGH, full, fast));
    }
    v
}

fn polys(tier: &str, full: CheckFn, fast: CheckFn) -> Vec<Family> {
    let mut v = fams(POLY_QUICK, full, fast);
    if tier == "thorough" {
        v.extend(fams(POLY_MORE, full, fast));
        v.extend(fams(POLY_THOROUGH, full, fast));
    }
    v
}

fn main() {
    cli(vec![
        Prop {
            id: "C01",
            rule: "every index of every family; each one is a pair of polygon sets, all 4 operations x 2 fill rules; one sample in every trapezoid of the input arrangement",
            families: |t| {
                let mut v = polys(t, mon::region_full, mon::region_fast);
                if t == "quick" {
                    v.extend(fams(POLY_MORE, mon::region_full, mon::region_fast));
                }
                v.extend(fams(&["many:auto:129"], mon::region_full, mon::region_fast));
                v.extend(extra(mon::region_fast));
                v
            },
        },
        Prop {
            id: "C02",
            rule: "every index of every family; each one is a pair of sets bounded by quadratics, cubics and lines, all 4 operations x 2 fill rules; samples between all crossings of three scan lines in every gap between critical heights",
            families: |t| curved(t, mon::region_full, mon::region_fast),
        },
        Prop {
            id: "C03",
            rule: "every index of every family, all 4 operations x 2 fill rules; every output segment against the input's tube",
            families: |t| {
                let mut v = both(t, mon::tube_full, mon::tube_fast, TUBE_QUICK, TUBE_THOROUGH);
                v.extend(extra(mon::tube_fast));
                v.push(listed("known:strays", vec![
                    case("M1,1 C0,1;0,0;0,0 Z", "M1,1 C0,0;0,1;0,0 Z", None),
                    case("M0,1 C1,1;0,0;0,0 Z", "M0,1 C0,0;1,1;0,0 Z", None),
                    // Repaired; see known-findings.txt.
                    case("M-6.178428376536778,-6.89537656357896 Q-3.56237656357896,3.0914283765367783;0.123,-3.21 Z", "M-6.178428376536778,-6.89537656357896 Q-9.863804940115738,-0.5939481870421823;0.123,-3.21 Z", None),
                ], mon::tube_full));
                v
            },
        },
        Prop {
            id: "C04",
            rule: "every index of every family, all 4 operations x 2 fill rules; exact predicates on every pair of output segments",
            families: |t| {
                let mut v = both(t, mon::simple_full, mon::simple_fast, TUBE_QUICK, CURVE_THOROUGH);
                v.extend(extra(mon::simple_fast));
                v.push(listed("known:not-simple", vec![
                    case("M3,0 L2,2 L2,3 L0,2 L1,3 Z", "", Some(0.3)),
                    case("M0,0 L1,0.01 L0.01,1.01 Z", "M1,0 L0,1 L1.01,0.01 Z", Some(0.01)),
                    case("M0,1 Q1,0;0,0 Z", "M0,1 Q0,2;0,0 Z", None),
                    // Repaired; see known-findings.txt.
                    case("M10,0.0001 L0,0.001 L20,0.0012000000000000001 L10,0.0021 Z", "M0,0 L10,0.0011 L20,0.0022 Z", None),
                    case("M10,0.0001 L0,0.001 L20,0.0012000000000000001 L10,0.0021 Z", "M10,0.0001 L10,0.0011 L20,0.0022 Z", None),
                ], mon::simple_listed));
                v
            },
        },
        Prop {
            id: "C05",
            rule: "every index of every family, all 4 operations x 2 fill rules; one sample in every trapezoid of the output arrangement",
            families: |t| {
                let mut v = both(t, mon::structure_full, mon::structure_fast, TUBE_QUICK, CURVE_THOROUGH);
                v.extend(extra(mon::structure_fast));
                v
            },
        },
        Prop {
            id: "C06",
            rule: "every index of every family; all 4 operations x 2 fill rules must return, without a panic, contours that are closed, finite and no larger than the input",
            families: |t| {
                let mut v: Vec<Family> = RAW_QUICK.iter().map(|s| more::raw(s, more::total)).collect();
                v.extend(EXTREME_QUICK.iter().map(|s| family(s, more::total)));
                v.push(listed("known:extremes", vec![
                    case("M1e-300,1e-300 Q0,0;0,1e-300 Z", "", None),
                    // Repaired; see known-findings.txt.
                    case("M0,0 L1e12,0 L0,1e12 Z", "M1e12,0 L1e12,1e12 L0,0 Z", None),
                    case("M3e11,-7e11 L13e11,-7e11 L3e11,-7e11 L13e11,-7e11 Z", "M3e11,-7e11 L3e11,3e11 L13e11,13e11 Z", None),
                    case("M200000,100000 Q100000,0;0,0 Z", "", None),
                ], more::total));
                if t == "thorough" {
                    v.extend(RAW_THOROUGH.iter().map(|s| more::raw(s, more::total)));
                    v.extend(EXTREME_THOROUGH.iter().map(|s| family(s, more::total)));
                }
                v
            },
        },
        Prop {
            id: "C07",
            rule: "every index of every family; the verdict of binary_op, binary_op_with_eps and Topology::from_paths_binary against a reference validator; non-trivial: the input must be rejected",
            families: |t| {
                let mut v = vec![more::bad("bad:auto", more::validate), more::bad("bad:0.1", more::validate)];
                v.extend(RAW_QUICK.iter().map(|s| more::raw(s, more::validate)));
                if t == "thorough" {
                    v.extend(RAW_THOROUGH.iter().map(|s| more::raw(s, more::validate)));
                }
                v
            },
        },
        Prop {
            id: "C18",
            rule: "every index of every family; every rewriting of the input, all 4 operations x 2 fill rules; membership of one sample in every cell of the original arrangement",
            families: |t| {
                let mut v = fams(INV_QUICK, more::invariant, more::invariant);
                if t == "thorough" {
                    v.extend(fams(INV_THOROUGH, more::invariant, more::invariant));
                }
                v
            },
        },
        Prop {
            id: "C19",
            rule: "every program of the depth; after every step, one sample in every cell of the arrangement of all shapes used; and 12 algebraic laws for every pair of the other families",
            families: |t| {
                let mut v = vec![more::programs("prog:straight:2", more::compose), more::programs("prog:curved:2", more::compose)];
                v.extend(fams(LAW_QUICK, more::laws, more::laws));
                if t == "thorough" {
                    v.push(more::programs("prog:straight:3", more::compose));
                    v.push(more::programs("prog:curved:3", more::compose));
                    v.extend(fams(LAW_THOROUGH, more::laws, more::laws));
                }
                v
            },
        },
        Prop {
            id: "C20",
            rule: "every index of every family; results compared bit for bit over repeated calls, other calls in between, clones and all entry points",
            families: |t| {
                let mut v = fams(DET_QUICK, more::deterministic, more::deterministic);
                if t == "thorough" {
                    v.extend(fams(DET_THOROUGH, more::deterministic, more::deterministic));
                }
                v
            },
        },
    ])
}
