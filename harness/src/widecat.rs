// Generated by tools/genwide.py.
use sv_harness::comp::*;
use sv_harness::exec::comp_fns;
use sv_harness::query::{entry, parallel, plain, Entry};
use sv_harness::sets::{fns, group, CompFns, GroupFns, SetFns};
use sparsey::entity::Entity;

pub fn comps() -> Vec<(u8, CompFns)> {
    vec![
        comp_fns::<G<0>>(),
        comp_fns::<G<1>>(),
        comp_fns::<G<2>>(),
        comp_fns::<G<3>>(),
        comp_fns::<G<4>>(),
        comp_fns::<G<5>>(),
        comp_fns::<G<6>>(),
        comp_fns::<G<7>>(),
        comp_fns::<G<8>>(),
        comp_fns::<G<9>>(),
        comp_fns::<G<10>>(),
        comp_fns::<G<11>>(),
        comp_fns::<G<12>>(),
        comp_fns::<G<13>>(),
        comp_fns::<G<14>>(),
        comp_fns::<G<15>>(),
        comp_fns::<G<16>>(),
        comp_fns::<G<17>>(),
        comp_fns::<G<18>>(),
        comp_fns::<G<19>>(),
        comp_fns::<G<20>>(),
        comp_fns::<G<21>>(),
        comp_fns::<G<22>>(),
        comp_fns::<G<23>>(),
        comp_fns::<G<24>>(),
        comp_fns::<G<25>>(),
        comp_fns::<G<26>>(),
        comp_fns::<G<27>>(),
        comp_fns::<G<28>>(),
        comp_fns::<G<29>>(),
        comp_fns::<G<30>>(),
        comp_fns::<G<31>>(),
        comp_fns::<G<32>>(),
        comp_fns::<G<33>>(),
        comp_fns::<G<34>>(),
        comp_fns::<G<35>>(),
        comp_fns::<G<36>>(),
        comp_fns::<G<37>>(),
        comp_fns::<G<38>>(),
        comp_fns::<G<39>>(),
        comp_fns::<G<40>>(),
        comp_fns::<G<41>>(),
        comp_fns::<G<42>>(),
        comp_fns::<G<43>>(),
        comp_fns::<G<44>>(),
        comp_fns::<G<45>>(),
        comp_fns::<G<46>>(),
        comp_fns::<G<47>>(),
        comp_fns::<G<48>>(),
        comp_fns::<G<49>>(),
        comp_fns::<G<50>>(),
        comp_fns::<G<51>>(),
        comp_fns::<G<52>>(),
        comp_fns::<G<53>>(),
        comp_fns::<G<54>>(),
        comp_fns::<G<55>>(),
        comp_fns::<G<56>>(),
        comp_fns::<G<57>>(),
        comp_fns::<G<58>>(),
        comp_fns::<G<59>>(),
        comp_fns::<G<60>>(),
        comp_fns::<G<61>>(),
        comp_fns::<G<62>>(),
        comp_fns::<G<63>>(),
        comp_fns::<G<64>>(),
        comp_fns::<G<65>>(),
        comp_fns::<G<66>>(),
        comp_fns::<G<67>>(),
        comp_fns::<G<68>>(),
        comp_fns::<G<69>>(),
        comp_fns::<G<70>>(),
        comp_fns::<G<71>>(),
    ]
}

pub fn sets() -> Vec<(Vec<u8>, SetFns)> {
    vec![
        fns::<()>(),
        fns::<(G<0>,)>(),
        fns::<(G<1>,)>(),
        fns::<(G<2>,)>(),
        fns::<(G<3>,)>(),
        fns::<(G<4>,)>(),
        fns::<(G<5>,)>(),
        fns::<(G<6>,)>(),
        fns::<(G<7>,)>(),
        fns::<(G<8>,)>(),
        fns::<(G<9>,)>(),
        fns::<(G<10>,)>(),
        fns::<(G<11>,)>(),
        fns::<(G<12>,)>(),
        fns::<(G<13>,)>(),
        fns::<(G<14>,)>(),
        fns::<(G<15>,)>(),
        fns::<(G<16>,)>(),
        fns::<(G<17>,)>(),
        fns::<(G<18>,)>(),
        fns::<(G<19>,)>(),
        fns::<(G<20>,)>(),
        fns::<(G<21>,)>(),
        fns::<(G<22>,)>(),
        fns::<(G<23>,)>(),
        fns::<(G<24>,)>(),
        fns::<(G<25>,)>(),
        fns::<(G<26>,)>(),
        fns::<(G<27>,)>(),
        fns::<(G<28>,)>(),
        fns::<(G<29>,)>(),
        fns::<(G<30>,)>(),
        fns::<(G<31>,)>(),
        fns::<(G<32>,)>(),
        fns::<(G<33>,)>(),
        fns::<(G<34>,)>(),
        fns::<(G<35>,)>(),
        fns::<(G<36>,)>(),
        fns::<(G<37>,)>(),
        fns::<(G<38>,)>(),
        fns::<(G<39>,)>(),
        fns::<(G<40>,)>(),
        fns::<(G<41>,)>(),
        fns::<(G<42>,)>(),
        fns::<(G<43>,)>(),
        fns::<(G<44>,)>(),
        fns::<(G<45>,)>(),
        fns::<(G<46>,)>(),
        fns::<(G<47>,)>(),
        fns::<(G<48>,)>(),
        fns::<(G<49>,)>(),
        fns::<(G<50>,)>(),
        fns::<(G<51>,)>(),
        fns::<(G<52>,)>(),
        fns::<(G<53>,)>(),
        fns::<(G<54>,)>(),
        fns::<(G<55>,)>(),
        fns::<(G<56>,)>(),
        fns::<(G<57>,)>(),
        fns::<(G<58>,)>(),
        fns::<(G<59>,)>(),
        fns::<(G<60>,)>(),
        fns::<(G<61>,)>(),
        fns::<(G<62>,)>(),
        fns::<(G<63>,)>(),
        fns::<(G<64>,)>(),
        fns::<(G<65>,)>(),
        fns::<(G<66>,)>(),
        fns::<(G<67>,)>(),
        fns::<(G<68>,)>(),
        fns::<(G<69>,)>(),
        fns::<(G<70>,)>(),
        fns::<(G<71>,)>(),
        fns::<(G<0>,G<1>,)>(),
        fns::<(G<0>,G<1>,G<2>,)>(),
        fns::<(G<0>,G<1>,G<2>,G<3>,)>(),
        fns::<(G<0>,G<1>,G<2>,G<3>,G<4>,)>(),
        fns::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,)>(),
        fns::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,)>(),
        fns::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,G<7>,)>(),
        fns::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,G<7>,G<8>,)>(),
        fns::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,G<7>,G<8>,G<9>,)>(),
        fns::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,G<7>,G<8>,G<9>,G<10>,)>(),
        fns::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,G<7>,G<8>,G<9>,G<10>,G<11>,)>(),
        fns::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,G<7>,G<8>,G<9>,G<10>,G<11>,G<12>,)>(),
        fns::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,G<7>,G<8>,G<9>,G<10>,G<11>,G<12>,G<13>,)>(),
        fns::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,G<7>,G<8>,G<9>,G<10>,G<11>,G<12>,G<13>,G<14>,)>(),
        fns::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,G<7>,G<8>,G<9>,G<10>,G<11>,G<12>,G<13>,G<14>,G<15>,)>(),
        fns::<(G<16>,G<17>,)>(),
        fns::<(G<16>,G<17>,G<18>,G<19>,G<20>,G<21>,G<22>,G<23>,G<24>,G<25>,G<26>,G<27>,G<28>,G<29>,G<30>,)>(),
        fns::<(G<16>,G<17>,G<18>,G<19>,G<20>,G<21>,G<22>,G<23>,G<24>,G<25>,G<26>,G<27>,G<28>,G<29>,G<30>,G<31>,)>(),
        fns::<(G<32>,G<33>,)>(),
        fns::<(G<32>,G<33>,G<34>,G<35>,G<36>,G<37>,G<38>,G<39>,G<40>,G<41>,G<42>,G<43>,G<44>,G<45>,G<46>,)>(),
        fns::<(G<32>,G<33>,G<34>,G<35>,G<36>,G<37>,G<38>,G<39>,G<40>,G<41>,G<42>,G<43>,G<44>,G<45>,G<46>,G<47>,)>(),
        fns::<(G<48>,G<49>,)>(),
        fns::<(G<48>,G<49>,G<50>,G<51>,G<52>,G<53>,G<54>,G<55>,G<56>,G<57>,G<58>,G<59>,G<60>,G<61>,G<62>,)>(),
        fns::<(G<48>,G<49>,G<50>,G<51>,G<52>,G<53>,G<54>,G<55>,G<56>,G<57>,G<58>,G<59>,G<60>,G<61>,G<62>,G<63>,)>(),
        fns::<(G<64>,G<65>,)>(),
        fns::<(G<66>,G<67>,)>(),
        fns::<(G<68>,G<69>,)>(),
        fns::<(G<70>,G<71>,)>(),
    ]
}

pub fn groups() -> Vec<(Vec<u8>, GroupFns)> {
    vec![
        group::<(G<0>,G<1>,)>(vec![10, 11]),
        group::<(G<0>,G<1>,G<2>,)>(vec![10, 11, 12]),
        group::<(G<0>,G<1>,G<2>,G<3>,)>(vec![10, 11, 12, 13]),
        group::<(G<0>,G<1>,G<2>,G<3>,G<4>,)>(vec![10, 11, 12, 13, 14]),
        group::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,)>(vec![10, 11, 12, 13, 14, 15]),
        group::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,)>(vec![10, 11, 12, 13, 14, 15, 16]),
        group::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,G<7>,)>(vec![10, 11, 12, 13, 14, 15, 16, 17]),
        group::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,G<7>,G<8>,)>(vec![10, 11, 12, 13, 14, 15, 16, 17, 18]),
        group::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,G<7>,G<8>,G<9>,)>(vec![10, 11, 12, 13, 14, 15, 16, 17, 18, 19]),
        group::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,G<7>,G<8>,G<9>,G<10>,)>(vec![10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20]),
        group::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,G<7>,G<8>,G<9>,G<10>,G<11>,)>(vec![10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]),
        group::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,G<7>,G<8>,G<9>,G<10>,G<11>,G<12>,)>(vec![10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]),
        group::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,G<7>,G<8>,G<9>,G<10>,G<11>,G<12>,G<13>,)>(vec![10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]),
        group::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,G<7>,G<8>,G<9>,G<10>,G<11>,G<12>,G<13>,G<14>,)>(vec![10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]),
        group::<(G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,G<7>,G<8>,G<9>,G<10>,G<11>,G<12>,G<13>,G<14>,G<15>,)>(vec![10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]),
        group::<(G<16>,G<17>,G<18>,G<19>,G<20>,G<21>,G<22>,G<23>,G<24>,)>(vec![26, 27, 28, 29, 30, 31, 32, 33, 34]),
        group::<(G<16>,G<17>,G<18>,G<19>,G<20>,G<21>,G<22>,G<23>,G<24>,G<25>,G<26>,G<27>,G<28>,G<29>,G<30>,G<31>,)>(vec![26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41]),
        group::<(G<32>,G<33>,G<34>,G<35>,G<36>,G<37>,G<38>,G<39>,G<40>,)>(vec![42, 43, 44, 45, 46, 47, 48, 49, 50]),
        group::<(G<32>,G<33>,G<34>,G<35>,G<36>,G<37>,G<38>,G<39>,G<40>,G<41>,G<42>,G<43>,G<44>,G<45>,G<46>,G<47>,)>(vec![42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57]),
        group::<(G<48>,G<49>,G<50>,G<51>,G<52>,G<53>,G<54>,G<55>,G<56>,)>(vec![58, 59, 60, 61, 62, 63, 64, 65, 66]),
        group::<(G<48>,G<49>,G<50>,G<51>,G<52>,G<53>,G<54>,G<55>,G<56>,G<57>,G<58>,G<59>,G<60>,G<61>,G<62>,G<63>,)>(vec![58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73]),
        group::<(G<64>,G<65>,)>(vec![74, 75]),
        group::<(G<66>,G<67>,)>(vec![76, 77]),
        group::<(G<68>,G<69>,)>(vec![78, 79]),
        group::<(G<70>,G<71>,)>(vec![80, 81]),
    ]
}

pub fn catalogue() -> Vec<Entry> {
    vec![
        plain::<(&'static G<0>,)>(),
        entry::<(Entity,), (&'static G<0>,), ()>(),
        entry::<(Entity,&'static G<0>,), (), (&'static G<1>,)>(),
        entry::<(&'static G<0>,), (), (&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,&'static G<14>,&'static G<15>,)>(),
        entry::<(Entity,&'static G<0>,), (&'static G<1>,), ()>(),
        plain::<(&'static G<0>,&'static G<1>,)>(),
        entry::<(Entity,), (&'static G<0>,&'static G<1>,), ()>(),
        entry::<(Entity,&'static G<0>,&'static G<1>,), (), (&'static G<2>,)>(),
        entry::<(&'static G<0>,&'static G<1>,), (), (&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,&'static G<14>,&'static G<15>,)>(),
        entry::<(Entity,&'static G<0>,), (&'static G<1>,&'static G<2>,), ()>(),
        entry::<(&'static G<0>,&'static G<1>,), (&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,&'static G<14>,&'static G<15>,), ()>(),
        entry::<(Entity,&'static G<1>,&'static G<0>,), (&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,), (&'static G<15>,&'static G<14>,)>(),
        entry::<(Entity,&'static G<0>,), (&'static G<1>,), (&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,&'static G<14>,&'static G<15>,)>(),
        plain::<(&'static G<0>,&'static G<1>,&'static G<2>,)>(),
        entry::<(Entity,), (&'static G<0>,&'static G<1>,&'static G<2>,), ()>(),
        entry::<(Entity,&'static G<0>,&'static G<1>,&'static G<2>,), (), (&'static G<3>,)>(),
        parallel::<(&'static G<2>,&'static G<1>,&'static G<0>,), (), ()>(plain::<(&'static G<2>,&'static G<1>,&'static G<0>,)>()),
        entry::<(Entity,), (&'static G<2>,&'static G<1>,&'static G<0>,), ()>(),
        plain::<(&'static G<0>,&'static mut G<1>,Entity,)>(),
        plain::<(&'static G<2>,&'static mut G<1>,Entity,)>(),
        plain::<(&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,)>(),
        entry::<(Entity,), (&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,), ()>(),
        entry::<(Entity,&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,), (), (&'static G<4>,)>(),
        entry::<(&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,), (&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,&'static G<14>,&'static G<15>,), ()>(),
        entry::<(Entity,&'static G<3>,&'static G<2>,&'static G<1>,&'static G<0>,), (&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,), (&'static G<15>,&'static G<14>,)>(),
        entry::<(Entity,&'static G<0>,), (&'static G<1>,&'static G<2>,&'static G<3>,), (&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,&'static G<14>,&'static G<15>,)>(),
        plain::<(&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,)>(),
        entry::<(Entity,), (&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,), ()>(),
        entry::<(Entity,&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,), (), (&'static G<5>,)>(),
        parallel::<(&'static G<4>,&'static G<3>,&'static G<2>,&'static G<1>,&'static G<0>,), (), ()>(plain::<(&'static G<4>,&'static G<3>,&'static G<2>,&'static G<1>,&'static G<0>,)>()),
        entry::<(Entity,), (&'static G<4>,&'static G<3>,&'static G<2>,&'static G<1>,&'static G<0>,), ()>(),
        plain::<(&'static G<0>,&'static mut G<1>,Option<&'static G<2>>,&'static G<3>,Entity,)>(),
        plain::<(&'static G<4>,&'static mut G<3>,Option<&'static G<2>>,&'static G<1>,Entity,)>(),
        plain::<(&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,)>(),
        entry::<(Entity,), (&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,), ()>(),
        entry::<(Entity,&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,), (), (&'static G<6>,)>(),
        plain::<(&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,)>(),
        entry::<(Entity,), (&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,), ()>(),
        entry::<(Entity,&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,), (), (&'static G<7>,)>(),
        entry::<(&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,), (), (&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,&'static G<14>,&'static G<15>,)>(),
        entry::<(Entity,&'static G<0>,), (&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,), ()>(),
        plain::<(&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,)>(),
        entry::<(Entity,), (&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,), ()>(),
        entry::<(Entity,&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,), (), (&'static G<8>,)>(),
        parallel::<(&'static G<7>,&'static G<6>,&'static G<5>,&'static G<4>,&'static G<3>,&'static G<2>,&'static G<1>,&'static G<0>,), (), ()>(plain::<(&'static G<7>,&'static G<6>,&'static G<5>,&'static G<4>,&'static G<3>,&'static G<2>,&'static G<1>,&'static G<0>,)>()),
        entry::<(Entity,), (&'static G<7>,&'static G<6>,&'static G<5>,&'static G<4>,&'static G<3>,&'static G<2>,&'static G<1>,&'static G<0>,), ()>(),
        plain::<(&'static G<0>,&'static mut G<1>,Option<&'static G<2>>,&'static G<3>,Option<&'static mut G<4>>,&'static G<5>,&'static mut G<6>,Entity,)>(),
        plain::<(&'static G<7>,&'static mut G<6>,Option<&'static G<5>>,&'static G<4>,Option<&'static mut G<3>>,&'static G<2>,&'static mut G<1>,Entity,)>(),
        entry::<(&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,), (&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,&'static G<14>,&'static G<15>,), ()>(),
        parallel::<(Entity,&'static G<7>,&'static G<6>,&'static G<5>,&'static G<4>,&'static G<3>,&'static G<2>,&'static G<1>,&'static G<0>,), (&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,), (&'static G<15>,&'static G<14>,)>(entry::<(Entity,&'static G<7>,&'static G<6>,&'static G<5>,&'static G<4>,&'static G<3>,&'static G<2>,&'static G<1>,&'static G<0>,), (&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,), (&'static G<15>,&'static G<14>,)>()),
        entry::<(Entity,&'static G<0>,), (&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,), (&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,&'static G<14>,&'static G<15>,)>(),
        plain::<(&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,)>(),
        entry::<(Entity,), (&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,), ()>(),
        entry::<(Entity,&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,), (), (&'static G<9>,)>(),
        plain::<(&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,)>(),
        entry::<(Entity,), (&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,), ()>(),
        entry::<(Entity,&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,), (), (&'static G<10>,)>(),
        plain::<(&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,)>(),
        entry::<(Entity,), (&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,), ()>(),
        entry::<(Entity,&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,), (), (&'static G<11>,)>(),
        plain::<(&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,)>(),
        entry::<(Entity,), (&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,), ()>(),
        entry::<(Entity,&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,), (), (&'static G<12>,)>(),
        parallel::<(&'static G<11>,&'static G<10>,&'static G<9>,&'static G<8>,&'static G<7>,&'static G<6>,&'static G<5>,&'static G<4>,&'static G<3>,&'static G<2>,&'static G<1>,&'static G<0>,), (), ()>(plain::<(&'static G<11>,&'static G<10>,&'static G<9>,&'static G<8>,&'static G<7>,&'static G<6>,&'static G<5>,&'static G<4>,&'static G<3>,&'static G<2>,&'static G<1>,&'static G<0>,)>()),
        entry::<(Entity,), (&'static G<11>,&'static G<10>,&'static G<9>,&'static G<8>,&'static G<7>,&'static G<6>,&'static G<5>,&'static G<4>,&'static G<3>,&'static G<2>,&'static G<1>,&'static G<0>,), ()>(),
        parallel::<(&'static G<0>,&'static mut G<1>,Option<&'static G<2>>,&'static G<3>,Option<&'static mut G<4>>,&'static G<5>,&'static mut G<6>,Option<&'static G<7>>,&'static G<8>,Option<&'static mut G<9>>,&'static G<10>,Entity,), (), ()>(plain::<(&'static G<0>,&'static mut G<1>,Option<&'static G<2>>,&'static G<3>,Option<&'static mut G<4>>,&'static G<5>,&'static mut G<6>,Option<&'static G<7>>,&'static G<8>,Option<&'static mut G<9>>,&'static G<10>,Entity,)>()),
        plain::<(&'static G<11>,&'static mut G<10>,Option<&'static G<9>>,&'static G<8>,Option<&'static mut G<7>>,&'static G<6>,&'static mut G<5>,Option<&'static G<4>>,&'static G<3>,Option<&'static mut G<2>>,&'static G<1>,Entity,)>(),
        entry::<(&'static G<11>,&'static G<10>,&'static G<9>,&'static G<8>,&'static G<7>,&'static G<6>,&'static G<5>,&'static G<4>,&'static G<3>,&'static G<2>,&'static G<1>,&'static G<0>,), (&'static G<12>,&'static G<13>,&'static G<14>,&'static G<15>,), ()>(),
        entry::<(Entity,&'static G<11>,&'static G<10>,&'static G<9>,&'static G<8>,&'static G<7>,&'static G<6>,&'static G<5>,&'static G<4>,&'static G<3>,&'static G<2>,&'static G<1>,&'static G<0>,), (&'static G<12>,&'static G<13>,), (&'static G<15>,&'static G<14>,)>(),
        entry::<(Entity,&'static G<0>,), (&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,), (&'static G<12>,&'static G<13>,&'static G<14>,&'static G<15>,)>(),
        plain::<(&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,)>(),
        entry::<(Entity,), (&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,), ()>(),
        entry::<(Entity,&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,), (), (&'static G<13>,)>(),
        plain::<(&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,)>(),
        entry::<(Entity,), (&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,), ()>(),
        entry::<(Entity,&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,), (), (&'static G<14>,)>(),
        entry::<(&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,), (), (&'static G<14>,&'static G<15>,)>(),
        entry::<(Entity,&'static G<0>,), (&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,&'static G<14>,), ()>(),
        plain::<(&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,&'static G<14>,)>(),
        entry::<(Entity,), (&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,&'static G<14>,), ()>(),
        entry::<(Entity,&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,&'static G<14>,), (), (&'static G<15>,)>(),
        plain::<(&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,&'static G<14>,&'static G<15>,)>(),
        entry::<(Entity,), (&'static G<0>,&'static G<1>,&'static G<2>,&'static G<3>,&'static G<4>,&'static G<5>,&'static G<6>,&'static G<7>,&'static G<8>,&'static G<9>,&'static G<10>,&'static G<11>,&'static G<12>,&'static G<13>,&'static G<14>,&'static G<15>,), ()>(),
        parallel::<(&'static G<15>,&'static G<14>,&'static G<13>,&'static G<12>,&'static G<11>,&'static G<10>,&'static G<9>,&'static G<8>,&'static G<7>,&'static G<6>,&'static G<5>,&'static G<4>,&'static G<3>,&'static G<2>,&'static G<1>,&'static G<0>,), (), ()>(plain::<(&'static G<15>,&'static G<14>,&'static G<13>,&'static G<12>,&'static G<11>,&'static G<10>,&'static G<9>,&'static G<8>,&'static G<7>,&'static G<6>,&'static G<5>,&'static G<4>,&'static G<3>,&'static G<2>,&'static G<1>,&'static G<0>,)>()),
        entry::<(Entity,), (&'static G<15>,&'static G<14>,&'static G<13>,&'static G<12>,&'static G<11>,&'static G<10>,&'static G<9>,&'static G<8>,&'static G<7>,&'static G<6>,&'static G<5>,&'static G<4>,&'static G<3>,&'static G<2>,&'static G<1>,&'static G<0>,), ()>(),
        parallel::<(&'static G<0>,&'static mut G<1>,Option<&'static G<2>>,&'static G<3>,Option<&'static mut G<4>>,&'static G<5>,&'static mut G<6>,Option<&'static G<7>>,&'static G<8>,Option<&'static mut G<9>>,&'static G<10>,&'static mut G<11>,Option<&'static G<12>>,&'static G<13>,Option<&'static mut G<14>>,Entity,), (), ()>(plain::<(&'static G<0>,&'static mut G<1>,Option<&'static G<2>>,&'static G<3>,Option<&'static mut G<4>>,&'static G<5>,&'static mut G<6>,Option<&'static G<7>>,&'static G<8>,Option<&'static mut G<9>>,&'static G<10>,&'static mut G<11>,Option<&'static G<12>>,&'static G<13>,Option<&'static mut G<14>>,Entity,)>()),
        plain::<(&'static G<15>,&'static mut G<14>,Option<&'static G<13>>,&'static G<12>,Option<&'static mut G<11>>,&'static G<10>,&'static mut G<9>,Option<&'static G<8>>,&'static G<7>,Option<&'static mut G<6>>,&'static G<5>,&'static mut G<4>,Option<&'static G<3>>,&'static G<2>,Option<&'static mut G<1>>,Entity,)>(),
        plain::<(&'static mut G<0>,&'static mut G<1>,&'static mut G<2>,&'static mut G<3>,&'static mut G<4>,&'static mut G<5>,&'static mut G<6>,&'static mut G<7>,&'static mut G<8>,&'static mut G<9>,&'static mut G<10>,&'static mut G<11>,&'static mut G<12>,&'static mut G<13>,&'static mut G<14>,&'static mut G<15>,)>(),
        plain::<(Entity,&'static mut G<0>,&'static mut G<1>,&'static mut G<2>,&'static mut G<3>,&'static mut G<4>,&'static mut G<5>,&'static mut G<6>,&'static mut G<7>,&'static mut G<8>,&'static mut G<9>,&'static mut G<10>,&'static mut G<11>,&'static mut G<12>,&'static mut G<13>,&'static mut G<14>,)>(),
        entry::<(Entity,Option<&'static G<0>>,Option<&'static G<1>>,Option<&'static G<2>>,Option<&'static G<3>>,Option<&'static G<4>>,Option<&'static G<5>>,Option<&'static G<6>>,Option<&'static G<7>>,Option<&'static G<8>>,Option<&'static G<9>>,Option<&'static G<10>>,Option<&'static G<11>>,Option<&'static G<12>>,Option<&'static G<13>>,Option<&'static G<14>>,), (&'static G<15>,), ()>(),
        plain::<(&'static G<16>,&'static G<17>,&'static G<18>,&'static G<19>,&'static G<20>,&'static G<21>,&'static G<22>,&'static G<23>,&'static G<24>,&'static G<25>,&'static G<26>,&'static G<27>,&'static G<28>,&'static G<29>,&'static G<30>,&'static G<31>,)>(),
        entry::<(Entity,), (&'static G<16>,&'static G<17>,&'static G<18>,&'static G<19>,&'static G<20>,&'static G<21>,&'static G<22>,&'static G<23>,&'static G<24>,&'static G<25>,&'static G<26>,&'static G<27>,&'static G<28>,&'static G<29>,&'static G<30>,&'static G<31>,), ()>(),
        entry::<(Entity,&'static G<16>,&'static G<17>,&'static G<18>,&'static G<19>,&'static G<20>,&'static G<21>,&'static G<22>,&'static G<23>,&'static G<24>,&'static G<25>,&'static G<26>,&'static G<27>,&'static G<28>,&'static G<29>,&'static G<30>,), (), (&'static G<31>,)>(),
        entry::<(&'static G<16>,&'static G<17>,), (), (&'static G<18>,)>(),
        plain::<(&'static G<32>,&'static G<33>,&'static G<34>,&'static G<35>,&'static G<36>,&'static G<37>,&'static G<38>,&'static G<39>,&'static G<40>,&'static G<41>,&'static G<42>,&'static G<43>,&'static G<44>,&'static G<45>,&'static G<46>,&'static G<47>,)>(),
        entry::<(Entity,), (&'static G<32>,&'static G<33>,&'static G<34>,&'static G<35>,&'static G<36>,&'static G<37>,&'static G<38>,&'static G<39>,&'static G<40>,&'static G<41>,&'static G<42>,&'static G<43>,&'static G<44>,&'static G<45>,&'static G<46>,&'static G<47>,), ()>(),
        entry::<(Entity,&'static G<32>,&'static G<33>,&'static G<34>,&'static G<35>,&'static G<36>,&'static G<37>,&'static G<38>,&'static G<39>,&'static G<40>,&'static G<41>,&'static G<42>,&'static G<43>,&'static G<44>,&'static G<45>,&'static G<46>,), (), (&'static G<47>,)>(),
        entry::<(&'static G<32>,&'static G<33>,), (), (&'static G<34>,)>(),
        plain::<(&'static G<48>,&'static G<49>,&'static G<50>,&'static G<51>,&'static G<52>,&'static G<53>,&'static G<54>,&'static G<55>,&'static G<56>,&'static G<57>,&'static G<58>,&'static G<59>,&'static G<60>,&'static G<61>,&'static G<62>,&'static G<63>,)>(),
        entry::<(Entity,), (&'static G<48>,&'static G<49>,&'static G<50>,&'static G<51>,&'static G<52>,&'static G<53>,&'static G<54>,&'static G<55>,&'static G<56>,&'static G<57>,&'static G<58>,&'static G<59>,&'static G<60>,&'static G<61>,&'static G<62>,&'static G<63>,), ()>(),
        entry::<(Entity,&'static G<48>,&'static G<49>,&'static G<50>,&'static G<51>,&'static G<52>,&'static G<53>,&'static G<54>,&'static G<55>,&'static G<56>,&'static G<57>,&'static G<58>,&'static G<59>,&'static G<60>,&'static G<61>,&'static G<62>,), (), (&'static G<63>,)>(),
        entry::<(&'static G<48>,&'static G<49>,), (), (&'static G<50>,)>(),
        plain::<(&'static G<64>,&'static G<65>,)>(),
        entry::<(Entity,&'static G<64>,), (), (&'static G<65>,)>(),
        entry::<(Entity,&'static G<64>,&'static G<65>,), (), (&'static G<0>,&'static G<1>,)>(),
        plain::<(&'static G<66>,&'static G<67>,)>(),
        entry::<(Entity,&'static G<66>,), (), (&'static G<67>,)>(),
        entry::<(Entity,&'static G<66>,&'static G<67>,), (), (&'static G<0>,&'static G<1>,)>(),
        plain::<(&'static G<68>,&'static G<69>,)>(),
        entry::<(Entity,&'static G<68>,), (), (&'static G<69>,)>(),
        entry::<(Entity,&'static G<68>,&'static G<69>,), (), (&'static G<0>,&'static G<1>,)>(),
        plain::<(&'static G<70>,&'static G<71>,)>(),
        entry::<(Entity,&'static G<70>,), (), (&'static G<71>,)>(),
        entry::<(Entity,&'static G<70>,&'static G<71>,), (), (&'static G<0>,&'static G<1>,)>(),
        plain::<(Entity,&'static G<0>,)>(),
        plain::<(Entity,&'static G<15>,)>(),
        plain::<(Entity,&'static G<16>,)>(),
        plain::<(Entity,&'static G<63>,)>(),
        plain::<(Entity,&'static G<64>,)>(),
        plain::<(Entity,&'static G<71>,)>(),
    ]
}
