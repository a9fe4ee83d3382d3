#[path = "../../../harness/src/st.rs"]
mod st;
fn main() {
    let ps: Vec<st::P> = std::env::args().skip(1).map(|a| { let v: Vec<f64> = a.split(',').map(|x| x.parse().unwrap()).collect(); v.try_into().unwrap() }).collect();
    for p in ps {
        println!("la01 {:?}", st::la01(p));
        println!("la02 {:?}", st::la02(p));
        println!("la03 {:?}", st::la03(p));
        println!("la04 {:?}", st::la04(p));
        println!("la05 {:?}", st::la05(p));
        println!("la06 {:?}", st::la06(p));
        println!("la07 {:?}", st::la07(p));
        println!("la08 {:?}", st::la08(p));
        println!("la09 {:?}", st::la09(p));
        println!("la10 {:?}", st::la10(p));
        println!("la11 {:?}", st::la11(p));
        println!("la12 {:?}", st::la12(p));
        println!("la13 {:?}", st::la13(p));
        println!("la14 {:?}", st::la14(p));
        println!("la15 {:?}", st::la15(p));
        println!("la16 {:?}", st::la16(p));
        println!("la17 {:?}", st::la17(p));
        println!("la18 {:?}", st::la18(p));
        println!("la19 {:?}", st::la19(p));
        println!("la20 {:?}", st::la20(p));
        println!("la21 {:?}", st::la21(p));
        println!("la22 {:?}", st::la22(p));
        println!("la23 {:?}", st::la23(p));
        println!("la24 {:?}", st::la24(p));
        println!("la25 {:?}", st::la25(p));
        println!("la26 {:?}", st::la26(p));
        println!("la27 {:?}", st::la27(p));
        println!("la28 {:?}", st::la28(p));
        println!("la29 {:?}", st::la29(p));
        println!("la30 {:?}", st::la30(p));
        println!("la31 {:?}", st::la31(p));
        println!("la32 {:?}", st::la32(p));
        println!("la33 {:?}", st::la33(p));
        println!("la34 {:?}", st::la34(p));
        println!("la35 {:?}", st::la35(p));
        println!("la36 {:?}", st::la36(p));
        println!("la37 {:?}", st::la37(p));
        println!("la38 {:?}", st::la38(p));
        println!("la39 {:?}", st::la39(p));
        println!("la40 {:?}", st::la40(p));
        println!("la41 {:?}", st::la41(p));
        println!("la42 {:?}", st::la42(p));
        println!("la43 {:?}", st::la43(p));
        println!("la44 {:?}", st::la44(p));
        println!("la45 {:?}", st::la45(p));
        println!("la46 {:?}", st::la46(p));
        println!("la47 {:?}", st::la47(p));
        println!("la48 {:?}", st::la48(p));
        println!("la49 {:?}", st::la49(p));
        println!("f01 {:?}", st::f01(p));
        println!("f02 {:?}", st::f02(p));
        println!("f03 {:?}", st::f03(p));
        println!("f04 {:?}", st::f04(p));
        println!("f05 {:?}", st::f05(p));
        println!("f06 {:?}", st::f06(p));
        println!("it01 {:?}", st::it01(p));
        println!("it02 {:?}", st::it02(p));
        println!("it03 {:?}", st::it03(p));
        println!("it04 {:?}", st::it04(p));
        println!("it05 {:?}", st::it05(p));
        println!("it06 {:?}", st::it06(p));
        println!("it07 {:?}", st::it07(p));
        println!("it08 {:?}", st::it08(p));
        println!("it09 {:?}", st::it09(p));
        println!("it10 {:?}", st::it10(p));
        println!("it11 {:?}", st::it11(p));
        println!("it12 {:?}", st::it12(p));
        println!("it13 {:?}", st::it13(p));
        println!("it14 {:?}", st::it14(p));
        println!("it15 {:?}", st::it15(p));
        println!("it16 {:?}", st::it16(p));
        println!("it17 {:?}", st::it17(p));
        println!("it18 {:?}", st::it18(p));
        println!("ve01 {:?}", st::ve01(p));
        println!("ve02 {:?}", st::ve02(p));
        println!("ve03 {:?}", st::ve03(p));
        println!("ve04 {:?}", st::ve04(p));
        println!("ve05 {:?}", st::ve05(p));
        println!("ve06 {:?}", st::ve06(p));
        println!("ve07 {:?}", st::ve07(p));
        println!("ve08 {:?}", st::ve08(p));
        println!("ve09 {:?}", st::ve09(p));
        println!("op01 {:?}", st::op01(p));
        println!("op02 {:?}", st::op02(p));
        println!("op03 {:?}", st::op03(p));
        println!("op04 {:?}", st::op04(p));
        println!("cf01 {:?}", st::cf01(p));
        println!("cf02 {:?}", st::cf02(p));
        println!("cf03 {:?}", st::cf03(p));
        println!("cf04 {:?}", st::cf04(p));
        println!("cf05 {:?}", st::cf05(p));
        println!("cf06 {:?}", st::cf06(p));
        println!("cf07 {:?}", st::cf07(p));
        println!("cf08 {:?}", st::cf08(p));
        println!("cf09 {:?}", st::cf09(p));
        println!("in01 {:?}", st::in01(p));
        println!("in02 {:?}", st::in02(p));
        println!("ma01 {:?}", st::ma01(p));
        println!("ma02 {:?}", st::ma02(p));
        println!("ma03 {:?}", st::ma03(p));
        println!("ma04 {:?}", st::ma04(p));
        println!("ct01 {:?}", st::ct01(p));
        println!("st01 {:?}", st::st01(p));
        println!("st02 {:?}", st::st02(p));
        println!("fa01 {:?}", st::fa01(p));
        println!("fa02 {:?}", st::fa02(p));
        println!("fa03 {:?}", st::fa03(p));
        println!("fa04 {:?}", st::fa04(p));
        println!("fa05 {:?}", st::fa05(p));
        println!("fa06 {:?}", st::fa06(p));
        println!("fa07 {:?}", st::fa07(p));
        println!("fa08 {:?}", st::fa08(p));
        println!("fa09 {:?}", st::fa09(p));
        println!("fa10 {:?}", st::fa10(p));
        println!("fa11 {:?}", st::fa11(p));
        println!("fa12 {:?}", st::fa12(p));
        println!("fa13 {:?}", st::fa13(p));
        println!("fa14 {:?}", st::fa14(p));
        println!("fa17 {:?}", st::fa17(p));
        println!("fa18 {:?}", st::fa18(p));
        println!("fa19 {:?}", st::fa19(p));
        println!("fa20 {:?}", st::fa20(p));
        println!("fa21 {:?}", st::fa21(p));
        println!("nd01 {:?}", st::nd01(p));
        println!("nd02 {:?}", st::nd02(p));
        println!("nd03 {:?}", st::nd03(p));
        println!("nd04 {:?}", st::nd04(p));
        println!("nd05 {:?}", st::nd05(p));
        println!("nd06 {:?}", st::nd06(p));
        println!("nd07 {:?}", st::nd07(p));
        println!("nd08 {:?}", st::nd08(p));
        println!("nd09 {:?}", st::nd09(p));
        println!("nd10 {:?}", st::nd10(p));
        println!("nd11 {:?}", st::nd11(p));
        println!("nd12 {:?}", st::nd12(p));
        println!("nd13 {:?}", st::nd13(p));
        println!("nd14 {:?}", st::nd14(p));
        println!("nd15 {:?}", st::nd15(p));
        println!("ge08 {:?}", st::ge08(p));
        println!("ge09 {:?}", st::ge09(p));
        println!("ge10 {:?}", st::ge10(p));
        println!("ge13 {:?}", st::ge13(p));
        println!("sd01 {:?}", st::sd01(p));
        println!("sd02 {:?}", st::sd02(p));
        println!("sd03 {:?}", st::sd03(p));
        println!("sd04 {:?}", st::sd04(p));
        println!("sd06 {:?}", st::sd06(p));
        println!("sd07 {:?}", st::sd07(p));
        println!("sd08 {:?}", st::sd08(p));
        println!("sd09 {:?}", st::sd09(p));
        println!("sd10 {:?}", st::sd10(p));
        println!("sd11 {:?}", st::sd11(p));
        println!("sd12 {:?}", st::sd12(p));
        println!("sd13 {:?}", st::sd13(p));
        println!("g_arrays {:?}", st::g_arrays(p));
        println!("g_minmax_by {:?}", st::g_minmax_by(p));
        println!("g_while {:?}", st::g_while(p));
        println!("g_mem {:?}", st::g_mem(p));
        println!("g_splitmut {:?}", st::g_splitmut(p));
        println!("g_rchunks {:?}", st::g_rchunks(p));
        println!("g_boxfn {:?}", st::g_boxfn(p));
        println!("g_fnptr {:?}", st::g_fnptr(p));
        println!("g_rc {:?}", st::g_rc(p));
        println!("g_cow {:?}", st::g_cow(p));
        println!("g_iters {:?}", st::g_iters(p));
        println!("g_labels {:?}", st::g_labels(p));
        println!("g_letelse {:?}", st::g_letelse(p));
        println!("g_intops {:?}", st::g_intops(p));
        println!("g_floats {:?}", st::g_floats(p));
        println!("g_fixedslices {:?}", st::g_fixedslices(p));
        println!("g_na_ranges {:?}", st::g_na_ranges(p));
        println!("g_na_stat {:?}", st::g_na_stat(p));
        println!("g_na_arith {:?}", st::g_na_arith(p));
        println!("g_na_comp {:?}", st::g_na_comp(p));
        println!("g_na_chol {:?}", st::g_na_chol(p));
        println!("g_na_lu {:?}", st::g_na_lu(p));
        println!("g_na_sizes {:?}", st::g_na_sizes(p));
        println!("g_na_stack {:?}", st::g_na_stack(p));
        println!("g_na_rot {:?}", st::g_na_rot(p));
        println!("g_na_rot2 {:?}", st::g_na_rot2(p));
        println!("g_na_quat {:?}", st::g_na_quat(p));
        println!("g_na_iter {:?}", st::g_na_iter(p));
        println!("g_enum {:?}", st::g_enum(p));
        println!("g_default_trait {:?}", st::g_default_trait(p));
        println!("g_entry {:?}", st::g_entry(p));
        println!("g_strings {:?}", st::g_strings(p));
        println!("g_static {:?}", st::g_static(p));
        println!("g_once {:?}", st::g_once(p));
        println!("g_generic {:?}", st::g_generic(p));
        println!("g_vecops {:?}", st::g_vecops(p));
        println!("g_tuples {:?}", st::g_tuples(p));
    }
}
