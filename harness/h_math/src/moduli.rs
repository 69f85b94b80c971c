//! Written by tools/gen_moduli.py.
use crate::zq::{field, ring, Entry};
use sunscreen_math::BarrettConfig;

#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x2", num_limbs = 1, is_field = true)]
pub struct C0;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "3", num_limbs = 1, is_field = true)]
pub struct C1;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "4", num_limbs = 1)]
pub struct C2;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x5", num_limbs = 1, is_field = true)]
pub struct C3;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "6", num_limbs = 1)]
pub struct C4;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "7", num_limbs = 1, is_field = true)]
pub struct C5;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x8", num_limbs = 1)]
pub struct C6;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "10", num_limbs = 1)]
pub struct C7;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "13", num_limbs = 1, is_field = true)]
pub struct C8;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0xFF", num_limbs = 1)]
pub struct C9;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "256", num_limbs = 1)]
pub struct C10;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "257", num_limbs = 1, is_field = true)]
pub struct C11;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x3E8", num_limbs = 1)]
pub struct C12;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "12289", num_limbs = 1, is_field = true)]
pub struct C13;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "65535", num_limbs = 1)]
pub struct C14;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x10001", num_limbs = 1, is_field = true)]
pub struct C15;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "2147483647", num_limbs = 1, is_field = true)]
pub struct C16;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "2147483648", num_limbs = 1)]
pub struct C17;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0xFFFFFFFB", num_limbs = 1, is_field = true)]
pub struct C18;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "4294967295", num_limbs = 1)]
pub struct C19;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "4294967296", num_limbs = 1)]
pub struct C20;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x10000000F", num_limbs = 1, is_field = true)]
pub struct C21;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "3735928559", num_limbs = 1)]
pub struct C22;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "2305843009213693951", num_limbs = 1, is_field = true)]
pub struct C23;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x3FFFFFFFFFFFFFC7", num_limbs = 1, is_field = true)]
pub struct C24;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "4611686018427387904", num_limbs = 1)]
pub struct C25;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "9223372036854775783", num_limbs = 1, is_field = true)]
pub struct C26;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x7FFFFFFFFFFFFFFF", num_limbs = 1)]
pub struct C27;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "9223372036854775808", num_limbs = 1)]
pub struct C28;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "581507240692935", num_limbs = 1)]
pub struct C29;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x7CF454B377C36C3", num_limbs = 1)]
pub struct C30;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "532559", num_limbs = 1)]
pub struct C31;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "49924317575328315", num_limbs = 1)]
pub struct C32;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0xDCA25CAA663B", num_limbs = 1)]
pub struct C33;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "2305319", num_limbs = 1)]
pub struct C34;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "3", num_limbs = 2, is_field = true)]
pub struct C35;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x4D2", num_limbs = 2)]
pub struct C36;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "9223372036854775808", num_limbs = 2)]
pub struct C37;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "18446744073709551615", num_limbs = 2)]
pub struct C38;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x10000000000000000", num_limbs = 2)]
pub struct C39;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "18446744073709551617", num_limbs = 2)]
pub struct C40;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "18446744069414584321", num_limbs = 2, is_field = true)]
pub struct C41;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0xFFFFFFFFFFFFFFC5", num_limbs = 2, is_field = true)]
pub struct C42;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "36893488147419103183", num_limbs = 2, is_field = true)]
pub struct C43;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "79228162514264337593543950319", num_limbs = 2, is_field = true)]
pub struct C44;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", num_limbs = 2, is_field = true)]
pub struct C45;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "170141183460469231731687303715884105728", num_limbs = 2)]
pub struct C46;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "170141183460469231731687303715884105726", num_limbs = 2)]
pub struct C47;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x40000000000000000000000000000001", num_limbs = 2)]
pub struct C48;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "1875010817247500074726946023393", num_limbs = 2)]
pub struct C49;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "1263182635005789103679393785610391", num_limbs = 2)]
pub struct C50;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x1CF7BCCCB4CB0CA6A5492CCAD", num_limbs = 2)]
pub struct C51;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "238170094724306154595244449431", num_limbs = 2)]
pub struct C52;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "340282366920938463463374607431768211507", num_limbs = 3, is_field = true)]
pub struct C53;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x800000000000000000000000000000000000000000000000", num_limbs = 3)]
pub struct C54;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "3138550867693340381917894711603833208051177722232017256429", num_limbs = 3, is_field = true)]
pub struct C55;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "2092367245128893587945263141069222138700785148154678170965", num_limbs = 3)]
pub struct C56;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x2ABF4F69C1B26EDF6CA650FB1A0A57A68207439CC8FCF", num_limbs = 3)]
pub struct C57;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "680564733841876926926749214863536422912", num_limbs = 3)]
pub struct C58;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "57896044618658097711785492504343953926634992332820282019728792003956564819949", num_limbs = 4, is_field = true)]
pub struct C59;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x1000000000000000000000000000000014DEF9DEA2F79CD65812631A5CF5D3ED", num_limbs = 4, is_field = true)]
pub struct C60;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "57896044618658097711785492504343953926634992332820282019728792003956564819968", num_limbs = 4)]
pub struct C61;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "57896044618658097711785492504343953926634992332820282019728792003956564819967", num_limbs = 4)]
pub struct C62;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x1000000000000000000000000000000000000000000000001", num_limbs = 4)]
pub struct C63;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "421249101157150430150591791601812858371395928330411389778873040897", num_limbs = 4)]
pub struct C64;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "252390341108666556179767331906746037808246514287006446544464785277792745771", num_limbs = 4)]
pub struct C65;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x61", num_limbs = 4, is_field = true)]
pub struct C66;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "6703903964971298549787012499102923063739682910296196688861780721860882015036773488400937149083451713845015929093243025426876941405973284973216824503042048", num_limbs = 8)]
pub struct C67;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "6703903964971298549787012499102923063739682910296196688861780721860882015036773488400937149083451713845015929093243025426876941405973284973216824503041861", num_limbs = 8, is_field = true)]
pub struct C68;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x3928B9C1DF301D94278A370A1FB41D7A518DACA594F2E6DAFED2D169008724392873ADA2B1FC8930BE6C934F40D483630871B50619E6F88F9A423F8C1EBE5", num_limbs = 8)]
pub struct C69;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151", num_limbs = 9, is_field = true)]
pub struct C70;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "89884656743115795386465259539451236680898848947115328636715040578866337902750481566354238661203768010560056939935696678829394884407208311246423715319737062188883946712432742638151109800623047059726541476042502884419075341171231440736956555270413618581675255342293149119973622969239858152417678164812112068607", num_limbs = 16)]
pub struct C71;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x9612D858EB45921C42A853582EB8558921DD478BF0929CD181C826A938ED8C4860D583408F7C6ACD0E0D599F98671D5D8DA211EBFC69B345042D42242677FCBFF918E6E58AE9698F1B15F20FD7060931A9FA7D5B5A5A205B2638DB5D65DC83501BC1D3CBF59C494CF9A95F1B28BA4DCBEF0B0F66E84D66137B8626AEED", num_limbs = 16)]
pub struct C72;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "1052192516581616842402861448026667729403893100880096748320696322306485427923766689363782273538407", num_limbs = 5)]
pub struct C73;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "9512319331897440213727097474434158334410307135578457479332601305267623291466360463221853988530532368932575452151303", num_limbs = 6)]
pub struct C74;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x551DA13DE2B8E1256CB480BB98CECFCA84D0DC560E0227549E1F5F7E4B121E9E27D011F773E768FFDCA0D699899E2CA4B0F5956F20B42E01", num_limbs = 7)]
pub struct C75;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "692282934059440321696058083455941854596295379725634948930806866491016690424664698007474210934607183980682612786163704304500124843175391401728736657183235594219909978858113362848843499584390493", num_limbs = 10)]
pub struct C76;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "10518624971847348574582455818413167128670975253350447939113388336665201074105417278391142262070680580187710665540758857527066566042764897377834867723710182024708479021306252380828992962243587604120013709693343065", num_limbs = 11)]
pub struct C77;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x3C828656235A17DF0712980382D88A9461ACA4F2D2167D76CC08D75517EF995D289F2AADF988BFBEE235A44B73FCD3D68E1280FE2ED4D8400F3E0739AFBDC16E0B3FDCF5CBE577FA99705EF4C6ACF65D9F5D307D49FD0A6048B0B1014F62F493", num_limbs = 12)]
pub struct C78;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "1531149349592985312512133626151206216963991666885972765457524489626303293071220884543940157812229792850612568937996954594439089074752696974040473613521829687934558724830781786297300880174752454284633514061159588669668980179537180403233596755594764923", num_limbs = 13)]
pub struct C79;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "63515568545149225160978319689090727549320893899876933183682016185966690731506475524503531063606448203165955139163786689610603930688713367361402277504593134575791703804566866506797758051362633547805260778736325676223013783282320535595690471649266958337651626986951422841", num_limbs = 14)]
pub struct C80;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x290408D60CD8686FAA765AFABF42681791AF27F009CDF77E4DB445250F4629467C38AA7ED2A3C04D0CD93960FDA3F0F1387CDDE3A28D333C6ECEE27CDDF4A45002B05C0CE96CFFCDC7065526C3850B73BF652D40ECCD3A73DF0F8774E648447AB115ADB6A80A472D3CA9341F93B7B13B9FA2EB399D8DFA9B", num_limbs = 15)]
pub struct C81;

pub fn all() -> Vec<Entry> {
    vec![
        field::<1, C0>("2"),
        field::<1, C1>("3"),
        ring::<1, C2>("4"),
        field::<1, C3>("5"),
        ring::<1, C4>("6"),
        field::<1, C5>("7"),
        ring::<1, C6>("8"),
        ring::<1, C7>("10"),
        field::<1, C8>("13"),
        ring::<1, C9>("255"),
        ring::<1, C10>("256"),
        field::<1, C11>("257"),
        ring::<1, C12>("1000"),
        field::<1, C13>("12289"),
        ring::<1, C14>("65535"),
        field::<1, C15>("65537"),
        field::<1, C16>("2147483647"),
        ring::<1, C17>("2147483648"),
        field::<1, C18>("4294967291"),
        ring::<1, C19>("4294967295"),
        ring::<1, C20>("4294967296"),
        field::<1, C21>("4294967311"),
        ring::<1, C22>("3735928559"),
        field::<1, C23>("2305843009213693951"),
        field::<1, C24>("4611686018427387847"),
        ring::<1, C25>("4611686018427387904"),
        field::<1, C26>("9223372036854775783"),
        ring::<1, C27>("9223372036854775807"),
        ring::<1, C28>("9223372036854775808"),
        ring::<1, C29>("581507240692935"),
        ring::<1, C30>("562744667800352451"),
        ring::<1, C31>("532559"),
        ring::<1, C32>("49924317575328315"),
        ring::<1, C33>("242589897483835"),
        ring::<1, C34>("2305319"),
        field::<2, C35>("3"),
        ring::<2, C36>("1234"),
        ring::<2, C37>("9223372036854775808"),
        ring::<2, C38>("18446744073709551615"),
        ring::<2, C39>("18446744073709551616"),
        ring::<2, C40>("18446744073709551617"),
        field::<2, C41>("18446744069414584321"),
        field::<2, C42>("18446744073709551557"),
        field::<2, C43>("36893488147419103183"),
        field::<2, C44>("79228162514264337593543950319"),
        field::<2, C45>("170141183460469231731687303715884105727"),
        ring::<2, C46>("170141183460469231731687303715884105728"),
        ring::<2, C47>("170141183460469231731687303715884105726"),
        ring::<2, C48>("85070591730234615865843651857942052865"),
        ring::<2, C49>("1875010817247500074726946023393"),
        ring::<2, C50>("1263182635005789103679393785610391"),
        ring::<2, C51>("143441224536073057879542910125"),
        ring::<2, C52>("238170094724306154595244449431"),
        field::<3, C53>("340282366920938463463374607431768211507"),
        ring::<3, C54>("3138550867693340381917894711603833208051177722232017256448"),
        field::<3, C55>("3138550867693340381917894711603833208051177722232017256429"),
        ring::<3, C56>("2092367245128893587945263141069222138700785148154678170965"),
        ring::<3, C57>("255898652576553606147965360349990570342447855436599247"),
        ring::<3, C58>("680564733841876926926749214863536422912"),
        field::<4, C59>("57896044618658097711785492504343953926634992332820282019728792003956564819949"),
        field::<4, C60>("7237005577332262213973186563042994240857116359379907606001950938285454250989"),
        ring::<4, C61>("57896044618658097711785492504343953926634992332820282019728792003956564819968"),
        ring::<4, C62>("57896044618658097711785492504343953926634992332820282019728792003956564819967"),
        ring::<4, C63>("6277101735386680763835789423207666416102355444464034512897"),
        ring::<4, C64>("421249101157150430150591791601812858371395928330411389778873040897"),
        ring::<4, C65>("252390341108666556179767331906746037808246514287006446544464785277792745771"),
        field::<4, C66>("97"),
        ring::<8, C67>("6703903964971298549787012499102923063739682910296196688861780721860882015036773488400937149083451713845015929093243025426876941405973284973216824503042048"),
        field::<8, C68>("6703903964971298549787012499102923063739682910296196688861780721860882015036773488400937149083451713845015929093243025426876941405973284973216824503041861"),
        ring::<8, C69>("730875039587759401469493602760445124110491246370926115701350771420864209776089969192643004427408536715537802640882797258707937394930955569783443155941"),
        field::<9, C70>("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"),
        ring::<16, C71>("89884656743115795386465259539451236680898848947115328636715040578866337902750481566354238661203768010560056939935696678829394884407208311246423715319737062188883946712432742638151109800623047059726541476042502884419075341171231440736956555270413618581675255342293149119973622969239858152417678164812112068607"),
        ring::<16, C72>("6281451905836288874988707597799772548127416071298099571983954741035153399901401297015766341154491879944708225649417939281180006350197959609944663562868586969949286396555324285641841307004001564324990534953757713263719976648433109055403483007258294936173487293030572678392360467497685087365606817574637"),
        ring::<5, C73>("1052192516581616842402861448026667729403893100880096748320696322306485427923766689363782273538407"),
        ring::<6, C74>("9512319331897440213727097474434158334410307135578457479332601305267623291466360463221853988530532368932575452151303"),
        ring::<7, C75>("241661785330919075159146075487475653824871737468308703611729179758058006580159006091785003255691899290665976716060490552503328119729665"),
        ring::<10, C76>("692282934059440321696058083455941854596295379725634948930806866491016690424664698007474210934607183980682612786163704304500124843175391401728736657183235594219909978858113362848843499584390493"),
        ring::<11, C77>("10518624971847348574582455818413167128670975253350447939113388336665201074105417278391142262070680580187710665540758857527066566042764897377834867723710182024708479021306252380828992962243587604120013709693343065"),
        ring::<12, C78>("366963500007618025835636465639031005370351738188245414011507503921085729655872484796206073275960512551950265175965692218233379478919523674208919479473810939154486599404949647302221080439976309318693448660708340955475285250530276499"),
        ring::<13, C79>("1531149349592985312512133626151206216963991666885972765457524489626303293071220884543940157812229792850612568937996954594439089074752696974040473613521829687934558724830781786297300880174752454284633514061159588669668980179537180403233596755594764923"),
        ring::<14, C80>("63515568545149225160978319689090727549320893899876933183682016185966690731506475524503531063606448203165955139163786689610603930688713367361402277504593134575791703804566866506797758051362633547805260778736325676223013783282320535595690471649266958337651626986951422841"),
        ring::<15, C81>("1561372886511018540920562390813720953980746424871876993696949879694695093344442086127102658631013673688932031125329083416817181136080836820694822129944024248591063723349501907942544607127826058070533506213342497486729768903988522757533859017584806307582848291276321498452616675610151746203"),
    ]
}
