import re
names=re.findall(r"^pub fn (\w+)\(p: P\)", open("../../harness/src/st.rs").read(), re.M)
open("src/main.rs","w").write("#[path = \"../../../harness/src/st.rs\"]\nmod st;\nfn main() {\n    let ps: Vec<st::P> = std::env::args().skip(1).map(|a| { let v: Vec<f64> = a.split(',').map(|x| x.parse().unwrap()).collect(); v.try_into().unwrap() }).collect();\n    for p in ps {\n"+"".join(f'        println!("{n} {{:?}}", st::{n}(p));\n' for n in names)+"    }\n}\n")
