use asciidocr::{parser::Parser, scanner::Scanner};
use std::io::Read;
fn loc(v:&serde_json::Value)->String{ if let Some(l)=v.get("location").and_then(|x|x.as_array()){ l.iter().map(|p|format!("{}:{}",p["line"],p["col"])).collect::<Vec<_>>().join("-")} else {"".into()}}
fn dump(v:&serde_json::Value, ind:usize){
    let pad="  ".repeat(ind);
    let mut s=format!("{}{}",pad,v["name"].as_str().unwrap_or("?"));
    for k in ["variant","form","delimiter","level","marker","value","target","id"]{ if let Some(x)=v.get(k){ s+=&format!(" {}={}",k,x);} }
    if let Some(m)=v.get("metadata"){ s+=&format!(" meta={}",m)}
    if let Some(m)=v.get("attributes"){ s+=&format!(" attrs={}",m)}
    if std::env::var("LOC").is_ok(){ s+=&format!(" @{}",loc(v)); }
    println!("{}",s);
    for k in ["header"]{ if let Some(x)=v.get(k){ println!("{} .{}",pad,k); dump(x,ind+2);} }
    for k in ["title","reftext","terms","term","principal","inlines","caption","blocks","items"]{
        if let Some(a)=v.get(k).and_then(|x|x.as_array()){ if a.is_empty(){continue} println!("{} .{}",pad,k); for x in a { if x.is_array(){ for y in x.as_array().unwrap(){dump(y,ind+2)} } else {dump(x,ind+2)} } }
    }
}
fn main(){
    let mut s=String::new(); std::io::stdin().read_to_string(&mut s).unwrap();
    if std::env::args().any(|a|a=="-t"){ for t in Scanner::new(&s){ println!("{:?}",t);} }
    let r=Parser::new_no_target_resolution(std::env::var("AT").unwrap_or("/tmp/x/y.adoc".into()).into()).parse(Scanner::new(&s));
    match r{ Ok(asg)=>{ let v=serde_json::to_value(&asg).unwrap(); if std::env::args().any(|a|a=="-j"){println!("{}",serde_json::to_string_pretty(&v).unwrap());} dump(&v,0);
        if std::env::args().any(|a|a=="-h"){ println!("{}",asciidocr::backends::htmls::render_htmlbook(&asg).unwrap()); } }
      Err(e)=>println!("ERR {:?}",e)}
}
