//! Reads one JSON string per line, parses it as an include_cpp! body (or subclass attribute), dumps what was understood.
use autocxx_parser::{IncludeCppConfig, SubclassAttrs, UnsafePolicy};
use quote::ToTokens;
use serde_json::{json, Value};
use std::io::BufRead;

fn toks(t: impl ToTokens) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

fn dump(c: &IncludeCppConfig, probes: &[String], complete: bool) -> Value {
    json!({
        "inclusions": c.inclusions,
        "safety": match c.unsafe_policy {
            UnsafePolicy::AllFunctionsSafe => "safe",
            UnsafePolicy::AllFunctionsUnsafe => "unsafe",
            UnsafePolicy::ReferencesWrappedAllFunctionsSafe => "refs",
        },
        "parse_only": c.parse_only,
        "exclude_impls": c.exclude_impls,
        "exclude_utilities": c.exclude_utilities(),
        "pods": c.get_pod_requests(),
        "block": c.get_blocklist().collect::<Vec<_>>(),
        "opaque": c.get_opaquelist().collect::<Vec<_>>(),
        "instantiable": c.instantiable,
        "ctorblock": probes.iter().filter(|p| c.is_on_constructor_blocklist(p)).collect::<Vec<_>>(),
        "blockprobe": probes.iter().filter(|p| c.is_on_blocklist(p)).collect::<Vec<_>>(),
        "allow": if !complete { json!(null) } else { json!(c.bindgen_allowlist().map(|l| l.collect::<Vec<_>>())) },
        "allowprobe": if !complete { json!(null) } else { json!(probes.iter().filter(|p| c.is_on_allowlist(p)).collect::<Vec<_>>()) },
        "must": if !complete { json!(null) } else { json!(c.must_generate_list().collect::<Vec<_>>()) },
        "mod": c.get_mod_name().to_string(),
        "rsfile": c.get_rs_filename(),
        "rust_types": c.rust_types.iter().map(toks).collect::<Vec<_>>(),
        "subclasses": c.subclasses.iter().map(|s| json!([s.superclass, s.subclass.to_string()])).collect::<Vec<_>>(),
        "superclasses": c.superclasses().collect::<Vec<_>>(),
        "extern_funs": c.extern_rust_funs.iter().map(|f| json!([toks(&f.path), toks(&f.sig), f.has_receiver])).collect::<Vec<_>>(),
        "concretes": c.concretes.0.iter().map(|(k, v)| json!([k, v.to_string()])).collect::<Vec<_>>(),
        "externs": c.externs.0.iter().map(|(k, v)| json!([k, toks(&v.rust_path), v.opaque])).collect::<Vec<_>>(),
    })
}

fn one(req: &Value) -> Value {
    let text = req["text"].as_str().unwrap().to_string();
    let probes: Vec<String> = req["probes"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let f = || -> Value {
        if req["kind"] == "sub" {
            return match syn::parse_str::<SubclassAttrs>(&text) {
                Ok(s) => json!({"ok": true, "cfg": {"self_owned": s.self_owned, "superclass": s.superclass}}),
                Err(e) => json!({"ok": false, "err": e.to_string()}),
            };
        }
        let mut c = match syn::parse_str::<IncludeCppConfig>(&text) {
            Ok(c) => c,
            Err(e) => return json!({"ok": false, "err": e.to_string()}),
        };
        let first = dump(&c, &probes, false);
        c.confirm_complete();
        let complete = dump(&c, &probes, true);
        let printed = c.to_token_stream().to_string();
        let re = match syn::parse_str::<IncludeCppConfig>(&printed) {
            Ok(mut c2) => {
                c2.confirm_complete();
                let d = dump(&c2, &probes, true);
                let again = c2.to_token_stream().to_string();
                json!({"ok": true, "cfg": d, "stable": again == printed})
            }
            Err(e) => json!({"ok": false, "err": e.to_string()}),
        };
        json!({"ok": true, "cfg": first, "complete": complete, "printed": printed, "re": re})
    };
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        json!({"panic": m})
    })
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for l in std::io::stdin().lock().lines() {
        let req: Value = serde_json::from_str(&l.unwrap()).unwrap();
        println!("{}", one(&req));
    }
}
