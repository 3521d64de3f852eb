from run import rf
W='ratel-wasm/src/lib.rs'
FE=open('/repo/'+W).read().split('fn format_errors')[1].split('#[wasm_bindgen]')[0]
GA=open('/repo/'+W).read().split('pub fn generate_ast(')[1].split('#[wasm_bindgen')[0]
T=open('/repo/'+W).read().split('pub fn transform(')[1].split('#[wasm_bindgen')[0]
H="(errors: Vec<Error>, source: &str) -> String {\n"
rf('OK manual join',[(W,FE,H+'''    let mut out = String::from("Error: ");
    for (i, err) in errors.into_iter().enumerate() {
        if i > 0 { out.push('\\n'); }
        let Error { start, end, .. } = err;
        out.push_str(&ParseError::UnexpectedToken { start, end, source: source.into() }.to_string());
    }
    out
}
''')])
