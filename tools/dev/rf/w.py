from run import rf
W='ratel-wasm/src/lib.rs'
FE=open('/repo/'+W).read().split('fn format_errors')[1].split('#[wasm_bindgen]')[0]
GA=open('/repo/'+W).read().split('pub fn generate_ast(')[1].split('#[wasm_bindgen')[0]
T=open('/repo/'+W).read().split('pub fn transform(')[1].split('#[wasm_bindgen')[0]
H="(errors: Vec<Error>, source: &str) -> String {\n"
rf('OK one map',[(W,FE,H+"""    let messages: Vec<String> = errors
        .iter()
        .map(|err| ParseError::UnexpectedToken { start: err.start, end: err.end, source: source.to_owned() }.to_string())
        .collect();
    format!("Error: {}", messages.join("\\n"))
}
""")])
rf('OK loop push',[(W,FE,H+"""    let mut messages = Vec::new();
    for err in errors {
        let Error { start, end, .. } = err;
        let e = ParseError::UnexpectedToken { start, end, source: source.into() };
        messages.push(e.to_string());
    }
    let mut out = String::from("Error: ");
    out.push_str(&messages.join("\\n"));
    out
}
""")])
rf('OK loop ref',[(W,FE,H+"""    let mut messages = Vec::with_capacity(errors.len());
    for err in &errors {
        messages.push(format!("{}", ParseError::UnexpectedToken { start: err.start, end: err.end, source: source.to_string() }));
    }
    format!("Error: {}", messages.join("\\n"))
}
""")])
rf('OK helper',[(W,FE,H+"""    let messages = errors.into_iter().map(|err| describe(err, source)).collect::<Vec<_>>();
    "Error: ".to_string() + &messages.join("\\n")
}
fn describe(err: Error, source: &str) -> String {
    ParseError::UnexpectedToken { start: err.start, end: err.end, source: String::from(source) }.to_string()
}
""")])
rf('OK match flag',[(W,GA,"""data: &str, minify: bool) -> String {
    let module = match ratel::parse(data) {
        Ok(module) => module,
        Err(errors) => return format_errors(errors, data),
    };
    let body = module.body();
    match minify {
        false => format!("{:#?}", body),
        true => format!("{:?}", body),
    }
}
""")])
rf('OK helper parse',[(W,T,"""data: &str, minify: bool) -> String {
    with_module(data, |module| ratel_codegen::codegen(module, minify))
}
fn with_module<F: FnOnce(&ratel::Module) -> String>(data: &str, f: F) -> String {
    match ratel::parse(data) {
        Ok(ref module) => f(module),
        Err(errors) => format_errors(errors, data)
    }
}

""")])
rf('OK map_err',[(W,T,"""data: &str, minify: bool) -> String {
    ratel::parse(data)
        .map(|module| ratel_codegen::codegen(&module, minify))
        .unwrap_or_else(|errors| format_errors(errors, data))
}

""")])
rf('OK expect inlined',[(W,'if minify {\n				serde','if !!minify {\n				serde'),(W,'serde_json::to_string(&module).unwrap()','{ let out = serde_json::to_string(&module); out.expect("serializable") }')])
rf('OK format capture',[(W,'format!("Error: {}", error)','{ let mut s = String::new(); s.push_str("Error: "); s += &error; s }')])
rf('OK write',[(W,'format!("Error: {}", error)','{ use std::fmt::Write; let mut s = String::new(); write!(s, "Error: {}", error).unwrap(); s }')])
rf('OK concat',[(W,'format!("Error: {}", error)','["Error: ", &error].concat()')])
rf('BUG flag ignored',[(W,'codegen(&module, minify)','codegen(&module, true)')])
rf('BUG flag inverted',[(W,'codegen(&module, minify)','codegen(&module, !minify)')])
rf('BUG swapped',[(W,'if minify {\n		    	format','if !minify {\n		    	format')])
rf('BUG estree pretty',[(W,'serde_json::to_string_pretty(&module)','serde_json::to_string(&module)')])
rf('BUG export swap',[(W,'js_name = generateASTEstree','js_name = tmp'),(W,'js_name = generateAST)','js_name = generateASTEstree)'),(W,'js_name = tmp','js_name = generateAST')])
rf('BUG first error',[(W,'.into_iter()\n','.into_iter().take(1)\n')])
rf('BUG first error b',[(W,'	format!("Error: {}", error)','	format!("Error: {}", error.lines().next().unwrap_or(""))')])
rf('BUG start end',[(W,'UnexpectedToken { start, end,','UnexpectedToken { start: end, end: start,')])
rf('BUG end start',[(W,'UnexpectedToken { start, end,','UnexpectedToken { start, end: start,')])
rf('BUG end +1',[(W,'UnexpectedToken { start, end,','UnexpectedToken { start, end: end + 1,')])
rf('BUG sep',[(W,'join("\\n")','join(" ")')])
rf('BUG trim',[(W,'match ratel::parse(&data)','match ratel::parse(data.trim())')])
rf('BUG source trim',[(W,'source: source.to_string()','source: source.trim().to_string()')])
rf('BUG errors empty',[(W,'Err(errors) => format_errors(errors, data)','Err(errors) => format_errors(errors, "")')])
rf('BUG empty source',[(W,'	match ratel::parse(&data) {\n		Ok(module) => {\n			ratel_codegen','	if data.is_empty() { return "Error: empty".into(); }\n	match ratel::parse(&data) {\n		Ok(module) => {\n			ratel_codegen')])
rf('BUG debug source',[(W,'.map(|err| format!("{}", err))','.map(|err| format!("{:?}", err))')])
rf('BUG sort dedup',[(W,'    let error = errors\n','    let mut errors = errors; errors.dedup_by_key(|e| e.start);\n    let error = errors\n')])
rf('BUG loop skip',[(W,FE,H+"""    let mut messages = Vec::new();
    for err in errors {
        let Error { start, end, .. } = err;
        if start == end { continue; }
        let e = ParseError::UnexpectedToken { start, end, source: source.into() };
        messages.push(e.to_string());
    }
    format!("Error: {}", messages.join("\\n"))
}
""")])
rf('BUG unwrap',[(W,'Err(errors) => format_errors(errors, data)','Err(errors) => { let _ = format_errors(errors, data); panic!("syntax error") }')])
