import subprocess,sys
F='/repo/ffi/native/src/lib.rs'
S=open(F).read()
def t(name,*ed):
    s=S
    for a,b in ed:
        if a not in s: print(name,'NOTFOUND'); return
        s=s.replace(a,b,1)
    open(F,'w').write(s)
    o=subprocess.run(['python3','/verif/lib/native.py'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True).stdout.splitlines()
    v=[l for l in o if l.startswith(('VIOL','UNAN'))]
    print(name,'|',(v or o[-1:])[0][:220], len(v), flush=True)
    open(F,'w').write(S)
t('export swap',('cx.export_function("parse", parse)','cx.export_function("parse", ast)'))
t('no export',('    cx.export_function("ast", ast)?;\n',''))
t('first error',('    .collect()\n','    .take(1).collect()\n'))
t('end',('{ start, end, source: source.value() }','{ start, end: start + 1, source: source.value() }'))
t('join',('.join("\\n");\n            return cx.throw_type_error(&str)\n        },\n        Ok(module) => module,\n    };\n\n    let result','.join(", ");\n            return cx.throw_type_error(&str)\n        },\n        Ok(module) => module,\n    };\n\n    let result'))
t('neg minify',('ratel_codegen::codegen(&module, minify.value())','ratel_codegen::codegen(&module, !minify.value())'))
t('pretty',('serde_json::to_string_pretty(&module)','serde_json::to_string(&module)'))
t('debug pretty',('format!("{:?}", module.body())','format!("{:#?}", module.body())'))
t('arg index',('let minify = cx.argument::<JsBoolean>(1)?;','let minify = cx.argument::<JsBoolean>(2)?;'))
t('parse needs 2',('    let source = cx.argument::<JsString>(0)?;\n\n    let module','    let source = cx.argument::<JsString>(0)?;\n    cx.argument::<JsBoolean>(1)?;\n\n    let module'))
t('len',('if cx.len() == 0 {','if cx.len() != 2 {'))
t('default minify',('ratel_codegen::codegen(&module, minify.value())','ratel_codegen::codegen(&module, m)'),('fn transform(mut cx: FunctionContext) -> JsResult<JsString> {\n    if cx.len() == 0 {\n        return cx.throw_type_error("First argument must be a string")\n    }\n\n    let source = cx.argument::<JsString>(0)?;\n    let minify = cx.argument::<JsBoolean>(1)?;','fn transform(mut cx: FunctionContext) -> JsResult<JsString> {\n    let source = cx.argument::<JsString>(0)?;\n    let m = if cx.len() > 1 { cx.argument::<JsBoolean>(1)?.value() } else { false };'))
t('errors returned',('            let str = format_errors(errors, source).join("\\n");\n            return cx.throw_type_error(&str)','            let str = format_errors(errors, source).join("\\n");\n            return Ok(cx.string(&str))'))
t('OK no len check',('    if cx.len() == 0 {\n        return cx.throw_type_error("First argument must be a string")\n    }\n\n    let source = cx.argument::<JsString>(0)?;\n\n','    let source = cx.argument::<JsString>(0)?;\n\n'))
t('OK helper',('fn ast(mut cx','fn load<\'a>(cx: &mut FunctionContext<\'a>) -> NeonResult<(Handle<\'a, JsString>, bool)> {\n    let source = cx.argument::<JsString>(0)?;\n    let minify = cx.argument::<JsBoolean>(1)?;\n    Ok((source, minify.value()))\n}\n\nfn ast(mut cx'),('    let source = cx.argument::<JsString>(0)?;\n    let minify = cx.argument::<JsBoolean>(1)?;\n\n    let module','    let (source, minify) = load(&mut cx)?;\n\n    let module'),('generate_ast(&module, minify.value())','generate_ast(&module, minify)'))
t('OK source text',('    let module = match ratel::parse(&source.value()) {','    let text = source.value();\n    let module = match ratel::parse(&text) {'))
t('OK loop',('    errors\n    .into_iter()\n    .map(|err| {\n        match err {\n            Error { start, end, .. } => {\n               ParseError::UnexpectedToken { start, end, source: source.value() }\n            }\n        }\n    })\n    .map(|err| format!("{}", err))\n    .collect()','    let mut out = Vec::with_capacity(errors.len());\n    for Error { start, end, .. } in errors {\n        out.push(ParseError::UnexpectedToken { start, end, source: source.value() }.to_string());\n    }\n    out'))
t('OK len1',('if cx.len() == 0 {','if cx.len() < 1 {'))
t('OK to json match',('let result = generate_ast(&module, minify.value()).unwrap();','let result = match generate_ast(&module, minify.value()) { Ok(r) => r, Err(e) => return cx.throw_error(format!("{}", e)) };'))
