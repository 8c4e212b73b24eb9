//! Conversations: a client's messages, in any order, against what the protocol promises.
use crate::common::*;
use crate::sym::*;
use lsp_server::*;
use lsp_types::{Uri, *};
use serde_json::{json, to_value, Value};
use wat_service::LanguageService;

const TEXTS: [&str; 3] = [
    "(module\n  (func $a (param $p i32) (call $a (local.get $p)))\n  (func (call $b)))",
    "(module (func $c (result i32) (i32.const 1)) (global $g (mut i32) (i32.const 0)))",
    "(module (func (param i32) (local.get 1))",
];
fn uris(k: usize) -> Uri { if k == 0 { uri() } else { uri_b() } }

/// every request the server announces
const KINDS: usize = 21;
fn request(k: usize, u: &Uri, p: Position) -> (&'static str, Value) {
    let d = json!({ "uri": u.as_str() });
    let at = json!({ "line": p.line, "character": p.character });
    let whole = json!({ "start": { "line": 0, "character": 0 }, "end": at.clone() });
    let pos = json!({ "textDocument": d.clone(), "position": at.clone() });
    let docv = json!({ "textDocument": d.clone() });
    let item = || json!({ "name": "$a", "kind": 12, "uri": u.as_str(), "range": whole.clone(), "selectionRange": { "start": { "line": 1, "character": 8 }, "end": { "line": 1, "character": 10 } } });
    let opts = json!({ "tabSize": 2, "insertSpaces": true });
    match k {
        0 => ("textDocument/prepareCallHierarchy", pos),
        1 => ("callHierarchy/incomingCalls", json!({ "item": item() })),
        2 => ("callHierarchy/outgoingCalls", json!({ "item": item() })),
        3 => ("textDocument/codeAction", json!({ "textDocument": d, "range": whole, "context": { "diagnostics": [] } })),
        4 => ("textDocument/completion", pos),
        5 => ("textDocument/diagnostic", docv),
        6 => ("textDocument/foldingRange", docv),
        7 => ("textDocument/formatting", json!({ "textDocument": d, "options": opts })),
        8 => ("textDocument/rangeFormatting", json!({ "textDocument": d, "range": whole, "options": opts })),
        9 => ("textDocument/definition", pos),
        10 => ("textDocument/typeDefinition", pos),
        11 => ("textDocument/declaration", pos),
        12 => ("textDocument/hover", pos),
        13 => ("textDocument/inlayHint", json!({ "textDocument": d, "range": whole })),
        14 => ("textDocument/references", json!({ "textDocument": d, "position": at, "context": { "includeDeclaration": true } })),
        15 => ("textDocument/prepareRename", pos),
        16 => ("textDocument/rename", json!({ "textDocument": d, "position": at, "newName": "$new" })),
        17 => ("textDocument/selectionRange", json!({ "textDocument": d, "positions": [at] })),
        18 => ("textDocument/semanticTokens/full", docv),
        19 => ("textDocument/semanticTokens/range", json!({ "textDocument": d, "range": whole })),
        _ => ("textDocument/documentSymbol", docv),
    }
}
/// what the service says to it
fn answer(k: usize, s: &LanguageService, v: Value) -> Result<Value, String> {
    macro_rules! ask { ($m:ident) => { to_value(s.$m(serde_json::from_value(v).unwrap())).unwrap() } }
    Ok(match k {
        0 => ask!(prepare_call_hierarchy), 1 => ask!(call_hierarchy_incoming_calls), 2 => ask!(call_hierarchy_outgoing_calls),
        3 => ask!(code_action), 4 => ask!(completion), 5 => ask!(pull_diagnostics), 6 => ask!(folding_range), 7 => ask!(formatting),
        8 => ask!(range_formatting), 9 => ask!(goto_definition), 10 => ask!(goto_type_definition), 11 => ask!(goto_declaration),
        12 => ask!(hover), 13 => ask!(inlay_hint), 14 => ask!(find_references), 15 => ask!(prepare_rename),
        16 => return s.rename(serde_json::from_value(v).unwrap()).map(|r| to_value(r).unwrap()),
        17 => ask!(selection_range), 18 => ask!(semantic_tokens_full), 19 => ask!(semantic_tokens_range), _ => ask!(document_symbol),
    })
}

enum Want { Result(Value), Error }

/// `steps` messages of any kind after the document is opened; p1: kinds of steps (0 all, 1 documents only, 2 requests only)
pub fn serve() {
    let steps = param(0, 1) as usize;
    let which = param(1, 0);
    let pull = flag();
    let (server_end, client) = Connection::memory();
    let mut model = LanguageService::default();
    let init = init_params();
    model.initialize(init.clone());
    let mut init = to_value(&init).unwrap();
    if pull { init["capabilities"]["textDocument"]["diagnostic"] = json!({}) }
    let send = |m: Message| { let _ = client.sender.send(m); };
    let mut wants: Vec<(RequestId, Want)> = vec![];
    let mut diags: Vec<(Value, bool)> = vec![]; // the notification, and whether it may be missing
    let (mut sent, mut kinds) = (String::new(), [false; 3]);
    let base = u32_in(0, 0x7fff_0000) as i32;
    let mut n = 0;
    let strings = flag();
    let letter = byte(b' ', b'~');
    let mut id = || -> RequestId { n += 1; if strings { let mut s = String::new(); s.push(letter as char); s.push((b'0' + n as u8) as char); s.into() } else { (base + n).into() } };
    let i0 = id();
    send(Request { id: i0.clone(), method: "initialize".into(), params: init }.into());
    send(Notification { method: "initialized".into(), params: json!({}) }.into());
    let published = |s: &LanguageService, u: Uri| to_value(s.publish_diagnostics(u)).unwrap();
    let open = |model: &mut LanguageService, diags: &mut Vec<(Value, bool)>, u: Uri, t: &str| {
        send(Notification { method: "textDocument/didOpen".into(), params: json!({ "textDocument": { "uri": u.as_str(), "languageId": "wat", "version": 1, "text": t } }) }.into());
        model.commit(u.clone(), t.into());
        if !pull { diags.push((published(model, u), false)) }
    };
    open(&mut model, &mut diags, uri(), TEXTS[0]);
    let mut opened = [true, false];
    for _ in 0..steps {
        let step = match which { 0 => pick(9), 1 => pick(4), _ => 4 + pick(3) };
        match step {
            0 => {
                let (k, t) = (pick(2), TEXTS[pick(3)]);
                assume(!opened[k]);
                sent += &format!("open {k}; ");
                open(&mut model, &mut diags, uris(k), t);
                opened[k] = true;
            }
            1 | 2 => { // full texts, one after the other
                let k = pick(2);
                assume(opened[k]);
                let ts: Vec<&str> = (0..step).map(|_| TEXTS[pick(3)]).collect();
                sent += &format!("change {k} {} times; ", ts.len());
                let changes: Vec<Value> = ts.iter().map(|t| json!({ "text": t })).collect();
                send(Notification { method: "textDocument/didChange".into(), params: json!({ "textDocument": { "uri": uris(k).as_str(), "version": 2 }, "contentChanges": changes }) }.into());
                model.commit(uris(k), ts[ts.len() - 1].into());
                if !pull { diags.push((published(&model, uris(k)), false)) }
            }
            3 => {
                let k = pick(2);
                assume(opened[k]);
                sent += &format!("close {k}; ");
                send(Notification { method: "textDocument/didClose".into(), params: json!({ "textDocument": { "uri": uris(k).as_str() } }) }.into());
                opened[k] = false;
                diags.push((json!({ "uri": uris(k).as_str(), "diagnostics": [] }), pull));
            }
            4 => {
                let u = pick(2);
                assume(opened[u]);
                let k = pick(KINDS);
                let p = if param(2, 0) == 1 { Position::new(1, u32_in(0, 50)) } else { [Position::new(1, 8), Position::new(0, 3)][pick(2)] };
                let (m, v) = request(k, &uris(u), p);
                sent += &format!("{m} {u} {}:{}; ", p.line, concretize(p.character as usize));
                let i = id();
                send(Request { id: i.clone(), method: m.into(), params: v.clone() }.into());
                wants.push((i, match answer(k, &model, v) { Ok(r) => Want::Result(r), Err(_) => Want::Error }));
                kinds[0] = true;
            }
            5 => { // known, but not with such parameters
                let k = pick(KINDS);
                let (m, _) = request(k, &uri(), Position::new(0, 0));
                let v = match pick(4) { 0 => Value::Null, 1 => json!({}), 2 => json!([1]), _ => json!({ "textDocument": 1, "item": 1 }) };
                sent += &format!("{m} {v}; ");
                let i = id();
                send(Request { id: i.clone(), method: m.into(), params: v }.into());
                wants.push((i, Want::Error));
                kinds[1] = true;
            }
            6 => {
                let m = ["workspace/symbol", "textDocument/willSaveWaitUntil", "textDocument/Hover", "", "$/x"][pick(5)];
                sent += &format!("{m:?}; ");
                let i = id();
                send(Request { id: i.clone(), method: m.into(), params: json!({ "textDocument": { "uri": "untitled:a" } }) }.into());
                wants.push((i, Want::Error));
                kinds[2] = true;
            }
            7 => {
                let m = ["$/cancelRequest", "textDocument/didSave", "textDocument/didOpen", "textDocument/didChange", "textDocument/didClose"][pick(5)];
                let v = match pick(3) { 0 => Value::Null, 1 => json!({}), _ => json!({ "textDocument": 1 }) };
                sent += &format!("notification {m} {v}; ");
                send(Notification { method: m.into(), params: v }.into());
            }
            _ => { sent += "response; "; send(Response::new_ok(RequestId::from(1), json!(null)).into()) }
        }
    }
    let shut = flag();
    if shut {
        let i = id();
        send(Request { id: i.clone(), method: "shutdown".into(), params: Value::Null }.into());
        wants.push((i, Want::Result(Value::Null)));
    }
    if shut || flag() { send(Notification { method: "exit".into(), params: Value::Null }.into()) }
    note(&sent);
    let Connection { sender, receiver } = client;
    drop(sender);
    feed(server_end);
    let end = crate::server::Server::default().run();
    check(end.is_ok(), "the server ends with an error");
    // ---- what it said
    let out: Vec<Message> = receiver.try_iter().collect();
    let (mut answers, mut published) = (vec![], vec![]);
    for m in &out {
        match m {
            Message::Response(r) => answers.push(r),
            Message::Notification(n) => published.push(n),
            Message::Request(_) => check(false, "the server asks something by itself"),
        }
    }
    check(answers.len() == wants.len() + 1, "not one answer for every request");
    let find = |i: &RequestId| -> Option<&Response> { let mut f = None; for r in &answers { if r.id == *i { if f.is_some() { check(false, "two answers for one request") } f = Some(*r) } } f };
    match find(&i0) { Some(r) => check(r.error.is_none() && r.result.as_ref().is_some_and(|v| !v["capabilities"].is_null()), "initialize is not answered with capabilities"), None => check(false, "initialize is not answered") }
    for (i, w) in &wants {
        let Some(r) = find(i) else { check(false, "a request is not answered"); return };
        match w {
            Want::Result(v) => { check(r.error.is_none(), "an error for a proper request"); check(r.result.as_ref() == Some(v), "the answer is not what the service says") }
            Want::Error => check(r.error.is_some() && r.result.is_none(), "no error for a request which can't be answered"),
        }
    }
    let mut k = 0;
    for n in &published {
        check(n.method == "textDocument/publishDiagnostics", "an unexpected notification");
        while k < diags.len() && diags[k].1 && diags[k].0 != n.params { k += 1 }
        check(k < diags.len() && diags[k].0 == n.params, "the diagnostics published are not those of the document");
        k += 1;
    }
    check(diags[k.min(diags.len())..].iter().all(|d| d.1), "diagnostics are not published");
    for (k, n) in kinds.iter().zip(["request", "malformed", "unknown"]) { if *k { reach(n) } }
    reach("conversation");
}
