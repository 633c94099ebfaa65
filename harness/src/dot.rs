//! A small reader of the DOT files the library draws: what the picture shows, not how the file is laid out.
use std::collections::HashMap;
fn attrs(s: &str) -> HashMap<String, String> {
    let (mut m, mut key, mut cur, mut quoted, mut has) = (HashMap::new(), String::new(), String::new(), false, false);
    for ch in s.chars() {
        match ch {
            '"' => quoted = !quoted,
            '=' if !quoted => {
                key = cur.trim().to_string();
                cur.clear();
                has = true;
            }
            ',' | ';' | ']' if !quoted => {
                if has {
                    m.insert(std::mem::take(&mut key), cur.trim().to_string());
                }
                cur.clear();
                has = false;
            }
            _ => cur.push(ch),
        }
    }
    m
}
/// A label as [how it is spelt, number]: 0 = the number itself, 1 = the symbol "a<number>", 2 = the symbol "b<number>".
fn label(s: &str) -> String {
    if s == "<eps>" {
        return "[3,0]".into();
    }
    let (k, n) = match s.as_bytes().first() {
        Some(b'a') => (1, &s[1..]),
        Some(b'b') => (2, &s[1..]),
        _ => (0, s),
    };
    n.parse::<i64>().map(|n| format!("[{},{}]", k, n)).unwrap_or("[9,0]".into())
}
/// JSON of the picture: nodes [number, shown number, final, start, weight*], edges [from, to, ilabel, olabel*, weight*]
pub fn picture(text: &str, w: impl Fn(&str) -> i64) -> String {
    let (mut ns, mut es) = (vec![], vec![]);
    let opt = |x: Option<&str>| x.map(|s| format!("[{}]", w(s))).unwrap_or("[]".into());
    let mut depth = 0;
    let mut g: HashMap<String, String> = HashMap::new();
    let mut fonts = std::collections::BTreeSet::new();
    for l in text.lines() {
        let l = l.trim();
        depth += l.matches('{').count() as i64 - l.matches('}').count() as i64;
        let Some((head, rest)) = l.split_once('[') else {
            if let Some((k, v)) = l.split_once('=') {
                g.insert(k.trim().to_string(), v.trim().trim_end_matches(';').trim().trim_matches('"').to_string());
            }
            continue;
        };
        let at = attrs(rest);
        fonts.insert(at.get("fontsize").cloned().unwrap_or_default());
        let empty = String::new();
        let lab = at.get("label").unwrap_or(&empty);
        let (main, wt) = match lab.split_once('/') {
            Some((a, b)) => (a, Some(b)),
            None => (lab.as_str(), None),
        };
        if let Some((p, q)) = head.split_once("->") {
            let (il, ol) = match main.split_once(':') {
                Some((a, b)) => (label(a), format!("[{}]", label(b))),
                None => (label(main), "[]".into()),
            };
            es.push(format!("[{},{},{},{},{}]", p.trim().parse::<i64>().unwrap_or(-1), q.trim().parse::<i64>().unwrap_or(-1), il, ol, opt(wt)));
        } else if let Ok(p) = head.trim().parse::<i64>() {
            let shape = at.get("shape").map(|s| s.as_str());
            let style = at.get("style").map(|s| s.as_str());
            ns.push(format!("[{},{},{},{},{}]", p, main.parse::<i64>().unwrap_or(-1), (shape == Some("doublecircle")) as u8, (style == Some("bold")) as u8, opt(wt)));
        }
    }
    format!("{{\"n\":[{}],\"e\":[{}],\"bal\":{},\"blank\":{},\"h\":[{}],\"fonts\":[{}]}}", ns.join(","), es.join(","), depth == 0, text.trim().is_empty(),
        ["rankdir", "orientation", "label", "size", "ranksep", "nodesep"].iter().map(|k| format!("{:?}", g.get(*k).map(|x| x.as_str()).unwrap_or(""))).collect::<Vec<_>>().join(","),
        fonts.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(","))
}
