//! Map files as the published version 0.1.5 writes them (golden/v0.1.5.json was written by that code, see
//! tools/golden_gen.rs), and the same files with their chunks and fields in another order or with white space.
use crate::rng::Rng;
use crate::store::{chunk_of, MapModel};
use serde_json::Value;
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Clone)]
pub struct Golden {
    pub text: String,
    pub tiles: Vec<(i32, i32, u8)>,
    pub empty: Vec<(i32, i32)>,
}
impl Golden {
    pub fn model(&self) -> MapModel {
        let mut m = MapModel::default();
        for &(x, y, v) in &self.tiles {
            m.tiles.insert((x, y), v);
            m.chunks.insert(chunk_of(x, y));
        }
        m.chunks.extend(self.empty.iter().copied());
        m
    }
    pub fn chunks(&self) -> BTreeSet<(i32, i32)> {
        self.model().chunks
    }
}
const BASES: usize = 40;
const VARIANTS: usize = 12;
pub const COUNT: usize = BASES * VARIANTS;
fn bases() -> &'static Vec<Golden> {
    static G: OnceLock<Vec<Golden>> = OnceLock::new();
    G.get_or_init(|| {
        let v: Value = serde_json::from_str(include_str!("../golden/v0.1.5.json")).unwrap();
        let i = |x: &Value| x.as_i64().unwrap() as i32;
        v.as_array()
            .unwrap()
            .iter()
            .map(|g| Golden {
                text: g["text"].as_str().unwrap().into(),
                tiles: g["tiles"].as_array().unwrap().iter().map(|t| (i(&t[0]), i(&t[1]), i(&t[2]) as u8)).collect(),
                empty: g["empty"].as_array().unwrap().iter().map(|t| (i(&t[0]), i(&t[1]))).collect(),
            })
            .collect()
    })
}
/// k: base file + 40 * variant
pub fn get(k: u16) -> Golden {
    let k = k as usize % COUNT;
    let b = &bases()[k % BASES];
    let mut g = b.clone();
    if k >= BASES {
        g.text = vary(&b.text, k as u64);
    }
    g
}
fn vary(text: &str, k: u64) -> String {
    let mut r = Rng::new(k ^ 0x676f_6c64);
    let v: Value = serde_json::from_str(text).unwrap();
    let mut chunks: Vec<&Value> = v["chunks"].as_array().unwrap().iter().collect();
    for i in (1..chunks.len()).rev() {
        chunks.swap(i, r.usize(i + 1));
    }
    let style = r.below(5);
    let mut ws = |deep: u32| -> String {
        match style {
            0 => String::new(),
            1 => " ".into(),
            2 => format!("\n{}", "  ".repeat(deep as usize)),
            3 => format!("\r\n{}", "\t".repeat(deep as usize)),
            _ => " \t\r\n".chars().cycle().skip(r.usize(4)).take(r.usize(5)).collect(),
        }
    };
    let mut order = Rng::new(k ^ 0x6f72_6465_72);
    let mut out = format!("{}{{{}\"chunks\"{}:{}[", ws(0), ws(1), ws(0), ws(1));
    for (n, c) in chunks.iter().enumerate() {
        if n > 0 {
            out += ",";
        }
        let list = |v: &Value, ws: &mut dyn FnMut(u32) -> String| -> String {
            let xs: Vec<String> = v.as_array().unwrap().iter().map(|x| format!("{}{x}{}", ws(6), ws(5))).collect();
            format!("[{}]", xs.join(","))
        };
        let pos = list(&c[0], &mut ws);
        let mut f = ["data", "dims", "dim_strides"];
        for i in (1..3).rev() {
            f.swap(i, order.usize(i + 1));
        }
        let fields: Vec<String> = f.iter().map(|n| format!("{}\"{n}\"{}:{}{}", ws(5), ws(0), ws(1), list(&c[1]["array2d"][*n], &mut ws))).collect();
        out += &format!("{}[{}{pos}{},{}{{{}\"array2d\"{}:{}{{{}{}}}{}}}{}]", ws(2), ws(3), ws(3), ws(3), ws(4), ws(0), ws(1), fields.join(","), ws(4), ws(3), ws(2));
    }
    out += &format!("{}]{}}}{}", ws(1), ws(0), ws(0));
    out
}
